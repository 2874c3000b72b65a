"""C05: de-duplication."""
from checks.suggest import *
from GPyOpt.core.errors import FullyExploredOptimizationDomainError
from GPyOpt.util.duplicate_manager import DuplicateManager

BOUNDS = ['selected larger histories: up to 76 fixed points, the queried or refined point is arbitrary','1-2 declared variables; up to 2 evaluated, 2 pending and 2 ignored points (any coincidences, the origin included); batches of 1-3; random designs reduced to 1-4 points']
ASSUMPTIONS = ['acquisition values, model predictions and random draws arbitrary; the numerical optimizer returns any vector of the right length', 'exact reals: points which differ by rounding only are different locations']


def equal(ctx, a, b):
    return land(*[x == y for x, y in zip(a, b)])


def points(ctx, space, n, name):
    return [loop_point(ctx, space, '%s%d' % (name, i)) for i in range(n)]


@harness('C05', jobs=[dict(kinds=k, evaluator=e, batch=b, n=n, pend=p, ign=g, cap=c) for k, e, b, n, p, g, c in (
    [(['d3'], e, 1, 1, 1, 0, 1) for e in EVALUATORS] + [(['d3'], 'thompson', 2, 1, 1, 0, 2), (['d3'], 'random', 2, 1, 0, 0, 1), (['d3'], 'local_penalization', 2, 1, 0, 0, 1), (['d3'], 'local_penalization', 2, 0, 1, 0, 1)] +
    [(['d2'], e, b, 1, 0, 1, 2) for e in EVALUATORS for b in (1, 2) if e != 'sequential' or b == 1] +
    [(['c'], e, 1, 1, 1, 1, 1) for e in EVALUATORS] + [(['c'], 'random', 2, 1, 0, 0, 1), (['c'], 'thompson', 2, 1, 1, 0, 2), (['c'], 'local_penalization', 2, 1, 0, 1, 1)] +
    [(['k2', 'd2'], e, 1, 1, 1, 0, 1) for e in EVALUATORS] + [(['k2', 'd2'], 'random', 2, 1, 0, 0, 1), (['k2', 'd2'], 'thompson', 2, 1, 0, 0, 2)] +
    [(['d2', 'd2'], e, 1, 2, 0, 1, 1) for e in EVALUATORS] + [(['b3,1'], 'sequential', 1, 1, 0, 1, 2), (['b3,1'], 'random', 1, 1, 0, 0, 1)] + [(['b2,2', 'b2,1'], e, 1, 1, 1, 0, 1) for e in EVALUATORS])],
         thorough=[dict(kinds=k, evaluator=e, batch=2, n=2, pend=1, ign=1, cap=2) for k in (['d3'], ['c', 'd2'], ['k2', 'd2']) for e in ('random', 'thompson', 'local_penalization')], replays=8)
def batch(ctx, kinds, evaluator, batch, n, pend, ign, cap):
    """one suggestion with evaluated, pending and ignored points"""
    space = make_space(ctx, kinds, sym_domain=False)
    for d in space:
        if d['type'] == 'bandit':
            d['domain'] = ctx.arr(d['domain'])
    if kinds == ['b3,1']:
        space[0]['domain'] = ctx.arr([[0.0], [1.0], [2.5]])
    if kinds == ['d3']:
        space[0]['domain'] = (0.0, 1.0, 2.5)
    X0 = points(ctx, space, n, 'x')
    P, I = points(ctx, space, pend, 'p'), points(ctx, space, ign, 'i')
    if n == 0:
        X0 = points(ctx, space, 1, "x")
    bo, ds, acq = build(ctx, space, evaluator, batch, X0, cap=cap, dedup=True)
    taken = X0 + P + I
    pa, ia = ctx.arr(P) if P else None, ctx.arr(I) if I else None
    sp, si = snapshot(pa), snapshot(ia)
    try:
        S_ = bo.suggest_next_locations(pending_X=pa, ignored_X=ia)
    except FullyExploredOptimizationDomainError:
        S_ = None
    ctx.check('pending and ignored points are not modified', land(sp is None or unchanged(pa, sp), si is None or unchanged(ia, si)))
    if S_ is None:
        cands = [list(r) for r in ctx.designs[-1]]
        seen = taken if evaluator != 'local_penalization' else None
        if seen is not None:
            ctx.check('the request only fails when every candidate is excluded', land(*[lor(*[equal(ctx, c, t) for t in seen]) for c in cands]))
        return
    m = obj_dim(space)
    ok = np.ndim(S_) == 2 and 1 <= np.shape(S_)[0] <= batch and np.shape(S_)[1] == m
    ctx.check('the batch is not empty and not larger than requested', ok)
    if not ok:
        return
    rows = [list(r) for r in S_]
    for i, r in enumerate(rows):
        ctx.check('suggested location lies in the design space', in_objective_domain(ctx, space, r))
        ctx.check('no evaluated location is suggested', lnot(lor(*[equal(ctx, r, t) for t in X0])))
        ctx.check('no pending location is suggested', lnot(lor(*[equal(ctx, r, t) for t in P])))
        ctx.check('no ignored location is suggested', lnot(lor(*[equal(ctx, r, t) for t in I])))
        for s in rows[:i]:
            ctx.check('no location is suggested twice', lnot(equal(ctx, r, s)))
    if evaluator in ('sequential', 'local_penalization') or batch == 1:
        ctx.check('complete batch', len(rows) == batch)
    elif evaluator == 'random' and len(rows) < 2:
        used = taken + rows
        ctx.check('an incomplete batch only when the candidates are used up', lor(*[land(*[lor(*[equal(ctx, list(c), t) for t in used]) for c in d]) for d in ctx.designs]))


@harness('C05', jobs=[dict(evaluator=e, kinds=k) for e in EVALUATORS for k in (['d2'], ['k2'])], replays=8)
def exhausted(ctx, evaluator, kinds):
    """a fully explored discrete space ends with the documented error"""
    space = make_space(ctx, kinds, sym_domain=False)
    dom = [[float(v)] for v in space[0]['domain']]
    how = ctx.choice('how', ['evaluated', 'pending', 'ignored'])
    bo, ds, acq = build(ctx, space, evaluator, 1 if evaluator == 'sequential' else 2, dom if how == 'evaluated' else dom[:1], cap=2, dedup=True)
    kw = {} if how == 'evaluated' else {how + '_X': ctx.arr(dom[1:])}
    ctx.check('the request ends with the documented error', ctx.raises(FullyExploredOptimizationDomainError, bo.suggest_next_locations, **kw) is not None)


@harness('C05', jobs=[dict(kinds=k, n=n, pend=p, ign=g) for k in (['c', 'd2'], ['k2', 'c'], ['b2,2']) for n, p, g in ((1, 1, 1), (0, 2, 0), (2, 0, 1))])
def manager(ctx, kinds, n, pend, ign):
    """the duplicate manager recognizes exactly the points it was given, in both encodings"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space)
    X, P, I = points(ctx, space, n, 'x'), points(ctx, space, pend, 'p'), points(ctx, space, ign, 'i')
    dm = DuplicateManager(ds, ctx.arr(X) if X else np.zeros((0, obj_dim(space))), ctx.arr(P) if P else None, ctx.arr(I) if I else None)
    q = loop_point(ctx, space, 'q')
    want = lor(*[equal(ctx, q, t) for t in X + P + I])
    a = dm.is_zipped_x_duplicate(ctx.arr([q]))
    ctx.check('objective encoding', want if a else lnot(want))
    b = dm.is_unzipped_x_duplicate(ctx.arr([encode(space, q)]))
    ctx.check('model encoding', want if b else lnot(want))
    ctx.check('model encoding, one vector', want if dm.is_unzipped_x_duplicate(ctx.arr(encode(space, q))) else lnot(want))


@harness('C05', jobs=[dict(kinds=k, n=n, pend=p, ign=g) for k, n, p, g in ((['c', 'd2'], 70, 3, 3), (['k2', 'c'], 5, 40, 2), (['c'], 3, 2, 40), (['c9'], 12, 2, 2), (['d9', 'c'], 20, 2, 2), (['k9', 'c'], 12, 3, 3))],
         thorough=[dict(kinds=['c'], n=300, pend=40, ign=40)], replays=10, max_paths=400)
def large_manager(ctx, kinds, n, pend, ign):
    """the same with many fixed points"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space)

    def some(k, off, name):
        return [fixed_point(space, off + i) for i in range(k)]
    X, P, I = some(n, 0, 'x'), some(pend, 400, 'p'), some(ign, 600, 'i')
    dm = DuplicateManager(ds, ctx.arr(X), ctx.arr(P), ctx.arr(I))
    q = loop_point(ctx, space, 'q')
    want = lor(*[equal(ctx, q, t) for t in X + P + I])
    ctx.check('objective encoding', want if dm.is_zipped_x_duplicate(ctx.arr([q])) else lnot(want))
    ctx.check('model encoding', want if dm.is_unzipped_x_duplicate(ctx.arr([encode(space, q)])) else lnot(want))
    for i, t in enumerate(X + P + I):
        ctx.check('every point given is recognized', dm.is_zipped_x_duplicate(ctx.arr([t])))


@harness('C05', jobs=[dict(evaluator=e, n=n, pend=p) for e, n, p in (('sequential', 70, 0), ('thompson', 40, 30), ('random', 70, 2), ('local_penalization', 70, 0))], replays=6)
def long_history(ctx, evaluator, n, pend):
    """a suggestion after many evaluations at fixed points, with fixed random draws: whatever the numerical optimizer returns"""
    space = make_space(ctx, ['c', 'd2'], sym_domain=False)
    X0 = [fixed_point(space, i) for i in range(n)]
    P = [fixed_point(space, i + 300) for i in range(pend)]
    bo, ds, acq = build(ctx, space, evaluator, 1, X0, cap=1, dedup=True)
    ctx.rand.few = ()
    try:
        S_ = bo.suggest_next_locations(pending_X=ctx.arr(P) if P else None)
    except FullyExploredOptimizationDomainError:
        return
    ctx.check('the batch has one location', np.shape(S_) == (1, 2))
    ctx.check('no evaluated or pending location is suggested', land(*[lnot(equal(ctx, list(S_[0]), t)) for t in X0 + P]))


@harness('C05', jobs=[dict(evaluator=e) for e in ('sequential', 'random')], replays=8)
def loop(ctx, evaluator):
    """a de-duplicated run evaluates every location at most once"""
    space = make_space(ctx, ['d3'], sym_domain=False)
    space[0]['domain'] = (0.0, 1.0, 2.5)
    bo, ds, acq = build(ctx, space, evaluator, 1, points(ctx, space, 1, 'x'), cap=1, dedup=True)
    tab = Table(ctx)
    bo.objective = SingleObjective(tab)
    try:
        bo.run_optimization(max_iter=2, eps=-1)
    except FullyExploredOptimizationDomainError:
        ctx.check('the history is intact', np.shape(bo.X)[0] == np.shape(bo.Y)[0])
    for i in range(np.shape(bo.X)[0]):
        for j in range(i):
            ctx.check('no location is evaluated twice', bo.X[i, 0] != bo.X[j, 0])


@harness('C05', jobs=[dict(idx=[i], evaluator=e) for i in (0, 1) for e in ('sequential', 'thompson')], replays=8)
def with_context(ctx, idx, evaluator):
    """duplicates are recognized on the full point, context included"""
    space = make_space(ctx, ['d2', 'd2'], sym_domain=False)
    X0, P = points(ctx, space, 1, 'x'), points(ctx, space, 1, 'p')
    bo, ds, acq = build(ctx, space, evaluator, 1, X0, cap=2, dedup=True)
    v = ctx.choice('ctx', list(space[idx[0]]['domain']))
    try:
        S_ = bo.suggest_next_locations(context={space[idx[0]]['name']: v}, pending_X=ctx.arr(P))
    except FullyExploredOptimizationDomainError:
        other = 1 - idx[0]
        ctx.check('the request only fails when every candidate is excluded', land(*[lor(*[land(t[idx[0]] == v, t[other] == c[0]) for t in X0 + P]) for c in ctx.designs[-1]]))
        return
    ctx.check('the context is kept', ctx.eq(S_[0, idx[0]], v, 0))
    ctx.check('no used location is suggested', lnot(lor(*[equal(ctx, list(S_[0]), t) for t in X0 + P])))


@harness('C05', jobs=[dict(kinds=k, first=f, anchors=a, batch=b) for k, f, a, b in ((['c'], False, 3, 3), (['c'], True, 3, 3), (['c'], False, 4, 2), (['d3'], True, 2, 3), (['k2', 'c'], False, 3, 3))],
         thorough=[dict(kinds=['c'], first=f, anchors=4, batch=b) for f in (False, True) for b in (3, 4)], replays=8)
def sampling_batches(ctx, kinds, first, anchors, batch):
    """the batches built from anchor points: whatever the refinement returns, no point appears twice, and an anchor replaces a
    refined point which is already used"""
    from GPyOpt.core.evaluators.base import SamplingBasedBatchEvaluator
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space)
    X0 = points(ctx, space, 1, 'x')
    A_ = points(ctx, space, anchors, 'a')
    R = points(ctx, space, anchors, 'r')
    F = points(ctx, space, 1, 'f') if first else []
    for i, a in enumerate(A_):
        ctx.assume(lnot(equal(ctx, a, X0[0])))
        ctx.assume(lnot(equal(ctx, R[i], X0[0])))
        for b in A_[:i]:
            ctx.assume(lnot(equal(ctx, a, b)))
    for f in F:
        ctx.assume(lnot(equal(ctx, f, X0[0])))
    enc = [encode(space, a) for a in A_]

    class Evaluator(SamplingBasedBatchEvaluator):
        n = 0

        def initialize_batch(self, duplicate_manager=None, context_manager=None):
            return ctx.arr([encode(space, F[0])]) if F else None

        def get_anchor_points(self, duplicate_manager=None, context_manager=None):
            return ctx.arr(enc)

        def optimize_anchor_point(self, a, duplicate_manager=None, context_manager=None):
            self.n += 1
            return ctx.arr([encode(space, R[self.n - 1])])

    class Holder(object):
        pass
    acq = Holder()
    acq.space = ds
    out = Evaluator(acq, batch).compute_batch(duplicate_manager=DuplicateManager(ds, ctx.arr(X0)))
    ok = np.ndim(out) == 2 and 1 <= np.shape(out)[0] <= batch and np.shape(out)[1] == model_dim(space)
    ctx.check('the batch is not empty and not larger than requested', ok)
    if not ok:
        return
    enc_all = [encode(space, q) for q in F + A_ + R]
    for i in range(np.shape(out)[0]):
        r = list(out[i])
        ctx.check('every location is one of the candidates', lor(*[equal(ctx, r, q) for q in enc_all]))
        ctx.check('no evaluated location is suggested', lnot(equal(ctx, r, encode(space, X0[0]))))
        for j in range(i):
            ctx.check('no location is suggested twice', lnot(equal(ctx, r, list(out[j]))))
    if np.shape(out)[0] < batch:
        ctx.check('an incomplete batch only when every refined candidate is used', land(*[lor(*[equal(ctx, encode(space, q), list(out[j])) for j in range(np.shape(out)[0])]) for q in R]))
