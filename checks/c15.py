"""C15: acquisition optimization."""
import sys, types
from checks.suggest import *
from GPyOpt.core.errors import InvalidVariableNameError, FullyExploredOptimizationDomainError
from GPyOpt.optimization.acquisition_optimizer import ContextManager
from GPyOpt.optimization.optimizer import OptLbfgs, OptDirect, OptCma, choose_optimizer, apply_optimizer
from GPyOpt.optimization.anchor_points_generator import ObjectiveAnchorPointsGenerator, ThompsonSamplingAnchorPointsGenerator, RandomAnchorPointsGenerator
from GPyOpt.util.duplicate_manager import DuplicateManager
from checks.c03 import Cma

if 'DIRECT' not in sys.modules:
    sys.modules['DIRECT'] = types.ModuleType('DIRECT')
    sys.modules['DIRECT'].solve = None

BOUNDS = ['1-2 variables; 2-4 design points, 1-5 anchors requested; acquisition values in [-100,100], ties included; up to 3 refined candidates; up to 12 design points (thorough 40) with fixed scores and five refined candidates with arbitrary values']
ASSUMPTIONS = ['the acquisition is a function of the point, otherwise arbitrary; the numerical optimizer (fmin_l_bfgs_b, cma.fmin, DIRECT.solve) returns any vector, the value it reports is the objective at that vector']


class Function(Values):
    """arbitrary acquisition values, but the same value at the same point"""

    def value(self, r):
        v = self.ctx.real('%s%d' % (self.name, len(self.log)), self.lo, self.hi)
        for s, w in reversed(self.log):
            v = ite(land(*[x == y for x, y in zip(r, s)]), w, v)
        self.log.append((list(r), v))
        return v

    def __call__(self, x):
        x = np.atleast_2d(x)
        return self.ctx.arr([[self.value(r)] for r in x])


def same(a, b):
    return land(*[x == y for x, y in zip(a, b)])


def best_selected(ctx, rows, vals, sel, k, excluded=None):
    """sel: min(k, n) rows of the design, no design row left out is better than a selected one"""
    n = len(rows)
    m = min(k, n)
    ok = np.ndim(sel) == 2 and np.shape(sel)[0] == m
    ctx.check('as many anchor points as requested, or all candidates', ok)
    if not ok:
        return
    sel = [list(s) for s in sel]
    ctx.check('anchor points are design points', land(*[lor(*[same(r, s) for r in rows]) for s in sel]))
    for i in range(n):
        left = lnot(lor(*[same(rows[i], s) for s in sel]))
        ctx.check('no better-scoring design point is dropped', limplies(left, land(*[lor(*[land(same(rows[j], s), vals[j] <= vals[i]) for j in range(n)]) for s in sel])))


@harness('C15', jobs=[dict(kind=g, k=k, n=n, unique=u) for g in ('objective', 'thompson', 'random') for k, n, u in ((1, 3, False), (2, 3, False), (3, 3, False), (5, 2, False), (2, 3, True))],
         thorough=[dict(kind=g, k=k, n=4, unique=u) for g in ('objective', 'thompson', 'random') for k in (1, 2, 3) for u in (False, True)], replays=10)
def anchors(ctx, kind, k, n, unique):
    """selection of the anchor points"""
    space = make_space(ctx, ['c'], sym_domain=False)
    ds = Design_space(space)
    rnd = env.Rand(ctx, spread=3)
    ctx.designs = env.cap_designs(ctx, n)
    tab = Function(ctx)
    mod = PModel(ctx)
    normals = []
    if kind == 'thompson':
        orig = rnd.normal

        def normal(*a, **kw):
            r = orig(*a, **kw)
            normals.extend(list(np.asarray(r, dtype=object).reshape(-1)))
            return r
        ctx.patch(np.random, 'normal', normal)
    gen = dict(objective=lambda: ObjectiveAnchorPointsGenerator(ds, 'random', tab), thompson=lambda: ThompsonSamplingAnchorPointsGenerator(ds, 'random', mod), random=lambda: RandomAnchorPointsGenerator(ds, 'random'))[kind]()
    A = gen.get(num_anchor=k, unique=unique, context_manager=ContextManager(ds))
    rows = [list(r) for r in ctx.designs[-1]]
    if unique:
        # repeated points are removed first
        uniq = []
        for r in rows:
            if not any(bool(same(r, u)) for u in uniq):
                uniq.append(r)
        rows = sorted(uniq, key=lambda r: Key(r[0]))
        for i, a in enumerate(A):
            ctx.check('no anchor point occurs twice', lnot(lor(*[same(list(a), list(b)) for b in A[:i]])))
    if kind == 'random':
        ctx.check('as many anchor points as requested, or all candidates', np.shape(A) == (min(k, len(rows)), 1))
        ctx.check('anchor points are design points', land(*[lor(*[same(r, list(s)) for r in rows]) for s in A]))
    else:
        vals = [tab.value(r) for r in rows] if kind == 'objective' else normals
        ctx.check('every candidate is scored', len(vals) == len(rows))
        if len(vals) == len(rows):
            best_selected(ctx, rows, vals, A, k)


class Key(object):
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


@harness('C15', jobs=[dict(kinds=k, cap=c, grad=g, dup=d) for k, c, g, d in ((['c'], 1, True, False), (['c'], 2, True, False), (['c'], 2, False, False), (['c'], 1, True, True), (['d3'], 2, True, False), (['d3'], 1, True, True), (['k2', 'c'], 1, True, False), (['d2'], 2, True, True))],
         thorough=[dict(kinds=k, cap=3, grad=True, dup=False) for k in (['c'], ['d2'])], replays=10)
def best(ctx, kinds, cap, grad, dup):
    """the returned point is the best refined candidate, with its own value"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space)
    env.Rand(ctx, spread=3)
    env.cap_designs(ctx, cap)
    lb = env.Lbfgs(ctx, inside=False, evaluate=False)
    tab = Function(ctx)
    dm = None
    taken = []
    if dup:
        taken = [loop_point(ctx, space, 't%d' % i) for i in range(1)]
        dm = DuplicateManager(ds, ctx.arr(taken))
    opt = AcquisitionOptimizer(ds)
    g = (lambda x: (tab(x), np.zeros(np.shape(x)))) if grad else None
    try:
        x, fx = opt.optimize(f=tab, f_df=g, duplicate_manager=dm)
    except FullyExploredOptimizationDomainError:
        ctx.check('without duplicate manager there always are candidates', dup)
        return
    d = model_dim(space)
    ok = np.shape(x) == (1, d) and np.size(fx) == 1
    ctx.check('one point and its value', ok)
    if not ok:
        return
    fx = np.asarray(fx).reshape(-1)[0]
    x = [x[0, j] for j in range(d)]
    ctx.check('every anchor is refined', 1 <= len(lb.calls) <= cap)
    ctx.check('the reported value is that of the returned point', ctx.eq(fx, tab.value(x), 0))
    member = []
    for c in lb.calls:
        e = list(ds.round_optimum(np.atleast_2d(c['x']))[0])
        enc = [encode(space, t) for t in taken]
        isdup = lor(*[same(e, t) for t in enc]) if enc else False
        cand = [ite(isdup, a, b) for a, b in zip(list(c['x0']), e)]
        member.append(same(x, cand))
        ctx.check('no refined candidate is better', fx <= tab.value(cand))
    ctx.check('the returned point is a refined candidate', lor(*member))


class Ranked(Function):
    """the points of a fixed design have known values, any other point an arbitrary one"""

    def __init__(self, ctx, scores):
        super().__init__(ctx)
        self.scores, self.known = scores, None

    def __call__(self, x):
        x = np.atleast_2d(x)
        if self.known is None:
            self.known = {tuple(float(t) for t in r): s for r, s in zip(x, self.scores)}
        return super().__call__(x)

    def value(self, r):
        if not any(S(t) for t in r):
            k = tuple(float(t) for t in r)
            if k in self.known:
                return self.known[k]
        elif self.known:
            self.ctx.assume(land(*[lnot(same(r, p)) for p in self.known]))
        return super().value(r)


@harness('C15', jobs=[dict(d=d, n=n, order=o) for d, n, o in ((1, 8, 'up'), (2, 12, 'mixed'), (1, 5, 'down'), (1, 3, 'mixed'), (1, 7, 'flat'))], thorough=[dict(d=2, n=40, order='mixed')], replays=10)
def all_anchors(ctx, d, n, order):
    """larger candidate designs (fixed points with fixed scores): every one of the five best is refined, the best refined candidate is returned"""
    space = make_space(ctx, ['c'] * d, sym_domain=False)
    ds = Design_space(space)
    env.Rand(ctx, few=())
    env.cap_designs(ctx, n)
    lb = env.Lbfgs(ctx, inside=True, evaluate=False)
    scores = {'up': [float(i) for i in range(n)], 'down': [float(-i) for i in range(n)], 'mixed': [float((7 * i + 3) % 11) for i in range(n)], 'flat': [0.0] * n}[order]
    tab = Ranked(ctx, scores)
    x, fx = AcquisitionOptimizer(ds).optimize(f=tab)
    ok = np.shape(x) == (1, d) and np.size(fx) == 1
    ctx.check('one point and its value', ok)
    m = min(5, n)
    ctx.check('every anchor is refined once', len(lb.calls) == m)
    starts = sorted(tab.known[tuple(float(t) for t in np.asarray(c['x0']).reshape(-1))] for c in lb.calls)
    ctx.check('the refined anchors are the best-scoring design points', starts == sorted(scores)[:len(starts)])
    ctx.check('no anchor is refined twice', len(set(tuple(float(t) for t in np.asarray(c['x0']).reshape(-1)) for c in lb.calls)) == len(lb.calls))
    if ok:
        fx = np.asarray(fx).reshape(-1)[0]
        cands = [list(np.asarray(c['x'], dtype=object).reshape(-1)) for c in lb.calls]
        ctx.check('no refined candidate is better', land(*[fx <= tab.value(c) for c in cands]))
        ctx.check('the returned point is a refined candidate with its value', lor(*[land(same(list(x[0]), c), ctx.eq(fx, tab.value(c), 0)) for c in cands]))


@harness('C15', jobs=[dict(grad=g, d=d) for g in ('f_df', 'df', 'none') for d in (1, 2)], replays=10)
def lbfgs(ctx, grad, d):
    """L-BFGS wrapper: start, bounds, gradient, reported value; abnormal terminations"""
    lo = [ctx.real('lo%d' % i, -K, K) for i in range(d)]
    bounds = [(l, l + 1) for l in lo]
    lb = env.Lbfgs(ctx, inside=True, evaluate=True, failures=True)
    tab = Function(ctx)
    G = ctx.reals('G', (1, d), -10, 10)
    x0 = ctx.reals('x0', (1, d), -K, K)

    def f(x):
        return tab(x)[0]
    kw = {}
    if grad == 'f_df':
        kw['f_df'] = lambda x: (tab(x), G.copy())
    elif grad == 'df':
        kw['df'] = lambda x: G.copy()
    x, fx = OptLbfgs(bounds).optimize(x0.copy(), f=f, **kw)
    ctx.check('the optimizer is called once', len(lb.calls) == 1)
    c = lb.calls[0]
    ctx.check('it starts from the given point', ctx.eqv(c['x0'], x0, 0))
    ctx.check('it gets the bounds', len(c['bounds']) == d and land(*[land(b[0] == w[0], b[1] == w[1]) for b, w in zip(c['bounds'], bounds)]))
    ctx.check('gradients are approximated exactly when none are given', bool(c['approx_grad']) == (grad == 'none'))
    failed = bool(np.any([v != v for v in c['x']])) if not ctx.sym else not any(S(v) for v in c['x'])
    want = x0[0] if failed else c['x']
    ctx.check('one point', np.shape(x) == (1, d))
    ctx.check('the point found is returned, the starting point after an abnormal termination', ctx.eqv(x, want, 0))
    ctx.check('the value reported is that of the returned point', np.size(fx) == 1 and ctx.eq(np.asarray(fx).reshape(-1)[0], tab.value(list(want)), 0))
    if not failed and grad != 'none':
        ctx.check('the gradient given is the one used', ctx.eqv(c['g'], G, 0))
    if not failed:
        ctx.check('the function given is the one optimized', ctx.eqv(c['fval'], [tab.value(list(c['x']))], 0))


@harness('C15', jobs=[dict(d=2), dict(d=3)], replays=10)
def direct(ctx, d):
    """DIRECT wrapper"""
    lo = [ctx.real('lo%d' % i, -K, K) for i in range(d)]
    hi = [ctx.real('hi%d' % i, -K, K) for i in range(d)]
    tab = Function(ctx)
    rec = {}

    def solve(fun, l, u, maxT=None, **kw):
        x = ctx.reals('direct', (d,), -2 * K, 2 * K)
        rec.update(l=l, u=u, x=x, v=fun(x, None))
        return x, 0.0, 1
    ctx.patch(sys.modules['DIRECT'], 'solve', solve)
    x, fx = OptDirect(list(zip(lo, hi))).optimize(ctx.reals('x0', (1, d)), f=tab)
    ctx.check('bounds are handed over', land(ctx.eqv(rec['l'], lo, 0), ctx.eqv(rec['u'], hi, 0)))
    ctx.check('the point found is returned', np.shape(x) == (1, d) and ctx.eqv(x, rec['x'], 0))
    ctx.check('the value reported is that of the returned point', np.size(fx) == 1 and ctx.eq(np.asarray(fx).reshape(-1)[0], tab.value(list(rec['x'])), 0))
    ctx.check('the function given is the one optimized', ctx.eqv(rec['v'][0], [tab.value(list(rec['x']))], 0) and rec['v'][1] == 0)


@harness('C15', jobs=[dict(d=1), dict(d=2), dict(d=3)], replays=10)
def cma(ctx, d):
    """CMA wrapper"""
    lo = [ctx.real('lo%d' % i, -K, K) for i in range(d)]
    hi = [ctx.real('hi%d' % i, -K, K) for i in range(d)]
    c = Cma(ctx)
    tab = Function(ctx)
    x0 = ctx.reals('x0', (1, d), -K, K)
    o = OptCma(list(zip(lo, hi)))
    if d == 1:
        ctx.check('one-dimensional problems are rejected', ctx.raises(IndexError, o.optimize, x0, f=tab) is not None)
        return
    x, fx = o.optimize(x0.copy(), f=tab)
    xs, v, start, options = c.calls[0]
    ctx.check('it starts from the given point', ctx.eqv(start, x0, 0))
    ctx.check('bounds are handed over', land(ctx.eqv(options['bounds'][0], lo, 0), ctx.eqv(options['bounds'][1], hi, 0)))
    ctx.check('the point found is returned', np.shape(x) == (1, d) and ctx.eqv(x, xs, 0))
    ctx.check('the value reported is that of the returned point', np.size(fx) == 1 and ctx.eq(np.asarray(fx).reshape(-1)[0], tab.value(list(xs)), 0))
    ctx.check('the function given is the one optimized', ctx.eqv(v, [tab.value(list(xs))], 0))


@harness('C15', jobs=[dict(name=n) for n in ('lbfgs', 'DIRECT', 'CMA', 'LBFGS', 'newton', '')])
def names(ctx, name):
    """documented optimizer names select the optimizer, others are rejected"""
    cls = dict(lbfgs=OptLbfgs, DIRECT=OptDirect, CMA=OptCma).get(name)
    b = [(ctx.real('lo', -K, K), ctx.real('hi', -K, K))]
    if cls is None:
        ctx.check('unknown optimizers are rejected', ctx.raises(InvalidVariableNameError, choose_optimizer, name, b) is not None)
        ds = Design_space(make_space(ctx, ['c'], sym_domain=False))
        ctx.check('unknown optimizers are rejected when used', ctx.raises(InvalidVariableNameError, AcquisitionOptimizer(ds, name).optimize, f=lambda x: np.zeros((len(x), 1))) is not None)
    else:
        o = choose_optimizer(name, b)
        ctx.check('the named optimizer is chosen', type(o) is cls)
        ctx.check('it works on the given bounds', land(o.bounds[0][0] == b[0][0], o.bounds[0][1] == b[0][1]))


@harness('C15', jobs=[dict(kinds=k, dup=d) for k in (['c'], ['d3'], ['c', 'k2']) for d in (True, False)], replays=10)
def refined(ctx, kinds, dup):
    """refinement of one anchor: rounded result and its value, the anchor itself if the result is a duplicate"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space)
    lb = env.Lbfgs(ctx, inside=False, evaluate=False)
    tab = Function(ctx)
    taken = loop_point(ctx, space, 't')
    a = encode(space, loop_point(ctx, space, 'a'))
    dm = DuplicateManager(ds, ctx.arr([taken])) if dup else None
    try:
        x, fx = apply_optimizer(OptLbfgs(ds.get_bounds()), ctx.arr(a), f=tab, df=None, f_df=None, duplicate_manager=dm, space=ds)
    except ValueError:
        ctx.check('only a duplicate is refused as starting point', dup and same(a, encode(space, taken)))
        return
    e = list(ds.round_optimum(np.atleast_2d(lb.calls[0]['x']))[0])
    isdup = same(e, encode(space, taken)) if dup else False
    want = [ite(isdup, p, q) for p, q in zip(a, e)]
    ctx.check('rounded result, or the starting point if it is a duplicate', np.shape(x) == (1, len(a)) and same(list(x[0]), want))
    ctx.check('the value reported is that of the returned point', np.size(fx) == 1 and ctx.eq(np.asarray(fx).reshape(-1)[0], tab.value(want), 0))
