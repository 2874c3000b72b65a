"""C06: constraints."""
from checks.suggest import *
from checks import acq as A
from GPyOpt.experiment_design import initial_design, RandomDesign

BOUNDS = ['1-3 constraints from a family of linear, quadratic, absolute-value and max expressions over 1-3 coordinates; 1-3 points; designs of 1-3 points which need at most 3 rounds of arbitrary draws (or 40-1500 infeasible draws followed by arbitrary ones); coordinates in [-1000,1000]']
ASSUMPTIONS = ['random draws arbitrary', 'constraints are written over the columns of the objective encoding (as the code applies them)', 'acquisition values non-negative (expected improvement, probability of improvement)']

# text and the function it stands for
C = {
    'lin': ('x[:,0] - 0.5', lambda r: r[0] - 0.5),
    'neg': ('-x[:,0] - 0.25', lambda r: -r[0] - 0.25),
    'sum': ('x[:,0] + x[:,1] - 1', lambda r: r[0] + r[1] - 1),
    'dif': ('x[:,1] - 2*x[:,0]', lambda r: r[1] - 2 * r[0]),
    'circ': ('x[:,0]**2 + x[:,1]**2 - 1', lambda r: r[0] * r[0] + r[1] * r[1] - 1),
    'abs': ('np.abs(x[:,0]) - 0.75', lambda r: abs(r[0]) - 0.75),
    'last': ('x[:,-1] - 0.1', lambda r: r[-1] - 0.1),
    'max': ('np.maximum(x[:,0], x[:,1]) - 0.5', lambda r: ite(r[0] >= r[1], r[0], r[1]) - 0.5),
}


def cons(names, old=False):
    return [{'name': 'c%d' % i, ('constrain' if old else 'constraint'): C[n][0]} for i, n in enumerate(names)]


def feasible(ctx, names, r):
    return land(*[C[n][1](r) <= 0 for n in names])


SETS = [['lin'], ['lin', 'neg'], ['abs']]
SETS2 = [['sum'], ['circ'], ['dif', 'sum'], ['max', 'neg'], ['last'], ['lin', 'dif', 'sum']]


@harness('C06', jobs=[dict(kinds=k, names=s, old=o, n=n) for k, ss in ((['c'], SETS), (['c', 'c'], SETS + SETS2), (['k2', 'c'], [['last'], ['sum']]), (['c', 'd2'], [['sum'], ['last']])) for s in ss for o, n in ((False, 2), (True, 1))],
         thorough=[dict(kinds=['c', 'c', 'c'], names=s, old=False, n=4) for s in SETS + SETS2])
def indicator(ctx, kinds, names, old, n):
    """a point is feasible exactly when all constraints are non-positive"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space, cons(names, old))
    X = [[ctx.real('x%d_%d' % (i, j), -K, K) for j in range(obj_dim(space))] for i in range(n)]
    ctx.check('constraints are registered', ds.has_constraints())
    I = ds.indicator_constraints(ctx.arr(X))
    ctx.check('one indicator per point', np.size(I) == n)
    if np.size(I) == n:
        I = np.asarray(I).reshape(-1)
        for i in range(n):
            f = feasible(ctx, names, X[i])
            ctx.check('indicator is one for feasible and zero for infeasible points', lor(land(f, I[i] == 1), land(lnot(f), I[i] == 0)))
    none = Design_space(space)
    ctx.check('without constraints every point is feasible', not none.has_constraints() and land(*[v == 1 for v in np.asarray(none.indicator_constraints(ctx.arr(X))).reshape(-1)]))


def limited(ctx, rounds):
    """designs which need more rounds are outside the bound"""
    r = env.Rand(ctx)
    n = [0]
    for nm in ('uniform', 'choice', 'randint'):
        def f(*a, _o=getattr(r, nm), _k=nm, **k):
            key = (_k, n[0])
            n[0] += 1
            if n[0] > rounds:
                ctx.assume(False)
            return _o(*a, **k)
        ctx.patch(np.random, nm, f)
    return r


@harness('C06', jobs=[dict(kinds=k, names=s, n=n, rounds=r) for k, s, n, r in ((['c'], ['lin'], 1, 3), (['c'], ['lin', 'neg'], 2, 2), (['c', 'c'], ['sum'], 2, 4), (['c', 'c'], ['circ'], 1, 6), (['c', 'c'], ['dif', 'sum'], 2, 4), (['c', 'd2'], ['sum'], 2, 4), (['k2', 'c'], ['sum'], 2, 4), (['d3', 'k2'], ['last'], 2, 4), (['c'], ['abs'], 3, 2), (['c2'], ['max', 'neg'], 2, 4))],
         thorough=[dict(kinds=['c'], names=s, n=3, rounds=3) for s in SETS] + [dict(kinds=['c', 'c'], names=s, n=3, rounds=6) for s in SETS2])
def design(ctx, kinds, names, n, rounds):
    """random designs contain only feasible points, and as many as requested"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space, cons(names))
    limited(ctx, rounds)
    X = initial_design('random', ds, n)
    ok = np.shape(X) == (n, obj_dim(space))
    ctx.check('requested number of points', ok)
    if ok:
        for i in range(n):
            r = [X[i, j] for j in range(obj_dim(space))]
            ctx.check('design points are feasible', feasible(ctx, names, r))
            ctx.check('design points lie in the design space', in_objective_domain(ctx, space, r))


@harness('C06', jobs=[dict(kinds=k, names=s, n=n, wait=w) for k, s, n, w in ((['c'], ['lin'], 2, 40), (['c'], ['lin'], 1, 1500), (['c', 'c'], ['sum'], 1, 300), (['c', 'd2'], ['sum'], 1, 300))],
         thorough=[dict(kinds=['c'], names=['lin'], n=2, wait=w) for w in (200, 12000)])
def patience(ctx, kinds, names, n, wait):
    """a design stays feasible however long it takes to find feasible points: `wait` infeasible draws come first"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space, cons(names))
    r = limited(ctx, 10 ** 9)
    k = [0]

    def first_infeasible(sym, worst):
        def f(*a, **kw):
            k[0] += 1
            if k[0] <= wait:
                v = worst(*a, **kw)
                return v
            if k[0] > wait + 2 * len(kinds):
                ctx.assume(False)
            return sym(*a, **kw)
        return f

    def top(low=0.0, high=1.0, size=None):
        return np.full(size, float(high)) if size is not None else float(high)
    ctx.patch(np.random, 'uniform', first_infeasible(np.random.uniform, top))
    ctx.patch(np.random, 'choice', first_infeasible(np.random.choice, lambda a, size=None, **kw: np.full(size, float(max(a)))))
    X = initial_design('random', ds, n)
    ok = np.shape(X) == (n, obj_dim(space))
    ctx.check('requested number of points', ok)
    if ok:
        for i in range(n):
            ctx.check('design points are feasible', feasible(ctx, names, [X[i, j] for j in range(obj_dim(space))]))


@harness('C06', jobs=[dict(kinds=k, names=s, name=a) for a in ('any', 'EI', 'MPI', 'LCB', 'EI_MCMC', 'MPI_MCMC', 'LCB_MCMC') for k, s in ((['c'], ['lin', 'neg']), (['c', 'c'], ['circ']), (['k2', 'c'], ['last'])) if a in ('any', 'EI') or k == ['c']])
def ranking(ctx, kinds, names, name):
    """acquisition handed to the optimizer: infeasible points are no better than feasible ones"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space, cons(names))
    d = model_dim(space)
    x = [[ctx.real('x%d_%d' % (i, j), -2, 2) for j in range(obj_dim(space))] for i in range(2)]
    if kinds[0] == 'k2':
        for i, r in enumerate(x):
            r[0] = float(ctx.choice('cat%d' % i, [0, 1]))
    pts = [encode(space, r) for r in x]
    mcmc = name.endswith('MCMC')
    mod = A.TableModel(ctx, 1 if mcmc else None)
    cost = [ctx.real('cost%d' % i, 0.1, 10) for i in range(2)]

    def costs(z):
        n = np.atleast_2d(z).shape[0]
        k = ctx.arr([[v] for v in cost[:n]])
        return k, np.zeros((n, d))
    if name == 'any':
        vals, grads = [ctx.real('a%d' % i, 0, 100) for i in range(2)], ctx.reals('g', (2, d), -100, 100)

        class Positive(AcquisitionBase):
            analytical_gradient_prediction = True

            def _compute_acq(self, z):
                return ctx.arr([[v] for v in vals])

            def _compute_acq_withGradients(self, z):
                return ctx.arr([[v] for v in vals]), grads.copy()
        a = Positive(mod, ds, None, cost_withGradients=costs)
    else:
        kw = {} if name.startswith('LCB') else dict(jitter=0.0)
        a = A.CLASSES[name](mod, ds, None, cost_withGradients=costs, **kw)
    for plain in (True, False):
        v = a.acquisition_function(ctx.arr(pts)) if plain else a.acquisition_function_withGradients(ctx.arr(pts))[0]
        v = np.asarray(v).reshape(-1)
        f = [feasible(ctx, names, r) for r in x]
        if name == 'any':
            ctx.check('infeasible points rank no better than feasible ones', limplies(land(f[0], lnot(f[1])), v[0] <= v[1]))
        ctx.check('an infeasible point has value zero', limplies(lnot(f[0]), v[0] == 0))
    g = a.acquisition_function_withGradients(ctx.arr(pts))[1]
    ctx.check('an infeasible point has gradient zero', limplies(lnot(f[0]), land(*[g[0, j] == 0 for j in range(d)])))


def constrained(ctx, kinds, names, evaluator, batch, cap, rounds, dedup=False, grad=True):
    space = make_space(ctx, kinds, sym_domain=False)
    bo, ds, acq = build(ctx, space, evaluator, batch, [loop_point(ctx, space, 'x0')], cap=cap, constraints=cons(names), dedup=dedup, gradients=grad)
    limited(ctx, rounds)
    return space, bo, ds, acq


@harness('C06', jobs=[dict(kinds=k, names=s, evaluator=e, batch=b) for k, s in ((['c'], ['lin']), (['c', 'c'], ['sum']), (['k2', 'c'], ['last'])) for e, b in (('sequential', 1), ('random', 2), ('thompson', 1), ('local_penalization', 1)) if k == ['c'] or e in ('sequential', 'random')], replays=8)
def candidates(ctx, kinds, names, evaluator, batch):
    """anchor points of every evaluator are feasible, so are the points random batches add"""
    space, bo, ds, acq = constrained(ctx, kinds, names, evaluator, batch, 1, 6)
    S_ = bo.suggest_next_locations()
    valid(ctx, space, S_, batch)
    for D in ctx.designs:
        for r in D:
            ctx.check('candidate points are feasible', feasible(ctx, names, list(r)))
    if evaluator == 'random':
        for i in range(1, batch):
            ctx.check('points added to a random batch are feasible', feasible(ctx, names, list(S_[i])))


@harness('C06', jobs=[dict(kinds=k, names=s, idx=i, evaluator=e, batch=b) for k, s, i in ((['c', 'c'], ['sum'], 0), (['c', 'c'], ['dif'], 1), (['k2', 'c'], ['sum'], 0), (['c', 'd2'], ['last'], 0)) for e, b in (('sequential', 1), ('random', 2)) if e == 'sequential' or k == ['c', 'c']], replays=8)
def with_context(ctx, kinds, names, idx, evaluator, batch):
    """constraints are applied to the full point, context included"""
    from checks import c04
    space, bo, ds, acq = constrained(ctx, kinds, names, evaluator, batch, 2, 6)
    cols = columns(space)
    context, vals = c04.context_of(ctx, space, [idx])
    S_ = bo.suggest_next_locations(context=context)
    c04.respected(ctx, space, S_, vals, batch)
    if evaluator == 'random':
        cands = [[vals[0] if idx == 0 else c[0], c[0] if idx == 0 else vals[1]] for c in ctx.designs[-1]]
        ctx.check('points added to a random batch are feasible unless no candidate is', limplies(lor(*[feasible(ctx, names, c) for c in cands]), feasible(ctx, names, list(S_[1]))))


@harness('C06')
def wrong(ctx):
    """constraints which cannot be evaluated are reported, not ignored"""
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 1)}], [{'name': 'c', 'constraint': 'x[:,3] - 1'}])
    ctx.check('an invalid constraint raises', ctx.raises(Exception, ds.indicator_constraints, ctx.arr([[ctx.real('x', 0, 1)]])) is not None)
