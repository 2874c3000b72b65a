"""C12: gradients of the acquisition functions."""
from checks.acq import *

BOUNDS = ['1-2 points of 1-3 model coordinates, 1-2 hyper-parameter samples, up to 2 penalized points (sums of penalties: up to 4, from 3 points on outside the exclusion zones); affine mean, deviation and cost with all coefficients in [-20,20] (deviation >= 0.1, cost >= 0.1 at the point), jitter in [0,1], exploration weight in [0,10]']
ASSUMPTIONS = ['the model and the cost report correct derivatives (affine stubs: first-order behaviour is arbitrary)', 'the derivative is taken symbolically on the value the code computes; exp and the normal distribution function by their derivative rules', 'points where the value is not differentiable (a penalized point itself, deviation floor) are excluded']
NAMES = ['EI', 'MPI', 'LCB', 'EI_MCMC', 'MPI_MCMC', 'LCB_MCMC']


class Cost(object):
    def __init__(self, ctx, d, X):
        self.ctx, self.d = ctx, d
        self.c0 = ctx.real('cost0', -20, 20)
        self.g = [ctx.real('cost.g%d' % j, -20, 20) for j in range(d)]
        for r in X:
            ctx.assume(self.at(r) >= 0.1)

    def at(self, r):
        v = self.c0
        for j in range(self.d):
            v = v + self.g[j] * r[j]
        return v

    def __call__(self, x):
        x = np.atleast_2d(x)
        return self.ctx.arr([[self.at(r)] for r in x]), self.ctx.arr([list(self.g) for r in x])


def inputs(ctx, n, d):
    return [[ctx.real('x%d_%d' % (i, j), -2, 2) for j in range(d)] for i in range(n)]


def grad_check(ctx, acq, X, d, label, f=None, fg=None):
    f = f or acq.acquisition_function
    fg = fg or acq.acquisition_function_withGradients
    n = len(X)
    A = ctx.arr([list(r) for r in X])
    plain = f(A.copy())
    v, g = fg(A.copy())
    ctx.check('one gradient per point with one entry per coordinate', np.shape(g) == (n, d))
    ctx.check('one value per point', np.size(v) == n)
    ctx.check('value returned with the gradient is the plain value', ctx.eqv(v, plain))
    for i in range(n):
        want = ctx.grad(lambda r: f(ctx.arr([list(r)])), X[i])
        for j in range(d):
            ctx.check(label, ctx.near(g[i, j], want[j], 1e-3))


@harness('C12', jobs=[dict(name=a, d=d, n=n, samples=s, cost=c) for a in NAMES for d, n, s, c in ((1, 1, 1, False), (2, 2, 1, False), (1, 1, 1, True), (2, 1, 2, True))],
         thorough=[dict(name=a, d=3, n=2, samples=2, cost=True) for a in NAMES], replays=8, timeout_ms=15000)
def gradients(ctx, name, d, n, samples, cost):
    """gradient of every acquisition, with and without cost weighting, against the symbolic derivative of its value"""
    if not name.endswith('MCMC') and samples > 1:
        return
    X = inputs(ctx, n, d)
    mod = LinearModel(ctx, d, samples if name.endswith('MCMC') else None)
    for i in range(samples if name.endswith('MCMC') else 1):
        for r in X:
            ctx.assume(mod.at(r, i)[1] >= 0.1)
    c = Cost(ctx, d, X) if cost else None
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-2, 2), 'dimensionality': d}])
    par = dict(exploration_weight=ctx.real('w', 0, 10)) if name.startswith('LCB') else dict(jitter=0.0 if name == 'EI_MCMC' else ctx.real('jitter', 0, 1))
    acq = CLASSES[name](mod, ds, None, cost_withGradients=c, **par)
    grad_check(ctx, acq, X, d, 'gradient is the derivative of the value')


@harness('C12', jobs=[dict(name=a, where=w) for a in NAMES for w in ('inside', 'outside')], replays=8)
def constrained(ctx, name, where):
    """feasibility weighting: gradient zero where the value is constantly zero, unchanged where feasible"""
    X = [[ctx.real('x', 0, 1) if where == 'inside' else ctx.real('x', 1.01, 2)]]
    mod = LinearModel(ctx, 1, 1 if name.endswith('MCMC') else None)
    ctx.assume(mod.at(X[0])[1] >= 0.1)
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-2, 2)}], [{'name': 'c', 'constraint': 'x[:,0] - 1.005'}])
    kw = {} if name.startswith('LCB') else dict(jitter=0.0)
    grad_check(ctx, CLASSES[name](mod, ds, None, **kw), X, 1, 'gradient is the derivative of the weighted value')


@harness('C12', known='EI_MCMC-jitter-gradient')
def ei_mcmc_jitter(ctx):
    """probe of the recorded finding"""
    x = ctx.real('x', 0, 1)
    mod = LinearModel(ctx, 1, 1)
    j = ctx.real('jitter', 0.1, 1)
    m, s = mod.at([x])
    ctx.assume(land(s >= 0.5, s <= 2, mod.fmins[0] - m >= -1, mod.fmins[0] - m <= 1, mod.c[0][2][0] >= 1))
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-2, 2)}])
    acq = AcquisitionEI_MCMC(mod, ds, None, jitter=j)
    v, g = acq.acquisition_function_withGradients(ctx.arr([[x]]))
    ctx.check('integrated expected improvement: gradient matches the value at non-zero jitter', ctx.near(g[0, 0], ctx.grad(lambda r: acq.acquisition_function(ctx.arr([list(r)])), [x])[0], 1e-3))


@harness('C12', jobs=[dict(samples=s, d=d) for s in (1, 2) for d in (1, 2)], replays=8)
def ei_mcmc_with_jitter(ctx, samples, d):
    """integrated expected improvement with jitter: the gradient is the derivative of the jittered formula (the value itself is a recorded finding)"""
    X = inputs(ctx, 1, d)
    mod = LinearModel(ctx, d, samples)
    for i in range(samples):
        ctx.assume(mod.at(X[0], i)[1] >= 0.1)
    j = ctx.real('jitter', 0, 1)
    acq = AcquisitionEI_MCMC(mod, Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-2, 2), 'dimensionality': d}]), None, jitter=j)
    v, g = acq.acquisition_function_withGradients(ctx.arr(X))
    plain = acq.acquisition_function(ctx.arr(X))
    ctx.check('value returned with the gradient is the plain value', ctx.eqv(v, plain))
    ctx.check('one gradient per point with one entry per coordinate', np.shape(g) == (1, d))

    def right(r):
        return -sum(formula('EI', j, mod.fmins[i], *mod.at(r, i)) for i in range(samples)) / np.float64(samples)
    want, have = ctx.grad(right, X[0]), ctx.grad(lambda r: acq.acquisition_function(ctx.arr([list(r)])), X[0])
    for k in range(d):
        a = ctx.near(g[0, k], want[k], 1e-3)
        ctx.check('gradient is the derivative of the value or of the jittered formula', a if a is True else lor(a, ctx.near(g[0, k], have[k], 1e-3)))


LP = [('EI', 'none'), ('MPI', 'none'), ('LCB', 'none'), ('LCB', 'softplus'), ('EI', 'softplus'), ('LCB_MCMC', 'none')]


@harness('C12', jobs=[dict(name=a, transform=t, d=d, n=n, batch=b) for a, t in LP for d, n, b in ((1, 1, 0), (2, 1, 1))] + [dict(name='EI', transform='none', d=2, n=2, batch=0)],
         thorough=[dict(name=a, transform=t, d=d, n=1, batch=2) for a, t in LP for d in (1, 2)], replays=8, timeout_ms=15000)
def local_penalization(ctx, name, transform, d, n, batch):
    """gradient of the penalized acquisition"""
    X = inputs(ctx, n, d)
    base = StubBase(ctx, d, name)
    for r in X:
        a = base.at(r)
        if name.startswith('LCB') or transform == 'softplus':
            ctx.assume(land(a >= -10, lor(a <= 39, a >= 41), a <= 60))
        else:
            ctx.assume(land(a >= 0.1, a <= 10))
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-2, 2), 'dimensionality': d}])
    mod = TableModel(ctx, smin=0.5, smax=5)
    acq = AcquisitionLP(mod, ds, None, base.acquisition(mod, ds), transform)
    if batch:
        B = [[ctx.real('b%d_%d' % (i, j), -2, 2) for j in range(d)] for i in range(batch)]
        for b in B:
            ctx.assume(land(mod.at(b)[0] >= -1, mod.at(b)[0] <= 2))
            for r in X:
                ctx.assume(sum((r[j] - b[j]) * (r[j] - b[j]) for j in range(d)) >= 0.04)
        acq.update_batches(ctx.arr(B), ctx.real('L', 0.5, 5), ctx.real('Min', -1, 1))
    grad_check(ctx, acq, X, d, 'gradient is the derivative of the penalized acquisition')


@harness('C12', jobs=[dict(d=d, n=n, batch=b, outside=f) for d, n, b, f in ((1, 1, 2, False), (2, 1, 2, False), (1, 1, 4, True), (1, 2, 2, True))],
         thorough=[dict(d=1, n=2, batch=2, outside=False), dict(d=1, n=2, batch=3, outside=True), dict(d=1, n=1, batch=6, outside=True)], replays=8, timeout_ms=15000)
def penalties_add(ctx, d, n, batch, outside):
    """several penalized points: on the logarithmic scale values and gradients are the sums of those of the single points (whose gradient is decided in local_penalization)"""
    X = inputs(ctx, n, d)
    base = StubBase(ctx, d, 'EI')
    for r in X:
        ctx.assume(land(base.at(r) >= 0.1, base.at(r) <= 10))
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-2, 2), 'dimensionality': d}])
    mod = TableModel(ctx, smin=0.5, smax=5)
    acq = AcquisitionLP(mod, ds, None, base.acquisition(mod, ds))
    A = ctx.arr([list(r) for r in X])
    B = [[ctx.real('b%d_%d' % (i, j), -2, 2) for j in range(d)] for i in range(batch)]
    L, M = ctx.real('L', 0.5, 5), ctx.real('Min', -1, 1)
    for b in B:
        ctx.assume(land(mod.at(b)[0] >= -1, mod.at(b)[0] <= 2))
        for r in X:
            q = sum((r[j] - b[j]) * (r[j] - b[j]) for j in range(d))
            ctx.assume(q >= 0.04)
            if outside:
                ctx.assume(land(r[0] >= b[0] + 0.2, L * (r[0] - b[0]) >= mod.at(b)[0] - M))

    def at(P):
        acq.update_batches(ctx.arr(P) if P else None, L, M)
        v, g = acq.acquisition_function_withGradients(A.copy())
        return np.asarray(v).reshape(-1), g
    v0, g0 = at([])
    single = [at([b]) for b in B]
    v, g = at(B)
    ctx.check('one gradient per point with one entry per coordinate', np.shape(g) == (n, d))
    for i in range(n):
        ctx.check('penalties of several points add up', ctx.near(v[i], v0[i] + sum(s[0][i] - v0[i] for s in single), 1e-6))
        for j in range(d):
            ctx.check('gradients of the penalties of several points add up', ctx.near(g[i, j], g0[i, j] + sum(s[1][i, j] - g0[i, j] for s in single), 1e-6))


class StubBase(object):
    """acquisition to be penalized: affine value"""

    def __init__(self, ctx, d, name):
        self.ctx, self.name, self.d = ctx, name, d
        self.v0 = ctx.real('v0', -20, 60)
        self.g = [ctx.real('g%d' % j, -20, 20) for j in range(d)]

    def at(self, r):
        v = self.v0
        for j in range(self.d):
            v = v + self.g[j] * r[j]
        return v

    def acquisition(self, mod, ds):
        ctx, me = self.ctx, self
        mod = TableModel(ctx, 1, tag='base') if self.name.endswith('MCMC') else mod

        class A(CLASSES[self.name]):
            def _compute_acq(self, x):
                return ctx.arr([[me.at(r)] for r in np.atleast_2d(x)])

            def _compute_acq_withGradients(self, x):
                return self._compute_acq(x), ctx.arr([list(me.g) for r in np.atleast_2d(x)])
        return A(mod, ds, None)


@harness('C12', jobs=[dict(model=m, acq=a) for m in (True, False) for a in ('EI', 'LCB', 'none')])
def when_used(ctx, model, acq):
    """the optimizer receives the gradient exactly when model and acquisition support it"""
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-2, 2)}])
    mod = LinearModel(ctx, 1)
    mod.analytical_gradient_prediction = model
    got = {}

    class Opt(object):
        def optimize(self, f=None, df=None, f_df=None, duplicate_manager=None):
            got.update(f=f, df=df, f_df=f_df, dm=duplicate_manager)
            return 'point', 'value'
    from GPyOpt.acquisitions.base import AcquisitionBase

    class NoGradient(AcquisitionBase):
        def _compute_acq(self, x):
            return self.model.predict(x)[0]
    a = NoGradient(mod, ds, Opt()) if acq == 'none' else CLASSES[acq](mod, ds, Opt())
    dm = object()
    ctx.check('optimizer result is returned', a.optimize(duplicate_manager=dm) == ('point', 'value'))
    ctx.check('duplicate manager is passed on', got['dm'] is dm)
    ctx.check('gradients are used exactly when available', (got['f_df'] is not None) == (model and acq != 'none'))
    x = ctx.real('x', -2, 2)
    ctx.assume(mod.at([x])[1] >= 0.1)
    A = ctx.arr([[x]])
    ctx.check('the function optimized is the acquisition', ctx.eqv(got['f'](A.copy()), a.acquisition_function(A.copy())))
    if got['f_df'] is not None:
        v, g = got['f_df'](A.copy())
        w, h = a.acquisition_function_withGradients(A.copy())
        ctx.check('the gradient handed over is that of the acquisition', land(ctx.eqv(v, w), ctx.eqv(g, h)))
