"""C18: local penalization."""
from checks.suggest import *
from checks.acq import TableModel, ncdf, key
from symx import env
from GPyOpt.acquisitions import AcquisitionEI, AcquisitionMPI, AcquisitionLCB, AcquisitionLCB_MCMC, AcquisitionEI_MCMC, AcquisitionLP
from GPyOpt.core.evaluators import LocalPenalization
from GPyOpt.core.evaluators.batch_local_penalization import estimate_L
from GPyOpt.util.duplicate_manager import DuplicateManager
from GPyOpt.core.errors import FullyExploredOptimizationDomainError

BOUNDS = ['1-2 locations, 0-3 penalized points, 1-2 coordinates; acquisition values in [0,1000] (EI/MPI) or [-30,1000] (LCB), means in [-1000,1000], deviations in [0.001,1000] (and [0,1e-17]), L in [0.01,100], minimum in [-1000,1000]; batches of 1-6 (thorough 12)']
ASSUMPTIONS = ['the acquisition to be penalized and the model predictions are arbitrary functions of the point', 'exp/log and the normal distribution function by their equations; values compared to 1e-6',
               'Lipschitz estimate: arbitrary gradients of the mean; the numerical optimizer returns any value not worse than its start; the uniform sample is reduced to 1-2 points', 'single-model (not MCMC) predictions; the MCMC model is a recorded finding']
BASES = dict(EI=AcquisitionEI, MPI=AcquisitionMPI, LCB=AcquisitionLCB, LCB_MCMC=AcquisitionLCB_MCMC)
K2 = 1000


class Base(object):
    """arbitrary function of the point"""

    def __init__(self, ctx, lo, hi):
        self.ctx, self.lo, self.hi = ctx, lo, hi
        self.t = {}

    def at(self, r):
        k = key(r)
        if k not in self.t:
            self.t[k] = self.ctx.real('acq%d' % len(self.t), self.lo, self.hi)
        return self.t[k]

    def acquisition(self, name, mod, ds):
        me = self
        mod = TableModel(self.ctx, 1, tag='base') if name.endswith('MCMC') else mod

        class A(BASES[name]):
            def _compute_acq(self, x):
                return me.ctx.arr([[me.at(r)] for r in np.atleast_2d(x)])

            def _compute_acq_withGradients(self, x):
                x = np.atleast_2d(x)
                return self._compute_acq(x), np.zeros(x.shape)
        return A(mod, ds, None)


def log(x):
    return core.log(x) if S(x) else np.log(x)


def exp(x):
    return core.exp(x) if S(x) else np.exp(x)


def sqrt(x):
    return core.sqrt(x) if S(x) else np.sqrt(x)


def transformed(ctx, name, transform, a):
    """negative logarithm of the transformed acquisition"""
    if transform == 'softplus' or name.startswith('LCB'):
        if a >= 40:
            return -log(a)
        return -log(log1pexp(a))
    return -log(a + 1e-50)


def log1pexp(a):
    return core.log(1 + core.exp(a)) if S(a) else np.log1p(np.exp(a))


def logcdf(z):
    from scipy.stats import norm
    return core.log(core.ncdf(z)) if S(z) else norm.logcdf(z)


def penalty(ctx, mod, x, b, L, M):
    m, s = mod.at(b)[:2]
    dist = sqrt(sum((x[j] - b[j]) * (x[j] - b[j]) for j in range(len(x))))
    return -logcdf((dist - (m - M) / L) / (s / L))


def total(ctx, base, mod, name, transform, x, B, L, M):
    v = transformed(ctx, name, transform, base.at(x))
    for b in B:
        v = v + penalty(ctx, mod, x, b, L, M)
    return v


def agree(ctx, acq, base, mod, name, transform, X, B, L, M, label):
    v = acq.acquisition_function(ctx.arr([list(x) for x in X]))
    ok = np.size(v) == len(X)
    ctx.check(label + ': one value per location', ok)
    if not ok:
        return None
    v = np.asarray(v).reshape(-1)
    for i, x in enumerate(X):
        ctx.check(label, ctx.eq(v[i], total(ctx, base, mod, name, transform, x, B, L, M), 1e-6))
    return v


def points(ctx, nm, n, d, r=5):
    return [[ctx.real('%s%d_%d' % (nm, i, j), -r, r) for j in range(d)] for i in range(n)]


JOBS = [('EI', 'none'), ('MPI', 'softplus'), ('LCB', 'none'), ('LCB', 'softplus'), ('LCB_MCMC', 'none')]


@harness('C18', jobs=[dict(name=a, transform=t, n=n, d=d, batch=b) for a, t in JOBS for n, d, b in ((1, 1, 1), (2, 1, 0), (1, 2, 2), (2, 1, 2))],
         thorough=[dict(name=a, transform=t, n=2, d=2, batch=3) for a, t in JOBS], replays=10)
def values(ctx, name, transform, n, d, batch):
    """value of the penalized acquisition"""
    X = points(ctx, 'x', n, d)
    B = points(ctx, 'b', batch, d)
    base = Base(ctx, -30 if name.startswith('LCB') else 0, K2)
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-5, 5), 'dimensionality': d}])
    mod = TableModel(ctx, smin=1e-3, smax=K2)
    for x in X:
        a = base.at(x)
        if transform == 'softplus' or name.startswith('LCB'):
            ctx.assume(lor(a <= 39, a >= 41))
    acq = AcquisitionLP(mod, ds, None, base.acquisition(name, mod, ds), transform)
    L, M = ctx.real('L', 0.01, 100), ctx.real('Min', -K, K)
    u = agree(ctx, acq, base, mod, name, transform, X, [], L, M, 'without a batch: the transformed acquisition')
    if not batch:
        acq.update_batches(None, L, M)
        agree(ctx, acq, base, mod, name, transform, X, [], L, M, 'empty batch: the transformed acquisition')
        return
    acq.update_batches(ctx.arr(B), L, M)
    v = agree(ctx, acq, base, mod, name, transform, X, B, L, M, 'one penalizer per batch point')
    if v is not None and u is not None:
        ctx.check('penalizers never exceed one', land(*[v[i] >= u[i] - 1e-9 for i in range(n)]))
    if batch > 1:
        acq.update_batches(ctx.arr(B[1:]), L, M)
        agree(ctx, acq, base, mod, name, transform, X, B[1:], L, M, 'a new batch replaces the old one')
    acq.update_batches(None, None, None)
    agree(ctx, acq, base, mod, name, transform, X, [], L, M, 'penalization is removed')


@harness('C18', replays=10)
def certain(ctx):
    """a batch point predicted without any uncertainty excludes (or does not affect) what lies around it"""
    x, b = ctx.real('x', -5, 5), ctx.real('b', -5, 5)
    base = Base(ctx, 0, K2)
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-5, 5)}])
    mod = TableModel(ctx, smin=0, smax=1e-17)
    acq = AcquisitionLP(mod, ds, None, base.acquisition('EI', mod, ds))
    L, M = ctx.real('L', 0.1, 10), ctx.real('Min', -10, 10)
    m = mod.at([b])[0]
    z = abs(x - b) - (m - M) / L
    ctx.assume(land(m >= -10, m <= 10, lor(z >= 0.1, z <= -0.1)))
    u = acq.acquisition_function(ctx.arr([[x]]))
    acq.update_batches(ctx.arr([[b]]), L, M)
    v = acq.acquisition_function(ctx.arr([[x]]))
    u, v = np.asarray(u).reshape(-1)[0], np.asarray(v).reshape(-1)[0]
    if not ctx.sym:
        ctx.check('never undefined', bool(v == v))
    ctx.check('never a bonus', v >= u - 1e-9)
    if not ctx.sym:
        ctx.check('no penalty outside the exclusion zone', z <= 0 or ctx.eq(v, u, 1e-6))
    ctx.check('a penalty inside the exclusion zone', limplies(z < 0, v >= u + 0.1))


class Trained(object):
    """underlying model: training data and arbitrary mean gradients"""

    def __init__(self, ctx, X, Y, tag=''):
        self.ctx, self.X, self.Y, self.tag = ctx, X, Y, tag
        self.t = {}
        self.rows = []
        self.asked = 0

    def at(self, r):
        k = key(r)
        if k not in self.t:
            self.rows.append(list(r))
            self.t[k] = [self.ctx.real('%sdm%d.%d' % (self.tag, len(self.t), j), -20, 20) for j in range(len(r))]
        return self.t[k]

    def predictive_gradients(self, x):
        x = np.atleast_2d(x)
        self.asked += len(x)
        return self.ctx.arr([[[g] for g in self.at(r)] for r in x]), np.zeros(x.shape)

    def norm(self, r):
        return sqrt(sum(g * g for g in self.at(r)))


class Res(object):
    def __init__(self, x, fun):
        self.x, self.fun = x, fun


def stub_minimize(ctx, samples, results):
    """few distinct uniform samples; the numerical optimizer returns the given values"""
    import scipy.optimize
    env.Rand(ctx, tile=samples)
    cap_samples(ctx, samples)
    calls = []

    def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
        v = results[len(calls)] if len(calls) < len(results) else results[-1]
        calls.append(dict(fun=fun, x0=x0, args=args, bounds=bounds))
        return Res(x0, v)
    ctx.patch(scipy.optimize, 'minimize', minimize)
    return calls


@harness('C18', jobs=[dict(d=d, n=n, samples=s) for d, n, s in ((1, 1, 1), (1, 2, 2), (2, 2, 1))], thorough=[dict(d=2, n=2, samples=3), dict(d=1, n=3, samples=3)], replays=10)
def lipschitz(ctx, d, n, samples):
    """estimate of the Lipschitz constant"""
    res = ctx.choice('minusL', [-1000.0, -7.5, -1e-6, -1e-8, 0.0])
    calls = stub_minimize(ctx, samples, [res])
    X = ctx.arr(points(ctx, 'x', n, d))
    mod = Trained(ctx, X, None)
    bounds = [(-5.0, 5.0)] * d
    L = estimate_L(mod, bounds)
    asked = mod.asked
    ctx.check('one numerical search', len(calls) == 1)
    c = calls[0]
    rows = mod.rows + [list(r) for r in X]
    ctx.check('samples are drawn within the bounds', land(asked > n, *[land(v >= -5, v <= 5) for r in mod.rows for v in r]))
    ctx.check('the search is bounded by the domain', c['bounds'] is not None and [tuple(b) for b in c['bounds']] == bounds)
    x0 = list(np.asarray(c['x0'], dtype=object).reshape(-1))
    ctx.check('the search starts at the sample or training point of steepest mean', lor(*[land(land(*[x == y for x, y in zip(x0, r)]), *[mod.norm(r) >= mod.norm(q) - 1e-9 for q in rows]) for r in rows]))
    q = ctx.arr([list(points(ctx, 'probe', 1, d)[0])])[0]
    f = c['fun'](q, *c['args'])
    ctx.check('the search minimizes the negative norm of the mean gradient', land(np.size(f) == 1, ctx.eq(f, -mod.norm(q))))
    ctx.check('the estimate is the largest norm found, or 10 for a flat model', ctx.eq(L, -res if -res >= 1e-7 else 10, 0))


@harness('C18', jobs=[dict(name=a, d=d, batch=b, dedup=u) for a, d, b, u in (('EI', 1, 1, False), ('EI', 1, 2, False), ('EI', 2, 3, False), ('LCB', 1, 3, False), ('EI', 1, 2, True), ('EI', 1, 6, False))],
         thorough=[dict(name='EI', d=1, batch=12, dedup=False), dict(name='EI', d=2, batch=4, dedup=False), dict(name='LCB', d=1, batch=4, dedup=True)], replays=10)
def collection(ctx, name, d, batch, dedup):
    """collection of a batch: which points are penalized when, twice in a row"""
    results = [-2.0, -0.5]
    calls = stub_minimize(ctx, 1, results)
    space = [{'name': 'a', 'type': 'continuous', 'domain': (-5, 5), 'dimensionality': d}]
    ds = Design_space(space)
    mod = TableModel(ctx, smin=1e-3, smax=K2)
    base = Base(ctx, 0, 30)
    probe = points(ctx, 'probe', 1, d)
    log_ = []

    class LP(AcquisitionLP):
        def optimize(self, duplicate_manager=None):
            k = len(log_)
            v = self.acquisition_function(ctx.arr(probe))
            new = points(ctx, 'n%d_' % k, 1, d)[0]
            log_.append((v, new, duplicate_manager))
            return ctx.arr([list(new)]), ctx.arr([[0.0]])
    acq = LP(mod, ds, None, base.acquisition(name, mod, ds))
    ev = LocalPenalization(acq, batch)
    for rnd in range(1 if dedup else 2):
        nx = 1 + rnd
        X = ctx.arr(points(ctx, 'x%d_' % rnd, nx, d))
        Y = ctx.reals('y%d' % rnd, (nx, 1), -K, K)
        mod.model = Trained(ctx, X, Y, 'r%d.' % rnd)
        M = Y[0, 0]
        for i in range(1, nx):
            M = ite(Y[i, 0] < M, Y[i, 0], M)
        L = -results[min(rnd, 1)]
        start = len(log_)
        dm = DuplicateManager(ds, X, None, None) if dedup else None
        out = ev.compute_batch(duplicate_manager=dm)
        got = log_[start:]
        ctx.check('one search per batch element', len(got) == batch)
        if len(got) != batch:
            return
        ctx.check('the batch consists of the points found, in order', land(np.shape(out) == (batch, d), ctx.eqv(out, ctx.arr([g[1] for g in got]), 0)))
        for i in range(batch):
            B = [g[1] for g in got[:i]]
            v = np.asarray(got[i][0]).reshape(-1)
            ctx.check('each search is penalized at exactly the points already in the batch', land(len(v) == 1, ctx.eq(v[0], total(ctx, base, mod, name, 'none', probe[0], B, L, M), 1e-6)))
            ctx.check('the search avoids duplicates exactly when asked to', (got[i][2] is not None) == dedup)
            if dedup and got[i][2] is not None and i:
                ctx.check('points already in the batch count as duplicates', land(*[got[i][2].is_unzipped_x_duplicate(ctx.arr([list(b)])) for b in B]))
        agree(ctx, acq, base, mod, name, 'none', probe, [], L, M, 'no penalization remains after the batch')


@harness('C18', known='LP-with-MCMC-model')
def mcmc_model(ctx):
    """probe of the recorded finding: penalization with a sampled model"""
    mod = TableModel(ctx, samples=2, smin=0.1)
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-5, 5)}])
    acq = AcquisitionLP(mod, ds, None, AcquisitionEI_MCMC(mod, ds, None))
    ok = True
    try:
        acq.update_batches(ctx.arr([[ctx.real('b', -5, 5)]]), 1.0, 0.0)
    except TypeError:
        ok = False
    ctx.check('local penalization accepts models with hyper-parameter samples', ok)
