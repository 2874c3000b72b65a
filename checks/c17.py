"""C17: model wrappers.  The underlying GPy model / sampler / forest is a stub with arbitrary predictions."""
from checks.suggest import *
from checks.acq import key
from symx import env
import GPy
from GPyOpt.models import GPModel, GPModel_MCMC, WarpedGPModel, InputWarpedGPModel, RFModel

BOUNDS = ['1-3 prediction points, 1-3 training points, 1-2 input dimensions, 1-3 hyper-parameter samples of 2-3 hyper-parameters, means/derivatives in [-1000,1000], variances in [-1,1000] (including negative and tiny ones)']
ASSUMPTIONS = ['the underlying GPy model returns an arbitrary mean, variance and derivative for every point, parameter vector and likelihood flag; the parameter vector only takes effect when the parameter change is triggered',
               'the sampler returns arbitrary samples of the free parameters and leaves the model at arbitrary parameters', 'each tree of the forest returns an arbitrary prediction per row, for 2-D inputs']
FLOOR = 1e-10


class Part(object):
    """likelihood part of the model: records the constraints put on it"""

    def __init__(self, calls):
        self.calls = calls

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        return lambda *a, **k: self.calls.append((nm, a))


class Gp(object):
    """stands for GPRegression, SparseGPRegression, WarpedGP and InputWarpedGP"""

    def __init__(self, world, kind, X, Y, kernel=None, **kw):
        self.w, self.kind, self.kw = world, kind, kw
        ctx = world.ctx
        self.i = len(world.models)
        world.models.append(self)
        self.X_untransformed = X
        self.X = X if kind != 'inputwarped' else ctx.reals('warped%d' % self.i, X.shape, -K, K)
        self.Y = Y
        self.kern = self.kernel = kernel
        self.param_array = ctx.reals('par%d' % self.i, (world.npar,), 0.1, 10)
        self.active = self.param_array.copy()
        self._fixes_ = world.fixes
        self.calls = []
        self.Gaussian_noise = Part(self.calls)
        self.likelihood = Part(self.calls)
        self.likelihood.variance = Part(self.calls) if kind != 'inputwarped' else ctx.real('noise%d' % self.i, 1e-3, 1)
        self.mean_function = kw.get('mean_function')
        self.log = []

    def __getitem__(self, s):
        return self.param_array[s]

    def __setitem__(self, s, v):
        self.param_array[s] = v

    def _trigger_params_changed(self, *a, **k):
        self.active = self.param_array.copy()

    def set_XY(self, X=None, Y=None):
        if self.kind in ('warped', 'inputwarped') and len(X) != len(self.X):
            raise ValueError('this model cannot be given another number of observations')
        self.X = self.X_untransformed = X
        self.Y = Y
        self.log.append('data')

    def optimize(self, *a, **k):
        self.log.append('fit')
        self.fit = dict(k)
        self.moved()

    def optimize_restarts(self, *a, **k):
        self.log.append('restarts')
        self.fit = dict(k)
        self.moved()

    def moved(self):
        self.w.n += 1
        self.param_array[:] = self.w.ctx.reals('fit%d' % self.w.n, (self.w.npar,), 0.1, 10)
        self._trigger_params_changed()

    def at(self, row, noise=True):
        return self.w.at((key(self.active), key(row), bool(noise), self.kind), len(row))

    def predict(self, Xnew, full_cov=False, Y_metadata=None, kern=None, likelihood=None, include_likelihood=True, **kw):
        ctx = self.w.ctx
        if self.kind == 'inputwarped' and (full_cov or not include_likelihood):
            raise TypeError('predict() got an unexpected keyword argument')
        if np.ndim(Xnew) != 2:
            raise ValueError('2-D input required')
        self.w.predicted.append((Xnew, include_likelihood))
        t = [self.at(r, include_likelihood) for r in Xnew]
        m = ctx.arr([[q['m']] for q in t])
        if not full_cov:
            return m, ctx.arr([[q['v']] for q in t])
        n = len(t)
        c = self.w.cov(n)
        return m, ctx.arr([[t[i]['v'] if i == j else c[min(i, j), max(i, j)] for j in range(n)] for i in range(n)])

    def predictive_gradients(self, Xnew, kern=None):
        ctx = self.w.ctx
        t = [self.at(r) for r in Xnew]
        d = len(Xnew[0])
        return ctx.arr([[[q['dm'][j]] for j in range(d)] for q in t]), ctx.arr([[q['dv'][j] for j in range(d)] for q in t])

    def posterior_covariance_between_points(self, X1, X2, Y_metadata=None, likelihood=None, include_likelihood=True):
        self.between = (X1, X2)
        c = self.w.ctx.reals('between', (len(X1), len(X2)), -K, K)
        self.covariances = [c.copy()]
        if include_likelihood:
            c = c + np.eye(len(X1)) * self.w.ctx.real('betweennoise', 0.1, K)         # as the library: an error for sets of different sizes
        return c

    def parameter_names_flat(self, include_fixed=False):
        nm = np.array(['p%d' % i for i in range(self.w.npar)])
        return nm if include_fixed or self._fixes_ is None else nm[self._fixes_]

    def parameter_names(self, *a, **k):
        return ['kern', 'noise']


class World(object):
    """the GPy library as seen by the wrappers"""

    def __init__(self, ctx, npar=2, fixes=None, vlo=-1):
        self.ctx, self.npar, self.vlo = ctx, npar, vlo
        self.fixes = None if fixes is None else np.array(fixes)
        self.models, self.table, self.predicted, self.samples = [], {}, [], []
        self.n = 0
        self.c = None
        for nm, kind in (('GPRegression', 'gp'), ('SparseGPRegression', 'sparse'), ('WarpedGP', 'warped'), ('InputWarpedGP', 'inputwarped')):
            def make(X, Y, kernel=None, _k=kind, **kw):
                return Gp(self, _k, X, Y, kernel, **kw)
            orig = getattr(GPy.models, nm)
            ctx.patch(GPy.models, nm, make)
            patch_everywhere(ctx, orig, make)

        class HMC(object):
            def __init__(s, model, M=None, stepsize=1e-1):
                s.model, s.stepsize = model, stepsize

            def sample(s, num_samples=1000, hmc_iters=20):
                free = npar if fixes is None else int(np.sum(fixes))
                self.asked = dict(num=num_samples, iters=hmc_iters, step=s.stepsize, X=s.model.X, Y=s.model.Y)
                r = ctx.reals('hmc%d' % len(self.samples), (num_samples, free), 0.1, 10)
                self.samples.append(r)
                s.model.moved()
                return r.copy()
        orig = GPy.inference.mcmc.HMC
        ctx.patch(GPy.inference.mcmc, 'HMC', HMC)
        patch_everywhere(ctx, orig, HMC)

    def at(self, k, d):
        if k not in self.table:
            i = len(self.table)
            r = self.ctx.real
            self.table[k] = dict(m=r('m%d' % i, -K, K), v=r('v%d' % i, self.vlo, K), dm=[r('dm%d.%d' % (i, j), -K, K) for j in range(d)], dv=[r('dv%d.%d' % (i, j), -K, K) for j in range(d)])
        return self.table[k]

    def cov(self, n):
        if self.c is None:
            self.c = self.ctx.reals('cov', (n, n), -K, K)
        return self.c


def floor(v):
    return ite(v >= FLOOR, v, FLOOR)


def deviation(ctx, s, v):
    """s is the square root of the floored variance"""
    return land(s >= 0, ctx.eq(s * s, floor(v), 1e-9))


def data(ctx, n, d, tag=''):
    return ctx.reals('X' + tag, (n, d), -K, K), ctx.reals('Y' + tag, (n, 1), -K, K)


def predictions(ctx, label, gp, out, X, noise=True, gradients=False):
    m, s = out[0], out[1]
    t = [gp.at(r, noise) for r in X]
    n, d = len(X), len(X[0])
    ok = np.shape(m) == (n, 1) and np.shape(s) == (n, 1)
    ctx.check(label + ': one mean and one deviation per point', ok)
    if not ok:
        return
    ctx.check(label + ': mean of the underlying model', land(*[ctx.eq(m[i, 0], t[i]['m'], 0) for i in range(n)]))
    ctx.check(label + ': square root of the floored variance', land(*[deviation(ctx, s[i, 0], t[i]['v']) for i in range(n)]))
    if gradients:
        dm, ds = out[2], out[3]
        ok = np.shape(dm) == (n, d) and np.shape(ds) == (n, d)
        ctx.check(label + ': one derivative per point and coordinate', ok)
        if ok:
            ctx.check(label + ': derivative of the mean', land(*[ctx.eq(dm[i, j], t[i]['dm'][j], 0) for i in range(n) for j in range(d)]))
            ctx.check(label + ': derivative of the deviation', land(*[ctx.eq(ds[i, j] * 2 * s[i, 0], t[i]['dv'][j], 1e-6) for i in range(n) for j in range(d)]))


def minimum(ctx, label, gp, val, X):
    ms = [gp.at(r)['m'] for r in X]
    ctx.check(label + ': minimum predicted mean over the training inputs', land(np.ndim(val) == 0, *([val <= m for m in ms] + [lor(*[val == m for m in ms])])))


@harness('C17', jobs=[dict(rows=r, dim=d, sparse=s, fix=f) for r, d, s, f in ((1, 1, False, False), (2, 1, True, False), (1, 2, False, True), (2, 2, False, False))],
         thorough=[dict(rows=3, dim=2, sparse=s, fix=f) for s in (False, True) for f in (False, True)])
def gp(ctx, rows, dim, sparse, fix):
    """predictions of the maximum-likelihood model"""
    w = World(ctx, 3, [True, True, False] if fix else None)
    X, Y = data(ctx, 2, dim)
    m = GPModel(exact_feval=fix, sparse=sparse, verbose=False)
    m.updateModel(X, Y, None, None)
    g = w.models[-1]
    P = ctx.reals('P', (rows, dim), -K, K)
    predictions(ctx, 'predict', g, m.predict(P), P)
    predictions(ctx, 'noise-free predict', g, m.predict(P, with_noise=False), P, noise=False)
    predictions(ctx, 'predict_withGradients', g, m.predict_withGradients(P), P, gradients=True)
    predictions(ctx, 'predict at a single point', g, m.predict(P[0]), P[:1])
    predictions(ctx, 'predict_withGradients at a single point', g, m.predict_withGradients(P[0]), P[:1], gradients=True)
    for noise in (True, False):
        c = m.predict_covariance(P, with_noise=noise)
        ok = np.shape(c) == (rows, rows)
        ctx.check('one covariance per pair of points', ok)
        if ok:
            ctx.check('variances are the floored ones', land(*[ctx.eq(c[i, i], floor(g.at(P[i], noise)['v']), 1e-9) for i in range(rows)]))
            ctx.check('covariances are those of the underlying model', land(*[ctx.eq(c[i, j], w.cov(rows)[min(i, j), max(i, j)], 0) for i in range(rows) for j in range(rows) if i != j]))
    minimum(ctx, 'get_fmin', g, m.get_fmin(), X)
    Q = ctx.reals('Q', (2, dim), -K, K)
    b = m.get_covariance_between_points(P, Q)
    ctx.check('covariance between points of the underlying model', land(np.shape(b) == (rows, 2), ctx.eqs(g.between[0], P, 0), ctx.eqs(g.between[1], Q, 0), ctx.eqs(b, g.covariances[-1], 0) if np.shape(b) == (rows, 2) else False))
    p = m.get_model_parameters()
    nm = m.get_model_parameters_names()
    ctx.check('parameters are those of the underlying model', land(np.shape(p) == (1, 3), ctx.eqv(p, g.param_array, 0)))
    ctx.check('one name per listed parameter', list(nm) == ['p0', 'p1', 'p2'])


@harness('C17', jobs=[dict(dim=d, sparse=s, exact=e, iters=i, restarts=r, kernel=k) for d, s, e, i, r, k in (
    (1, False, False, 0, 1, False), (2, False, True, 10, 1, True), (1, True, False, 10, 3, False), (2, False, False, 7, 5, True))])
def gp_training(ctx, dim, sparse, exact, iters, restarts, kernel):
    """data and configuration of the maximum-likelihood model"""
    w = World(ctx)
    kern = GPy.kern.RBF(dim) if kernel else None
    noise = ctx.real('noise', 0.001, 10)
    mf = GPy.mappings.Linear(dim, 1) if kernel else None
    m = GPModel(kernel=kern, noise_var=noise, exact_feval=exact, optimizer='scg', max_iters=iters, optimize_restarts=restarts, sparse=sparse, num_inducing=4, verbose=False, mean_function=mf)
    X, Y = data(ctx, 2, dim)
    m.updateModel(X, Y, None, None)
    g = w.models[-1]
    ctx.check('the model is built on exactly the data', land(ctx.eqs(g.X, X, 0), ctx.eqs(g.Y, Y, 0)))
    ctx.check('sparse models only if requested', g.kind == ('sparse' if sparse else 'gp'))
    ctx.check('the given kernel is used, or a kernel over all inputs', g.kern is kern if kernel else g.kern is not None and g.kern.input_dim == dim)
    ctx.check('the given mean function is used', g.mean_function is mf)
    if sparse:
        ctx.check('the requested number of inducing points', g.kw.get('num_inducing') == 4)
    else:
        ctx.check('the given noise variance is used', ctx.eq(g.kw.get('noise_var'), noise, 0))
    ctx.check('noiseless evaluations fix the noise variance, otherwise it stays free', ('constrain_fixed' in [c[0] for c in g.calls]) == exact and len(g.calls) == 1)

    def fitted(kind):
        if iters == 0:
            return 'fit' not in g.log and 'restarts' not in g.log
        return g.log[-1] == ('fit' if restarts == 1 else 'restarts') and g.fit.get('max_iters') == iters and g.fit.get('optimizer') == 'scg' and (restarts == 1 or g.fit.get('num_restarts') == restarts)
    ctx.check('hyper-parameters are fitted as configured', fitted(0))
    X2, Y2 = data(ctx, 3, dim, '2')
    m.updateModel(X2, Y2, None, None)
    g = w.models[-1]
    ctx.check('re-training sets exactly the new data', land(ctx.eqs(g.X, X2, 0), ctx.eqs(g.Y, Y2, 0)))
    ctx.check('hyper-parameters are fitted to the new data', fitted(0) and (iters == 0 or len(w.models) > 1 or g.log.index('data') < len(g.log) - 1))
    n = len(w.models)
    c = m.copy()
    g2 = w.models[-1]
    ctx.check('a copy is a model of the same kind', type(c) is GPModel and g2.kind == g.kind and len(w.models) > n)
    ctx.check('a copy is trained on the same data', land(ctx.eqs(g2.X, X2, 0), ctx.eqs(g2.Y, Y2, 0)))
    ctx.check('a copy does not share the kernel', g2.kern is not g.kern and type(g2.kern) is type(g.kern))
    ctx.check('a copy has the same configuration', land(*[ctx.eq(c.__dict__[a], m.__dict__[a]) if a == 'noise_var' else c.__dict__[a] == m.__dict__[a] for a in ('noise_var', 'exact_feval', 'optimizer', 'max_iters', 'optimize_restarts', 'sparse', 'num_inducing', 'ARD', 'verbose')]))
    ctx.check('a copy has the same mean function', (g2.mean_function is None) == (mf is None) and type(g2.mean_function) is type(mf))


@harness('C17', jobs=[dict(rows=r, dim=d, n=n, fix=f, burn=b, step=s) for r, d, n, f, b, s in ((1, 1, 2, None, 1, 1), (2, 1, 2, [True, True, False], 2, 2), (1, 2, 3, None, 0, 1), (1, 1, 1, [True, False, True], 3, 2))],
         thorough=[dict(rows=3, dim=2, n=3, fix=f, burn=2, step=3) for f in (None, [False, True, True])])
def mcmc(ctx, rows, dim, n, fix, burn, step):
    """predictions of the sampled model: one entry per sample, parameters restored"""
    w = World(ctx, 3, fix)
    env.Rand(ctx, spread=3)
    m = GPModel_MCMC(exact_feval=fix is not None, n_samples=n, n_burnin=burn, subsample_interval=step, step_size=0.2, leapfrog_steps=7)
    for k in range(2):
        X, Y = data(ctx, 2 + k, dim, str(k))
        m.updateModel(X, Y, None, None)
        g = w.models[-1]
        ctx.check('the model is trained on exactly the data', land(ctx.eqs(g.X, X, 0), ctx.eqs(g.Y, Y, 0), ctx.eqs(w.asked['X'], X, 0), ctx.eqs(w.asked['Y'], Y, 0)))
        ctx.check('the sampler is configured as requested', w.asked['iters'] == 7 and w.asked['step'] == 0.2)
    ss = w.samples[-1]
    P = ctx.reals('P', (rows, dim), -K, K)
    p0 = g.param_array.copy()
    out, outg, fm = m.predict(P), None, None

    def restored():
        return land(ctx.eqs(g.param_array, p0, 0), ctx.eqs(g.active, p0, 0))
    ctx.check('prediction leaves the parameters as they were', restored())
    outg = m.predict_withGradients(P)
    ctx.check('prediction with gradients leaves the parameters as they were', restored())
    fm = m.get_fmin()
    ctx.check('the minimum leaves the parameters as they were', restored())
    ok = len(out) == 2 and len(outg) == 4 and all(len(o) == n for o in list(out) + list(outg) + [fm])
    ctx.check('one entry per hyper-parameter sample', ok)
    if not ok:
        return
    for i in range(n):
        s = ss[burn + i * step]
        full, j = [], 0
        for q in range(3):
            if fix is None or fix[q]:
                full.append(s[j])
                j += 1
            else:
                full.append(p0[q])
        g.active = ctx.arr(full)
        predictions(ctx, 'sampled predict', g, [o[i] for o in out], P)
        predictions(ctx, 'sampled predict_withGradients', g, [o[i] for o in outg], P, gradients=True)
        minimum(ctx, 'sampled get_fmin', g, fm[i], X)
    g.active = p0.copy()
    one = m.predict(P[0])
    ctx.check('a single point is a row', np.shape(one[0][0]) == (1, 1))
    p = m.get_model_parameters()
    ctx.check('parameters are those of the underlying model', land(np.shape(p) == (1, 3), ctx.eqv(p, g.param_array, 0)))
    ctx.check('one name per listed parameter', list(m.get_model_parameters_names()) == ['p0', 'p1', 'p2'])


@harness('C17', jobs=[dict(exact=e) for e in (False, True)])
def mcmc_copy(ctx, exact):
    """copies of the sampled model"""
    w = World(ctx, 2, [True, False] if exact else None)
    env.Rand(ctx, spread=3)
    m = GPModel_MCMC(kernel=GPy.kern.Matern32(1), noise_var=0.3, exact_feval=exact, n_samples=2, n_burnin=1, subsample_interval=3, step_size=0.2, leapfrog_steps=7)
    X, Y = data(ctx, 2, 1)
    m.updateModel(X, Y, None, None)
    g = w.models[-1]
    c = m.copy()
    g2 = w.models[-1]
    ctx.check('a copy is a model of the same kind', type(c) is GPModel_MCMC and g2 is not g)
    ctx.check('a copy is trained on the same data', land(ctx.eqs(g2.X, X, 0), ctx.eqs(g2.Y, Y, 0)))
    ctx.check('a copy does not share the kernel', g2.kern is not g.kern and type(g2.kern) is type(g.kern))
    ctx.check('a copy has the same configuration', all(c.__dict__[a] == m.__dict__[a] for a in ('noise_var', 'exact_feval', 'n_samples', 'n_burnin', 'subsample_interval', 'step_size', 'leapfrog_steps', 'verbose')))


@harness('C17', jobs=[dict(rows=r, dim=d) for r, d in ((1, 1), (2, 2))])
def warped(ctx, rows, dim):
    """output-warped model"""
    w = World(ctx)
    m = WarpedGPModel(exact_feval=ctx.choice('exact', [True, False]), max_iters=5)
    for k in range(3):
        X, Y = data(ctx, (1, 3, 3)[k], dim, str(k))
        m.updateModel(X, Y, None, None)
        g = w.models[-1]
        ctx.check('the model is trained on exactly the data', land(g.kind == 'warped', ctx.eqs(g.X, X, 0), ctx.eqs(g.Y, Y, 0)))
        ctx.check('the model is fitted to the data', g.log[-1:] == ['fit'] and g.fit.get('max_iters') == 5)
    P = ctx.reals('P', (rows, dim), -K, K)
    predictions(ctx, 'predict', g, m.predict(P), P)
    predictions(ctx, 'predict at a single point', g, m.predict(P[0]), P[:1])
    minimum(ctx, 'get_fmin', g, m.get_fmin(), X)


@harness('C17', jobs=[dict(kinds=k, rows=r) for k, r in ((['c'], 1), (['c2', 'd2'], 2), (['d3', 'c'], 1), (['c', 'k2'], 1))])
def input_warped(ctx, kinds, rows):
    """input-warped model"""
    w = World(ctx)
    space = make_space(ctx, kinds)
    ds = Design_space(space)
    dim = model_dim(space)
    m = InputWarpedGPModel(ds, max_iters=5, optimize_restarts=1, verbose=False)
    for k in range(2):
        X, Y = data(ctx, 1 + k, dim, str(k))
        m.updateModel(X, Y, None, None)
        g = w.models[-1]
        ctx.check('the model is trained on exactly the data', land(g.kind == 'inputwarped', ctx.eqs(g.X_untransformed, X, 0), ctx.eqs(g.Y, Y, 0)))
        ctx.check('the model is fitted to the data', g.log[-1:] == ['fit'] and g.fit.get('max_iters') == 5)
    numeric = [i for i, c in enumerate(columns(space)) if c[0] != 'categorical']  # (the categorical ones come last here)
    ctx.check('numeric variables are warped, categorical ones are not', list(g.kw.get('warping_indices')) == numeric)
    lo, hi = g.kw['Xmin'], g.kw['Xmax']
    bounds = ds.get_bounds()
    ctx.check('the warped range contains the domain and the data', land(np.shape(lo) == (dim,), np.shape(hi) == (dim,), *[land(lo[j] <= bounds[j][0], hi[j] >= bounds[j][1], *[land(lo[j] <= r[j], r[j] <= hi[j]) for r in X]) for j in range(dim)]))
    P = ctx.reals('P', (rows, dim), -K, K)
    predictions(ctx, 'predict', g, m.predict(P), P)
    predictions(ctx, 'predict at a single point', g, m.predict(P[0]), P[:1])
    minimum(ctx, 'get_fmin', g, m.get_fmin(), X)
    c = m.copy()
    g2 = w.models[-1]
    ctx.check('a copy is a model of the same kind', type(c) is InputWarpedGPModel and g2 is not g)
    ctx.check('a copy is trained on the same data', land(ctx.eqs(g2.X_untransformed, X, 0), ctx.eqs(g2.Y, Y, 0)))


@harness('C17', known='input-warping-after-categorical')
def warping_after_categorical(ctx):
    """a categorical variable before a numeric one"""
    space = make_space(ctx, ['k2', 'c'], sym_domain=False)
    m = InputWarpedGPModel(Design_space(space), verbose=False)
    w = World(ctx)
    X, Y = data(ctx, 2, 3)
    m.updateModel(X, Y, None, None)
    ctx.check('numeric variables after a categorical one are warped', list(w.models[-1].kw.get('warping_indices')) == [2])


@harness('C17', jobs=[dict(rows=r, trees=t) for r, t in ((1, 1), (1, 2), (2, 2))], thorough=[dict(rows=2, trees=3)])
def forest(ctx, rows, trees):
    """random forest: mean and deviation over the trees"""
    import sys, types
    calls = []

    class Tree(object):
        def __init__(s, i):
            s.i = i

        def predict(s, X):
            if np.ndim(X) != 2:
                raise ValueError('Expected 2D array')
            return ctx.arr([tree(s.i, r) for r in X])
    table = {}

    def tree(i, r):
        k = (i, key(r))
        if k not in table:
            table[k] = ctx.real('t%d' % len(table), -K, K)
        return table[k]

    class Forest(object):
        def __init__(s, **kw):
            calls.append(kw)
            s.fits = []
            s.estimators_ = [Tree(i) for i in range(trees)]

        def fit(s, X, y):
            s.fits.append((X, y))

        def predict(s, X):
            return ctx.arr([sum(tree(i, r) for i in range(trees)) / trees for r in X])
    sk, en = types.ModuleType('sklearn'), types.ModuleType('sklearn.ensemble')
    en.RandomForestRegressor = Forest
    sk.ensemble = en
    old = {n: sys.modules.get(n) for n in ('sklearn', 'sklearn.ensemble')}
    sys.modules.update({'sklearn': sk, 'sklearn.ensemble': en})
    try:
        m = RFModel(n_estimators=trees, min_samples_leaf=3)
        for k in range(2):
            X, Y = data(ctx, 1 + k, 2, str(k))
            m.updateModel(X, Y, None, None)
            f = m.model
            ctx.check('the forest is trained on exactly the data', land(ctx.eqs(f.fits[-1][0], X, 0), np.ndim(f.fits[-1][1]) == 1, ctx.eqv(f.fits[-1][1], Y, 0)))
        ctx.check('the forest is configured as requested', calls[0].get('n_estimators') == trees and calls[0].get('min_samples_leaf') == 3)
        P = ctx.reals('P', (rows, 2), -K, K)
        mu, s = m.predict(P)
        ok = np.shape(mu) == (rows, 1) and np.shape(s) == (rows, 1)
        ctx.check('one mean and one deviation per point', ok)
        if ok:
            for i in range(rows):
                v = [tree(t, P[i]) for t in range(trees)]
                a = sum(v) / trees
                ctx.check('mean over the trees', ctx.eq(mu[i, 0], a))
                ctx.check('standard deviation over the trees', land(s[i, 0] >= 0, ctx.eq(s[i, 0] * s[i, 0], sum((x - a) * (x - a) for x in v) / trees)))
        fm = m.get_fmin()
        ms = [sum(tree(t, r) for t in range(trees)) / trees for r in X]
        ctx.check('minimum predicted mean over the training inputs', land(*([fm <= q + 1e-9 for q in ms] + [lor(*[ctx.eq(fm, q) for q in ms])])))
    finally:
        for n, v in old.items():
            if v is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = v
