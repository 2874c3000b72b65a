"""C24: entropy search."""
from checks.acq import *
from symx import env
from GPyOpt.models import GPModel
from GPyOpt.acquisitions import AcquisitionEntropySearch
from GPyOpt.util import epmgp
from GPyOpt.util.mcmc_sampler import McmcSampler, AffineInvariantEnsembleSampler

BOUNDS = ['1-3 representer points in 1-2 dimensions, 1-3 outcome samples, 1-2 scored locations; beliefs, means, covariances and proposal densities in [-5,5], deviations in [0.1,5]']
ASSUMPTIONS = ['the model returns arbitrary predictions and covariances (stub of the GP model)', 'exp/log and the normal distribution function by axioms']
R = 5


class Model(GPModel):
    """arbitrary covariances and deviations per point; `version` counts updates"""
    analytical_gradient_prediction = True

    def __init__(self, ctx):
        self.ctx, self.tab, self.version, self.log = ctx, {}, 0, []

    def val(self, what, row, lo, hi):
        k = (what, self.version, key(row))
        if k not in self.tab:
            self.tab[k] = self.ctx.real('%s%d' % (what, len(self.tab)), lo, hi)
        return self.tab[k]

    def predict(self, X, with_noise=True):
        X = np.atleast_2d(X)
        n = 'n' if with_noise else ''
        return self.ctx.arr([[self.val('m', r, -R, R)] for r in X]), self.ctx.arr([[self.val('s' + n, r, 0.1, R)] for r in X])

    def predict_covariance(self, X, with_noise=True):
        self.log.append((X, with_noise))
        n = len(X)
        if not hasattr(self, 'cov'):
            self.cov = {}
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                out[i][j] = out[j][i] = self.val('v%d.%d' % (len(self.log), i), [float(j)], -R, R)
        return self.ctx.arr(out)

    def get_covariance_between_points(self, x1, x2):
        return self.ctx.arr([[self.val('c', list(a) + list(b), -R, R) for b in np.atleast_2d(x2)] for a in np.atleast_2d(x1)])

    def get_fmin(self):
        return self.val('fmin', [0.0], -R, R)

    def updateModel(self, X_all=None, Y_all=None, X_new=None, Y_new=None):
        self.version += 1


class Sampler(McmcSampler):
    """returns the points it is told"""

    def __init__(self, space, draws):
        self.space, self.draws, self.calls = space, list(draws), []

    def get_samples(self, n_samples, log_p_function, burn_in_steps=50):
        self.calls.append((n_samples, log_p_function, burn_in_steps))
        return self.draws[min(len(self.calls), len(self.draws)) - 1]


class Belief(object):
    """joint_min: arbitrary log probabilities and derivatives"""

    def __init__(self, ctx, fixed=False):
        self.ctx, self.calls, self.fixed = ctx, [], fixed
        ctx.patch(epmgp, 'joint_min', self)

    def __call__(self, mu, var, with_derivatives=False, **kw):
        k, n, c = len(self.calls), len(mu), self.ctx
        L = c.reals('logP%d' % k, (n,), -R, R)
        dM = c.reals('dM%d' % k, (n, n), -R, R)
        dS = c.reals('dS%d' % k, (n, n * (n + 1) // 2), -R, R)
        dMM = c.reals('dMM%d' % k, (n, n, n), -R, R)
        if self.fixed:
            L, dM, dS, dMM = [np.array([((7 * i + 3 * a) % 11 - 5) / 8.0 for i in range(t.size)]).reshape(t.shape) for a, t in enumerate((L, dM, dS, dMM))]
        self.calls.append((mu, var, L, dM, dS, dMM))
        return (L.copy(), dM.copy(), dS.copy(), dMM.copy()) if with_derivatives else L.copy()


def space_of(d, lo=-2, hi=2):
    return Design_space([{'name': 'a', 'type': 'continuous', 'domain': (lo, hi), 'dimensionality': d}])


def quantiles(n, es):
    """the k/(n+1) quantiles of the standard normal distribution (the last digit as the acquisition has it)"""
    from statistics import NormalDist
    q = [NormalDist().inv_cdf((k + 1.0) / (n + 1)) for k in range(n)]
    have = np.asarray(getattr(es, 'W', q)).reshape(-1)
    return [float(h) if len(have) == n and abs(float(h) - v) < 1e-9 else v for h, v in zip(list(have) + q, q)]


def information_gain(ctx, L, dM, dS, dMM, lmb, cov, s, W):
    """expected information gain (Hennig and Schuler 2012): mean over the outcomes w of sum_i p_i (log p_i + log density_i)"""
    n = len(L)
    m = [c / s for c in cov]
    gains = []
    for w in W:
        new = []
        for i in range(n):
            v, k = L[i], 0
            for a in range(n):
                for b in range(a + 1):
                    v = v - dS[i, k] * m[a] * m[b]
                    k += 1
            for a in range(n):
                for b in range(n):
                    v = v + 0.5 * dMM[i, a, b] * m[a] * m[b]
            for a in range(n):
                v = v + dM[i, a] * m[a] * w
            new.append(v)
        top = new[0]
        for v in new[1:]:
            top = ite(v > top, v, top)
        z = top + core.log(sum(core.exp(v - top) for v in new))
        gains.append(sum(core.exp(v - z) * (v - z + l) for v, l in zip(new, lmb)))
    return sum(gains) / np.float64(len(W))


@harness('C24', jobs=[dict(n=n, samples=w, d=d, rows=r) for n, w, d, r in ((1, 1, 1, 1), (1, 2, 2, 2), (2, 1, 1, 1), (2, 2, 1, 1), (2, 1, 2, 2))] + [dict(n=n, samples=w, d=1, rows=r, fixed=True) for n, w, r in ((2, 1, 1), (2, 2, 2), (3, 1, 1), (3, 3, 1))],
         thorough=[dict(n=3, samples=1, d=1, rows=1), dict(n=3, samples=2, d=1, rows=3, fixed=True), dict(n=4, samples=3, d=1, rows=1, fixed=True)], replays=8, timeout_ms=10000)
def gain(ctx, n, samples, d, rows, fixed=False):
    """the acquisition is the expected information gain over the representer points, row by row"""
    m, sp, bel = Model(ctx), space_of(d), Belief(ctx, fixed)
    P, lmb = (ctx.reals('rep', (n, d), -2, 2) if not fixed else np.arange(n * d).reshape(n, d) / 4.0), ctx.reals('lmb', (n, 1), -R, R)
    smp = Sampler(sp, [(P.copy(), lmb.copy())])
    es = AcquisitionEntropySearch(m, sp, smp, num_samples=samples, num_representer_points=n)
    X = ctx.reals('x', (rows, d), -2, 2) if not fixed else -np.arange(1, rows * d + 1).reshape(rows, d) / 8.0
    for i in range(rows):
        for k in range(i):
            ctx.assume(lor(*[X[i, j] != X[k, j] for j in range(d)]))
    v = es.acquisition_function(X.copy())
    ctx.check('one value per location', np.size(v) == rows)
    ctx.check('beliefs computed once, at the representer points', len(smp.calls) == 1 and len(bel.calls) == 1 and smp.calls[0][0] == n)
    mu, var, L, dM, dS, dMM = bel.calls[0]
    ctx.check('beliefs: means at the representer points', ctx.eqv(mu, m.predict(P)[0], 0) and np.shape(mu) == (n,))
    ctx.check('beliefs: covariance at the representer points, with noise', len(m.log) == 1 and m.log[0][1] is True and ctx.eqs(m.log[0][0], P, 0))
    v = np.asarray(v).reshape(-1)
    for i in range(rows):
        s = m.predict(X[i:i + 1], with_noise=False)[1][0, 0]
        cov = m.get_covariance_between_points(P, X[i:i + 1])[:, 0]
        ctx.check('value is minus the expected information gain', ctx.eq(v[i], -information_gain(ctx, L, dM, dS, dMM, lmb[:, 0], cov, s, quantiles(samples, es))))


@harness('C24', jobs=[dict(n=n, drop=drop) for n, drop in ((1, ()), (2, (0,)), (3, (1,)), (3, (0, 2)), (2, 'nan'), (2, 'inf'), (2, 'none'))], replays=6)
def update(ctx, n, drop):
    """representer points with zero proposal density do not count, invalid densities are an error"""
    m, sp, bel = Model(ctx), space_of(1), Belief(ctx)
    P, lmb = ctx.reals('rep', (n, 1), -2, 2), ctx.reals('lmb', (n, 1), -R, R)
    given = lmb.copy()
    if drop in ('nan', 'inf'):
        given[ctx.choice('bad', [0, n - 1]), 0] = float(drop)
    elif drop == 'none':
        given[:, 0] = -np.inf
    else:
        for i in drop:
            given[i, 0] = -np.inf
    burn = ctx.choice('burn', [50, 7])
    prop = lambda x: 0.0
    smp = Sampler(sp, [(P.copy(), given)])
    es = AcquisitionEntropySearch(m, sp, smp, num_samples=1, num_representer_points=n, proposal_function=prop, burn_in_steps=burn)
    x = ctx.reals('x', (1, 1), -2, 2)
    if drop in ('nan', 'inf'):
        try:
            es.acquisition_function(x)
        except RuntimeError:
            return
        ctx.check('invalid density is rejected', False)
        return
    if drop == 'none':
        return
    v = es.acquisition_function(x)
    ctx.check('sampler gets the request', len(smp.calls) == 1 and smp.calls[0][0] == n and smp.calls[0][1] is prop and smp.calls[0][2] == burn)
    kept = [i for i in range(n) if i not in drop]
    mu, var, L, dM, dS, dMM = bel.calls[0]
    ctx.check('beliefs over the kept points', ctx.eqv(mu, m.predict(P[kept])[0], 0))
    s = m.predict(x, with_noise=False)[1][0, 0]
    cov = m.get_covariance_between_points(P[kept], x)[:, 0]
    ctx.check('value over the kept points', ctx.eq(np.asarray(v).reshape(-1)[0], -information_gain(ctx, L, dM, dS, dMM, lmb[kept, 0], cov, s, [0.0])))


class Opt(object):
    """acquisition optimizer that looks at a location of its own choice"""

    def __init__(self, x):
        self.x, self.calls = x, []

    def optimize(self, f=None, df=None, f_df=None, duplicate_manager=None):
        self.calls.append((df, f_df, duplicate_manager))
        self.fx = f(self.x)
        return self.x, self.fx


@harness('C24', jobs=[dict(change=c) for c in (True, False)], replays=6)
def stale(ctx, change):
    """each optimization uses the beliefs of the model at that moment"""
    m, sp, bel = Model(ctx), space_of(1), Belief(ctx)
    draws = [(ctx.reals('rep%d' % i, (1, 1), -2, 2), ctx.reals('lmb%d' % i, (1, 1), -R, R)) for i in range(2)]
    smp = Sampler(sp, [(a.copy(), b.copy()) for a, b in draws])
    x = ctx.reals('x', (1, 1), -2, 2)
    opt = Opt(x)
    es = AcquisitionEntropySearch(m, sp, smp, optimizer=opt, num_samples=1, num_representer_points=1)
    dm = object()
    for it in range(2):
        if it and change:
            m.updateModel()
        r = es.optimize(dm) if it else es.optimize(duplicate_manager=dm)
        ctx.check('the optimizer gets no gradients, and the duplicate manager', opt.calls[-1][0] is None and opt.calls[-1][1] is None and opt.calls[-1][2] is dm)
        ctx.check('the optimizer\'s answer is passed on', r[0] is x)
        use = max(0, min(it, len(smp.calls) - 1))
        P, lmb = draws[use]
        mu, var, L, dM, dS, dMM = bel.calls[-1]
        ctx.check('beliefs of the current model', ctx.eqv(mu, m.predict(P)[0], 0))
        s = m.predict(x, with_noise=False)[1][0, 0]
        cov = m.get_covariance_between_points(P, x)[:, 0]
        ctx.check('value under the current beliefs', ctx.eq(np.asarray(opt.fx).reshape(-1)[0], -information_gain(ctx, L, dM, dS, dMM, lmb[:, 0], cov, s, [0.0])))


class Walk(object):
    """stub of emcee's ensemble sampler: arbitrary final ensemble"""
    made = None

    def __init__(self, nwalkers, ndim, log_prob_fn, *a, **kw):
        self.args, self.runs = (nwalkers, ndim, log_prob_fn), []
        Walk.made.append(self)

    def run_mcmc(self, initial_state, nsteps, **kw):
        self.runs.append((np.array(initial_state, dtype=object if Walk.ctx.sym else float), nsteps))
        n, d = self.args[:2]
        self.out = Walk.ctx.reals('walk', (n, d), -2, 2)
        self.log = Walk.ctx.reals('walklog', (n,), -R, R)
        return (self.out[:, 0].copy() if Walk.flat else self.out.copy()), self.log.copy(), None


@harness('C24', jobs=[dict(d=1, n=2, flat=True), dict(d=1, n=3, flat=False), dict(d=2, n=4, flat=False)], replays=6)
def sampler(ctx, d, n, flat):
    """the ensemble sampler starts in the space and returns points with a column of log densities"""
    import emcee
    Walk.made, Walk.ctx, Walk.flat = [], ctx, flat
    ctx.patch(emcee, 'EnsembleSampler', Walk)
    env.Rand(ctx)
    sp = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-1, 3), 'dimensionality': d - 1}, {'name': 'b', 'type': 'continuous', 'domain': (4, 5)}] if d > 1 else [{'name': 'b', 'type': 'continuous', 'domain': (4, 5)}])
    lo, hi = [b[0] for b in sp.get_bounds()], [b[1] for b in sp.get_bounds()]
    logp = lambda x: 0.0
    burn = ctx.choice('burn', [50, 3])
    P, lp = AffineInvariantEnsembleSampler(sp).get_samples(n, logp, burn) if burn != 50 else AffineInvariantEnsembleSampler(sp).get_samples(n, logp)
    ctx.check('one ensemble', len(Walk.made) == 1 and len(Walk.made[0].runs) == 1)
    w = Walk.made[0]
    ctx.check('as many walkers as samples, of the dimension of the space, for the density given', w.args[0] == n and w.args[1] == d and w.args[2] is logp)
    start, steps = w.runs[0]
    ctx.check('burn-in steps', steps == burn)
    ctx.check('one starting point per walker', start.shape == (n, d))
    for i in range(n):
        for j in range(d):
            ctx.check('start inside the bounds', land(start[i, j] >= lo[j], start[i, j] <= hi[j]))
    ctx.check('shapes', np.shape(P) == (n, d) and np.shape(lp) == (n, 1))
    ctx.check('the final ensemble', ctx.eqs(np.asarray(P), w.out, 0))
    ctx.check('its log densities', ctx.eqs(np.asarray(lp)[:, 0], w.log, 0))


@harness('C24', jobs=[dict(d=1), dict(d=2)], replays=6)
def proposal(ctx, d):
    """the default density of representer points is the expected improvement inside the bounds and zero outside"""
    m, sp, bel = Model(ctx), space_of(d, -1, 2), Belief(ctx)
    smp = Sampler(sp, [(ctx.reals('rep', (1, d), -2, 2), ctx.reals('lmb', (1, 1), -R, R))])
    es = AcquisitionEntropySearch(m, sp, smp, num_samples=1, num_representer_points=1)
    es.acquisition_function(ctx.reals('x', (1, d), -2, 2))
    f = smp.calls[0][1]
    u = ctx.reals('u', (d,), -4, 4)
    v = f(u)
    inside = land(*[land(t >= -1, t <= 2) for t in u])
    if bool(inside):
        row = u.reshape(1, d)
        mu, s = m.predict(row)
        z = (m.get_fmin() - mu[0, 0] - 0.01) / s[0, 0]
        ei = s[0, 0] * (z * ncdf(z) + npdf(z))
        ctx.check('log expected improvement inside', ctx.eq(core.exp(np.asarray(v).reshape(-1)[0]) if bool(ei > 0) else 0.0, ei if bool(ei > 0) else 0.0))
    else:
        ctx.check('zero density outside', bool(np.isneginf(np.asarray(v, dtype=float).reshape(-1)[0])))
    for shape in ((1, d), (d, 1), (2, d)):
        try:
            f(np.zeros(shape))
        except ValueError:
            continue
        ctx.check('a matrix is rejected', False)


@harness('C24', jobs=[{}], replays=4)
def rejections(ctx):
    """wrong dimensions, unsupported models and gradients are errors"""
    m, sp, bel = Model(ctx), space_of(2), Belief(ctx)
    smp = Sampler(sp, [(ctx.reals('rep', (1, 2), -2, 2), ctx.reals('lmb', (1, 1), -R, R))])
    es = AcquisitionEntropySearch(m, sp, smp, num_samples=1, num_representer_points=1)

    def raises(err, f, *a):
        try:
            f(*a)
        except err:
            return True
        return False
    q = ctx.choice('columns', [1, 3, 4])
    ctx.check('wrong dimension', raises(ValueError, es.acquisition_function, ctx.reals('x', (ctx.choice('rows', [1, 2]), q), -2, 2)))
    ctx.check('no gradients', raises(NotImplementedError, es.acquisition_function_withGradients, np.zeros((1, 2))) and not es.analytical_gradient_acq)
    ctx.check('unsupported model', raises(RuntimeError, AcquisitionEntropySearch, TableModel(ctx), sp, smp))


@harness('C24', jobs=[dict(D=1, lost=()), dict(D=2, lost=()), dict(D=2, lost=(0,)), dict(D=3, lost=(1,)), dict(D=3,lost=())], replays=6, timeout_ms=20000)
def normalised(ctx, D, lost):
    """beliefs are normalised log probabilities and their derivatives follow"""
    ctx.canonical()
    m = D * (D + 1) // 2
    l = [(-500.0 if i in lost else ctx.real('l%d' % i, -3, 3)) for i in range(D)]
    d1, ds, d2 = ctx.reals('d1', (D, D), -R, R), ctx.reals('ds', (D, m), -R, R), ctx.reals('d2', (D, D, D), -R, R)
    mu, var = ctx.reals('mu', (D,), -R, R), ctx.reals('var', (D, D), -R, R)
    calls = []

    def factor(Mu, Sigma, k, gamma=1):
        calls.append((Mu, Sigma, k))
        yield -np.inf if k in lost else l[k]
        yield d1[k].copy().reshape((D, 1) if k in lost else (D,))
        yield d2[k].copy()
        yield ds[k].copy().reshape((m, 1) if k in lost else (m,))
    ctx.patch(epmgp, 'min_faktor', factor)
    derivatives = ctx.choice('derivatives', [True, False])
    out = epmgp.joint_min(mu.copy(), var.copy(), with_derivatives=derivatives)
    L = out[0] if derivatives else out
    ctx.check('each point once', [c[2] for c in calls] == list(range(D)) )
    for c in calls:
        ctx.check('its mean and covariance', land(ctx.eqs(c[0], mu, 0), ctx.eqs(c[1], var, 0)))
    e = [core.exp(t) for t in l]
    Z = sum(e)
    p = [t / Z for t in e]
    top = max(range(D), key=lambda i: l[i])
    shifted = [0.0 if i in lost else core.exp(l[i] - l[top]) for i in range(D)]
    for t, q in zip(L, shifted):
        ctx.check('probabilities', ctx.eq(core.exp(t), q / sum(shifted), 1e-9))
    if not derivatives:
        return
    _, dM, dS, dMM = out
    mean = [sum(p[k] * d1[k, a] for k in range(D)) for a in range(D)]
    for k in range(D):
        for a in range(D):
            ctx.check('derivative in the mean', ctx.eq(dM[k, a], d1[k, a] - mean[a]))
            for b in range(D):
                second = sum(p[j] * (d2[j, a, b] + d1[j, a] * d1[j, b]) for j in range(D))
                ctx.check('second derivative in the mean', ctx.eq(dMM[k, a, b], d2[k, a, b] - second + mean[a] * mean[b]))
        for a in range(m):
            ctx.check('derivative in the covariance', ctx.eq(dS[k, a], ds[k, a] - sum(p[j] * ds[j, a] for j in range(D))))


def exact_root(ctx):
    """the code's constant sqrt(2) is taken exactly"""
    ctx.canonical()
    if ctx.sym and hasattr(epmgp, 'sq2'):
        ctx.patch(epmgp, 'sq2', ctx.root2())
    return ctx.root2()


@harness('C24', jobs=[dict(V=i, p=p, k=k) for i, p in ((0, 0.0), (0, 0.75), (1, 0.0), (1, -0.75), (2, -3.0), (3, 0.0)) for k in (0, 1)], replays=6, timeout_ms=20000)
def message(ctx, V, p, k):
    """one step of expectation propagation: the difference of the two values gets the moments of the truncated normal, the rest follows by regression"""
    r2 = exact_root(ctx)
    V = MATRICES[V]
    n, l = len(V), 1 - k
    M = ctx.reals('M', (n,), -R, R)
    mp = 0.0 if p == 0 else ctx.real('mp', -2, 2)
    e, lP, seen = ctx.real('ratio', 0.05, 3), ctx.real('logPhi', -R, 0), []

    def gauss(z):
        seen.append(z)
        return e, lP, 0
    ctx.patch(epmgp, 'log_relative_gauss', gauss)
    cVc = (V[l][l] - 2 * V[k][l] + V[k][k]) / 2
    Vc = [(V[i][l] - V[i][k]) / r2 for i in range(n)]
    cM = (M[l] - M[k]) / r2
    v = cVc / (1 - p * cVc)
    m = cM + v * (p * cM - mp)
    sd = math.sqrt(v)
    beta = e * (e + m / sd)
    ctx.assume(land(beta >= 0.05, beta <= 0.9))                          # the variance of the truncated normal is positive and smaller than v
    mean, var = m + sd * e, v * (1 - beta)
    pn, mpn = 1 / var - 1 / v, mean / var - m / v
    ctx.assume(land(pn >= 1e-3, mpn >= 1e-3))
    Mn, Vn, pnew, mpnew, logS, d = epmgp.lt_factor(k, l, M.copy(), ctx.arr(V), mp, p, 1)
    ctx.check('standardised difference', len(seen) == 1 and ctx.eq(seen[0], m / sd, 1e-5))
    ctx.check('message: precision', ctx.eq(pnew, pn, 1e-4))
    ctx.check('message: mean times precision', ctx.eq(mpnew, mpn, 1e-4))
    for i in range(n):
        ctx.check('marginal: mean', ctx.eq(Mn[i], M[i] + Vc[i] / cVc * (mean - cM), 1e-4))
        for j in range(n):
            ctx.check('marginal: covariance', ctx.eq(Vn[i, j], V[i][j] + Vc[i] * Vc[j] / (cVc * cVc) * (var - cVc), 1e-4))


@harness('C24', jobs=[dict(V=i, p=p, k=k) for i, p in ((0, 0.0), (0, 0.75), (1, -0.75), (2, -3.0), (3, 0.25)) for k in (0, 1)], replays=6, timeout_ms=20000)
def removed(ctx, V, p, k):
    """a step at which the inequality holds (or fails) for certain: its message is removed (or the point has no probability)"""
    r2 = exact_root(ctx)
    V = MATRICES[V]
    n, l = len(V), 1 - k
    M = ctx.reals('M', (n,), -R, R)
    mp = 0.0 if p == 0 else ctx.real('mp', -2, 2)
    holds = ctx.choice('holds', [True, False])
    ctx.patch(epmgp, 'log_relative_gauss', lambda z: (0, 0, 1) if holds else (1, -1.0e12, -1))
    M0 = list(M)
    Mn, Vn, pnew, mpnew, logS, d = epmgp.lt_factor(k, l, M.copy(), ctx.arr(V), mp, p, 1)
    if not holds:
        ctx.check('no probability is left', not isinstance(logS, core.Sym) and float(logS) == -math.inf and float(d) != float(d))
        return
    cVc = (V[l][l] - 2 * V[k][l] + V[k][k]) / 2
    Vc = [(V[i][l] - V[i][k]) / r2 for i in range(n)]
    cM = (M0[l] - M0[k]) / r2
    v = cVc / (1 - p * cVc)
    m = cM + v * (p * cM - mp)
    ctx.check('the message vanishes', land(ctx.eq(pnew, 0), ctx.eq(mpnew, 0), ctx.eq(logS, 0)))
    for i in range(n):
        ctx.check('marginal mean without the message', ctx.eq(Mn[i], M0[i] + Vc[i] / cVc * (m - cM), 1e-4))
        for j in range(n):
            ctx.check('marginal covariance without the message', ctx.eq(Vn[i, j], V[i][j] + Vc[i] * Vc[j] / (cVc * cVc) * (v - cVc), 1e-4))


MATRICES = [[[1, 0], [0, 1]], [[5, 0], [0, 3]], [[2, 0.5], [0.5, 1]], [[1, 0, 0.25], [0, 1, 0.5], [0.25, 0.5, 2]]]


@harness('C24', jobs=[{}], replays=6)
def tail(ctx):
    """density over distribution function of the standard normal and its log; far tails are flagged"""
    z = ctx.real('z', -8, 8)
    e, lP, flag = epmgp.log_relative_gauss(z)
    if flag == -1:
        ctx.check('far left', z < -5)
    elif flag == 1:
        ctx.check('far right', land(z > 5, e == 0, lP == 0))
    else:
        ctx.check('the middle', land(z >= -7, z <= 7))
        ctx.check('log probability', ctx.eq(core.exp(lP), ncdf(z), 1e-5))
        c = math.log(2 * math.pi)
        have = float(getattr(epmgp, 'l2p', c))                           # the constant as the code has it, to the last digit
        ctx.check('ratio', ctx.eq(e * core.exp(lP), core.exp(-0.5 * (z * z + (have if abs(have - c) < 1e-9 else c))), 1e-5))


COV = [[1.0, 0.25, -0.125], [0.25, 0.75, 0.0625], [-0.125, 0.0625, 1.25]]


@harness('C24', jobs=[dict(D=D, k=k, P=P, free=f) for D, k, P, fs in ((2, 0, (4.0,), ('all',)), (2, 1, (0.25,), ('all',)), (3, 0, (1.0, 0.25), (0, 3)), (3, 1, (4.0, 0.25), (0, 2, 3, 4, 5)), (3, 2, (0.25, 1.0), (1, 4))) for f in fs], thorough=[dict(D=3, k=1, P=(4.0, 0.25), free=1)], replays=6, timeout_ms=20000, nice_traces=False)
def product(ctx, D, k, P, free):
    """log probability of being the minimum from the messages, and its derivatives in mean and covariance"""
    r2 = exact_root(ctx)
    MP, lS = [ctx.real('mp%d' % i, -2, 2) for i in range(D - 1)], [ctx.real('ls%d' % i, -2, 0) for i in range(D - 1)]
    for t in MP:
        ctx.assume(lor(t >= 0.1, t <= -0.1))
    Mu = ctx.reals('Mu', (D,), -R, R)
    low = [(i, j) for i in range(D) for j in range(i + 1)]
    vec = [(ctx.real('S%d%d' % (i, j), 0.6, 1) if i == j else ctx.real('S%d%d' % (i, j), -0.25, 0.25)) if free in ('all', a) else COV[i][j] for a, (i, j) in enumerate(low)]
    S = dict(zip(low, vec))
    steps = []

    def factor(s, l, M, V, mp, p, gamma):
        steps.append((s, l, mp, p))
        i = l if l < s else l - 1
        return M, V, P[i], MP[i], lS[i], 0.0
    ctx.patch(epmgp, 'lt_factor', factor)

    def sym(t):
        out = [[None] * D for _ in range(D)]
        for (i, j), x in zip(low, t):
            out[i][j] = out[j][i] = x
        return ctx.arr(out)

    def logz(mu, t):
        return next(epmgp.min_faktor(ctx.arr(list(mu)), sym(t), k))
    g = epmgp.min_faktor(ctx.arr(list(Mu)), sym(vec), k)
    z, dM, dMM, dS = next(g), next(g), next(g), next(g)
    others = [i for i in range(D) if i != k]
    ctx.check('a message from every other point', [s[:2] for s in steps[:D - 1]] == [(k, i) for i in others])
    # the integral of the messages exp(-P (t - MP/P)^2 / 2), t = (x_l - x_k)/sqrt(2), under the belief
    C = [[(1.0 if i == l else -1.0 if i == k else 0.0) / r2 for i in range(D)] for l in others]
    n = D - 1
    K = [[sum(C[a][i] * C[b][j] * S[max(i, j), min(i, j)] for i in range(D) for j in range(D)) for b in range(n)] for a in range(n)]
    t = [sum(C[a][i] * Mu[i] for i in range(D)) for a in range(n)]
    # I = P^-1 + K ; integral of N(t; c, K) * exp(...) with c = MP/P
    I = [[K[a][b] + (1 / P[a] if a == b else 0.0) for b in range(n)] for a in range(n)]
    r = [MP[a] / P[a] - t[a] for a in range(n)]
    if n == 1:
        det, quad = I[0][0], r[0] * r[0] / I[0][0]
    else:
        det = I[0][0] * I[1][1] - I[0][1] * I[1][0]
        quad = (r[0] * r[0] * I[1][1] - 2 * r[0] * r[1] * I[0][1] + r[1] * r[1] * I[0][0]) / det
    scale = det
    for a in range(n):
        scale = scale * P[a]
    want = sum(lS) - 0.5 * quad
    rest = z - want
    ctx.check('log probability', ctx.eq(core.exp(-2 * rest), scale, 1e-4))
    def derivative(val, f, at):
        return [ctx.diff(val, v) for v in at] if ctx.sym else ctx.grad(f, at)
    gm = derivative(z, lambda q: logz(q, vec), list(Mu))
    for i in range(D):
        ctx.check('derivative in the mean', ctx.eq(np.asarray(dM).reshape(-1)[i], gm[i], 1e-4))
    gs = derivative(z, lambda q: logz(Mu, q), vec) if free == 'all' else [None] * free + derivative(z, lambda q: logz(Mu, vec[:free] + list(q) + vec[free + 1:]), vec[free:free + 1])
    for i in range(len(low)) if free == 'all' else [free]:
        ctx.check('derivative in the covariance', ctx.eq(np.asarray(dS).reshape(-1)[i], gs[i], 1e-4))
    for j in range(D):
        def col(q):
            h = epmgp.min_faktor(ctx.arr(list(q)), sym(vec), k)
            next(h)
            return np.asarray(next(h)).reshape(-1)[j]
        for i, v in enumerate(derivative(np.asarray(dM).reshape(-1)[j], col, list(Mu))):
            ctx.check('second derivative in the mean', ctx.eq(np.asarray(dMM)[j, i], v, 1e-4))
