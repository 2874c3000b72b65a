"""C23: numerical utilities."""
import itertools
from checks.common import *
from GPyOpt.util import general as G
from GPyOpt.experiment_design.grid_design import multigrid

BOUNDS = ['arrays of up to 3 rows x 2 columns, vectors up to 4, grids up to 3 dimensions x 3 points; all reals in [-1000,1000]', 'best_value of up to 320 (thorough 1500) values with one of them arbitrary']
ASSUMPTIONS = ['real arithmetic']


@harness('C23', jobs=[dict(n=n, sign=s, col=c) for n in (1, 2, 3, 4) for s in (1, -1, None) for c in (True, False)])
def running_best(ctx, n, sign, col):
    """best_value: running minimum / maximum"""
    y = ctx.reals('y', (n,), -K, K)
    Y = y.reshape(n, 1).copy() if col else y.copy()
    snap = snapshot(Y)
    b = G.best_value(Y) if sign is None else G.best_value(Y, sign)
    ctx.check('running best: one entry per value', np.shape(b) == (n,))
    for i in range(n):
        pre = [y[j] for j in range(i + 1)]
        ok = land(*[(b[i] >= v if sign == -1 else b[i] <= v) for v in pre])
        ctx.check('running best: extreme of the first i values', land(ok, lor(*[b[i] == v for v in pre])))
    ctx.check('running best: input not modified', unchanged(Y, snap))


@harness('C23', jobs=[dict(n=n, sign=g, slot=k) for n, k in ((320, 3), (300, 270), (260, 0)) for g in (1, -1)], thorough=[dict(n=1500, sign=1, slot=1)], replays=4)
def running_best_long(ctx, n, sign, slot):
    """best_value of many values, one of them arbitrary"""
    y = [float((37 * i + 11) % 1009) for i in range(n)]
    v = y[slot] = ctx.real('v', -2 * K, 2 * K)
    b = G.best_value(ctx.arr([[a] for a in y]), sign)
    ok = np.shape(b) == (n,)
    ctx.check('running best: one entry per value', ok)
    if not ok:
        return
    best, parts = None, []
    for i in range(n):
        if i != slot:
            best = y[i] if best is None else max(best, y[i]) if sign == -1 else min(best, y[i])
        w = best if i < slot else v if best is None else ite(v > best, v, best) if sign == -1 else ite(v < best, v, best)
        parts.append(ctx.eq(b[i], w, 0))
    for i in range(0, n, 10):
        ctx.check('running best: extreme of the first i values', land(*parts[i:i + 10]))


@harness('C23', jobs=[dict(n=n) for n in (1, 2, 3)])
def best_guess(ctx, n):
    """best_guess: f value of the best of the first i locations"""
    X = ctx.reals('x', (n, 2), -K, K)
    vals = ctx.reals('f', (n,), -K, K)
    sizes = []

    def f(Z):
        sizes.append((np.shape(Z), ctx.eqs(Z, X[:len(Z)], 0)))
        return vals[:len(Z)].reshape(-1, 1)
    b = G.best_guess(f, X)
    ctx.check('best guess: one entry per location', np.shape(b) == (n,))
    ctx.check('best guess: evaluated on the prefixes', land(*[s[1] for s in sizes]))
    for i in range(n):
        pre = [vals[j] for j in range(i + 1)]
        ctx.check('best guess: minimum of the prefix', land(land(*[b[i] <= v for v in pre]), lor(*[b[i] == v for v in pre])))


@harness('C23', jobs=[dict(r1=a, c1=b, r2=c, c2=d) for a in (1, 2, 3) for b in (1, 2) for c in (1, 2) for d in (1, 2)])
def merging(ctx, r1, c1, r2, c2):
    """merge_values: every pair of rows"""
    A, B = ctx.reals('a', (r1, c1), -K, K), ctx.reals('b', (r2, c2), -K, K)
    M = G.merge_values(A.copy(), B.copy())
    ctx.check('merge: shape', np.shape(M) == (r1 * r2, c1 + c2))
    k = 0
    for i in range(r1):
        for j in range(r2):
            want = list(A[i]) + list(B[j])
            ctx.check('merge: pairs in order', land(*[M[k, l] == want[l] for l in range(c1 + c2)]))
            k += 1


@harness('C23', jobs=[dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2)])
def merging_tuples(ctx, n, m):
    """tuples are columns of values"""
    a = tuple(ctx.real('a%d' % i, -K, K) for i in range(n))
    b = tuple(ctx.real('b%d' % i, -K, K) for i in range(m))
    va = G.values_to_array(a)
    ctx.check('values: a tuple becomes a column', np.shape(va) == (n, 1) and land(*[va[i, 0] == a[i] for i in range(n)]))
    M = G.merge_values(a, b)
    ctx.check('merge of tuples: shape', np.shape(M) == (n * m, 2))
    ctx.check('merge of tuples: every combination', land(*[lor(*[land(M[k, 0] == a[i], M[k, 1] == b[j]) for k in range(n * m)]) for i in range(n) for j in range(m)]))
    s = ctx.real('s')
    vs = G.values_to_array(s if ctx.sym else float(s))
    ctx.check('values: a number becomes 1x1', np.shape(vs) == (1, 1) and vs[0, 0] == s)
    e = np.zeros((0,))
    col = np.atleast_2d(G.values_to_array(a))
    ctx.check('merge with nothing', ctx.eqs(G.merge_values(a, e), col, 0))
    ctx.check('merge of nothing', ctx.eqs(G.merge_values(e, a), col, 0))


@harness('C23', jobs=[dict(d=d, n=n) for d in (1, 2, 3) for n in (1, 2, 3)])
def grids(ctx, d, n):
    """multigrid: all combinations of equally spaced levels"""
    bounds = [(ctx.real('lo%d' % i, -K, K), ctx.real('hi%d' % i, -K, K)) for i in range(d)]
    for lo, hi in bounds:
        ctx.assume(lo <= hi)
    X = multigrid(bounds, n)
    ctx.check('grid: shape', np.shape(X) == (n ** d, d))
    lev = [[lo + (hi - lo) * (np.float64(j) / (n - 1) if n > 1 else 0.0) for j in range(n)] for lo, hi in bounds]
    for combo in itertools.product(range(n), repeat=d):
        ctx.check('grid: every combination once', lor(*[land(*[ctx.eq(X[k, a], lev[a][combo[a]]) for a in range(d)]) for k in range(n ** d)]))


@harness('C23', jobs=[dict(d=d, form=f) for d in (1, 2, 3) for f in ('flat', 'row', 'list', 'two')])
def reshape(ctx, d, form):
    """reshape keeps all values in order"""
    n = 2 if form == 'two' and d > 1 else 1
    v = ctx.reals('v', (n, d), -K, K)
    arg = {'flat': v.reshape(-1), 'row': v, 'list': [x for x in v.reshape(-1)], 'two': v}[form]
    r = G.reshape(arg, d)
    ctx.check('reshape: one row per point', ctx.eqs(r, v, 0))


@harness('C23', jobs=[dict(form=f) for f in ('scalar', 'array')], timeout_ms=20000)
def quantiles(ctx, form):
    """get_quantiles: standardized improvement, normal density and distribution, with the deviation floored"""
    jit, fmin = ctx.real('jitter', 0, 10), ctx.real('fmin', -K, K)
    n = 1 if form == 'scalar' else 2
    m = ctx.reals('m', (n, 1), -K, K)
    s = ctx.reals('s', (n, 1), 0, K)
    if form == 'scalar':
        phi, Phi, u = G.get_quantiles(jit, fmin, m[0, 0], s[0, 0])
        phi, Phi, u = [np.asarray(v, dtype=object).reshape(1, 1) for v in (phi, Phi, u)]
    else:
        phi, Phi, u = G.get_quantiles(jit, fmin, m.copy(), s.copy())
    ctx.check('quantiles: shapes', np.shape(u) == (n, 1) and np.shape(phi) == (n, 1) and np.shape(Phi) == (n, 1))
    from scipy.stats import norm
    for i in range(n):
        sf = ite(s[i, 0] < 1e-10, 1e-10, s[i, 0])
        if ctx.sym:
            ctx.check('quantiles: standardized improvement', ctx.eq(u[i, 0] * sf, fmin - m[i, 0] - jit))
            ctx.check('quantiles: distribution', ctx.eq(Phi[i, 0], core.ncdf(u[i, 0])))
            ctx.check('quantiles: density', ctx.eq(phi[i, 0], core.exp(-0.5 * u[i, 0] * u[i, 0]) / np.sqrt(2 * np.pi)))
        else:
            uu = (fmin - m[i, 0] - jit) / sf
            ctx.check('quantiles: standardized improvement', ctx.eq(u[i, 0], uu))
            ctx.check('quantiles: distribution', ctx.eq(Phi[i, 0], norm.cdf(uu)))
            ctx.check('quantiles: density', ctx.eq(phi[i, 0], norm.pdf(uu)))


@harness('C23', jobs=[dict(n=n, d=d) for n in (1, 2) for d in (1, 2)])
def moments(ctx, n, d):
    """get_moments / get_d_moments of a model: mean, root of the clipped variance, minimum over the training points"""
    Xt = ctx.reals('X', (2, d), -K, K)
    mt = ctx.reals('mt', (2, 1), -K, K)
    mq, vq = ctx.reals('m', (n, 1), -K, K), ctx.reals('v', (n, 1), -K, K)
    dm, dv = ctx.reals('dm', (n, d, 1), -K, K), ctx.reals('dv', (n, d), -K, K)
    x = ctx.reals('x', (n, d), -K, K)

    class M(object):
        X = Xt
        input_dim = d

        def predict(self, Z):
            if Z is Xt:
                return mt.copy(), ctx.arr([[1.0], [1.0]])
            ctx.check('moments: queried at x', ctx.eqs(Z, x, 0))
            return mq.copy(), vq.copy()

        def predictive_gradients(self, Z):
            return dm.copy(), dv.copy()
    m, s, fmin = G.get_moments(M(), x)
    ctx.check('moments: mean', ctx.eqs(m, mq, 0))
    f = np.asarray(fmin, dtype=object).reshape(-1)[0]
    ctx.check('moments: minimum over the training points', land(f <= mt[0, 0], f <= mt[1, 0], lor(f == mt[0, 0], f == mt[1, 0])))
    for i in range(n):
        ctx.check('moments: deviation', land(s[i, 0] >= 0, ctx.eq(s[i, 0] * s[i, 0], ite(vq[i, 0] < 0, 0.0, vq[i, 0]))))
    ctx.assume(land(*[vq[i, 0] > 1e-6 for i in range(n)]))
    a, b = G.get_d_moments(M(), x)
    ctx.check('moments: mean gradient', ctx.eqs(a, dm[:, :, 0], 0))
    ctx.check('moments: deviation gradient', land(np.shape(b) == (n, d), *[ctx.eq(b[i, j] * 2 * np.sqrt(vq[i, 0]), dv[i, j]) for i in range(n) for j in range(d)]))


@harness('C23', jobs=[dict(n=n, d=d) for n in (1, 2) for d in (1, 2)])
def timed_evaluation(ctx, n, d):
    """evaluate_function: row values and durations"""
    from symx import env
    env.Clock(ctx, [])
    X = ctx.reals('x', (n, d), -K, K)
    vals = ctx.reals('f', (n, d), -K, K)
    seen = []

    def f(x):
        seen.append(ctx.eqv(x, X[len(seen)], 0))
        return vals[len(seen) - 1]
    Y, T = G.evaluate_function(f, X)
    ctx.check('timed evaluation: each row once in order', len(seen) == n and land(*seen))
    ctx.check('timed evaluation: values', ctx.eqs(Y, vals, 0))
    ctx.check('timed evaluation: durations are non-negative', np.shape(T) == (n, 1) and land(*[T[i, 0] >= 0 for i in range(n)]))


@harness('C23', jobs=[dict(S=s) for s in (1, 2, 3)])
def integrated(ctx, S):
    """integrated acquisition: average over the hyper-parameter samples"""
    hm = ctx.reals('h', (S, 2), -K, K)
    val = ctx.reals('a', (S,), -K, K)
    gr = ctx.reals('g', (S, 1, 2), -K, K)
    state = dict(k=[])

    class Kern(object):
        def __setitem__(self, sl, v):
            state['k'].append(v)

    class A(object):
        class model(object):
            num_hmc_samples = S
            hmc_samples = hm

            class model(object):
                kern = Kern()

        def acquisition_function(self, x):
            i = len(state['k']) - 1
            return val[i]

        def acquisition_function_withGradients(self, x):
            i = len(state['k']) - 1
            return val[i], gr[i]
    x = ctx.reals('x', (1, 2), -K, K)
    a = G.compute_integrated_acquisition(A(), x)
    ctx.check('integrated acquisition: every sample once in order', len(state['k']) == S and land(*[ctx.eqv(state['k'][i], hm[i], 0) for i in range(S)]))
    ctx.check('integrated acquisition: average', ctx.eq(a * S, sum(val)))
    state['k'] = []
    a, g = G.compute_integrated_acquisition_withGradients(A(), x)
    ctx.check('integrated acquisition: every sample once in order (gradient version)', len(state['k']) == S and land(*[ctx.eqv(state['k'][i], hm[i], 0) for i in range(S)]))
    ctx.check('integrated acquisition: average (gradient version)', ctx.eq(a * S, sum(val)))
    ctx.check('integrated acquisition: average gradient', land(np.shape(g) == (1, 2), *[ctx.eq(g[0, j] * S, sum(gr[i, 0, j] for i in range(S))) for j in range(2)]))
