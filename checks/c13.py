"""C13: normalization."""
from checks.common import *
from GPyOpt.util.general import normalize

BOUNDS = ['vectors (row, column, flat) of up to 4 values (thorough: 5), all reals in [-1000,1000]', 'vectors of up to 120 values with two of them arbitrary']
ASSUMPTIONS = ['real arithmetic (rounding of the division is outside the claim)']


@harness('C13', jobs=[dict(n=n, shape=s, kind=k) for n in (1, 2, 3) for s in ('flat', 'col', 'row') for k in ('stats', 'maxmin')] + [dict(n=4, shape='col', kind='maxmin')],
         thorough=[dict(n=4, shape='col', kind='stats'), dict(n=5, shape='col', kind='maxmin')], timeout_ms=20000)
def normalization(ctx, n, shape, kind):
    """normalize() against its definition"""
    y = ctx.reals('y', (n,), -K, K)
    Y = {'flat': y, 'col': y.reshape(n, 1), 'row': y.reshape(1, n)}[shape].copy()
    snap = snapshot(Y)
    how = ctx.choice('default', [True, False]) if kind == 'stats' else False
    Z = normalize(Y) if how else normalize(Y, kind)
    ctx.check('same shape', np.shape(Z) == np.shape(Y))
    ctx.check('input not modified', unchanged(Y, snap))
    z = np.asarray(Z).reshape(-1)
    const = land(*[y[i] == y[0] for i in range(n)])
    ctx.check('constant data become zero', limplies(const, land(*[ctx.eq(v, 0.0) for v in z])))
    for i in range(n):
        for j in range(i):
            ctx.check('order is preserved', land(limplies(y[i] < y[j], z[i] < z[j]), limplies(y[i] > y[j], z[i] > z[j])))
            ctx.check('ties are preserved', limplies(y[i] == y[j], ctx.eq(z[i], z[j])))
    if kind == 'stats':
        mean = sum(y[i] for i in range(n)) / np.float64(n)
        ssd = sum((y[i] - mean) * (y[i] - mean) for i in range(n))
        var = ssd / np.float64(n)
        ctx.check('standardized values sum to zero', ctx.eq(sum(z), 0.0))
        for i in range(n):
            d = y[i] - mean
            ctx.check('standardized values have the sign of the deviation', land(limplies(d > 0, z[i] > 0), limplies(d < 0, z[i] < 0)))
            ctx.check('standardized value times the standard deviation is the deviation', limplies(lnot(const), ctx.eq(z[i] * np.sqrt(var), d)))
    else:
        mn = y[0]
        mx = y[0]
        for i in range(1, n):
            mn = ite(y[i] < mn, y[i], mn)
            mx = ite(y[i] > mx, y[i], mx)
        for i in range(n):
            ctx.check('max-min values', limplies(lnot(const), ctx.eq(z[i] * (mx - mn), 2 * (y[i] - mn) - (mx - mn))))
            ctx.check('max-min range', land(z[i] >= -1 - 1e-9, z[i] <= 1 + 1e-9))


PATTERNS = ((0.0, 1.0), (1.0, 0.0, 0.5), (-1.0, 2.0, 2.0, 0.0), (3.0, 3.0, 3.0, 3.0, -1.0), tuple(float((7 * i) % 11) for i in range(40)))


@harness('C13', jobs=[dict(k=k, kind=kind, shape=sh, big=b) for k in range(5) for kind, sh in (('stats', 'col'), ('maxmin', 'row')) for b in (False, True)])
def any_scale(ctx, k, kind, shape, big):
    """scaling the data by any positive factor (from tiny to huge) leaves the normalized values alone; so does a shift"""
    p = PATTERNS[k]
    n = len(p)
    t = ctx.real('scale', 1e-60, 1e60) if not big else ctx.real('scale', 0.5, 1e6)
    off = ctx.real('shift', -100, 100) if big else 0.0
    y = ctx.arr([off + t * v for v in p])
    Y = {'col': y.reshape(n, 1), 'row': y.reshape(1, n)}[shape]
    z = np.asarray(normalize(Y, kind)).reshape(-1)
    ctx.check('same number of values', np.size(z) == n)
    if np.size(z) != n:
        return
    q = np.array(p)
    want = (q - q.mean()) / q.std() if kind == 'stats' else 2 * (q - q.min()) / (q.max() - q.min()) - 1
    ctx.check('normalized values do not depend on scale and shift', land(*[ctx.eq(z[i], float(want[i]), 1e-6) for i in range(n)]))


@harness('C13')
def rejected(ctx):
    """matrices and unknown schemes"""
    Y = ctx.reals('y', (2, 2), -K, K)
    for k in ('stats', 'maxmin'):
        ctx.check('matrices are rejected', ctx.raises(NotImplementedError, normalize, Y, k) is not None)
    ctx.check('unknown scheme is rejected', ctx.raises(ValueError, normalize, Y[:, 0], 'log') is not None)


@harness('C13', jobs=[dict(norm=b, rows=r) for b in (True, False) for r in (1, 2, 3)])
def only_for_the_model(ctx, norm, rows):
    """the loop hands normalized values to the model and keeps the recorded ones"""
    from checks.loop import StubModel, make_bo
    space = [{'name': 'a', 'type': 'continuous', 'domain': (0, 1)}]
    X = ctx.reals('x', (rows, 1), 0, 1)
    Y = ctx.reals('y', (rows, 1), -K, K)
    m = StubModel(ctx)
    bo = make_bo(ctx, space, m, X=X.copy(), Y=Y.copy(), normalize_Y=norm)
    bo.num_acquisitions = 0
    bo._update_model(bo.normalization_type)
    ctx.check('one training call', len(m.updates) == 1)
    X_all, Y_all = m.updates[0][:2]
    ctx.check('the model is trained on the locations', ctx.eqs(X_all, X, 0))
    want = normalize(Y, 'stats') if norm else Y
    ctx.check('the model is trained on normalized values iff requested', ctx.eqs(Y_all, want))
    ctx.check('recorded values are left alone', land(unchanged(bo.Y, snapshot(Y)), unchanged(bo.X, snapshot(X))))
    bo._compute_results()
    ctx.check('the reported optimum is in original units', ctx.any(ctx.eq(bo.fx_opt, Y[i, 0], 0) for i in range(rows)))


@harness('C13', jobs=[dict(n=60, iters=3, slot=s, batch=b) for s, b in ((7, 1), (59, 2), (61, 1))], replays=6)
def only_for_the_model_long(ctx, n, iters, slot, batch):
    """the same during a longer run whose values include an arbitrary one (an outlier, say)"""
    from checks.loop import StubModel, make_bo, fixed_point, LongPoints, LongTable, SingleObjective
    space = [{'name': 'a', 'type': 'continuous', 'domain': (-1, 2)}]
    y0 = [0.25 * (i % 3) for i in range(n)]
    if slot < n:
        y0[slot] = ctx.real('y', -1e6, 1e6)
    tab = LongTable(ctx, [slot - n] if slot >= n else [])
    m = StubModel(ctx)
    bo = make_bo(ctx, space, m, X=ctx.arr([fixed_point(space, i) for i in range(n)]), Y=ctx.arr([[v] for v in y0]), objective=SingleObjective(tab), batch_size=batch, normalize_Y=True, point=LongPoints([]))
    bo.run_optimization(max_iter=iters, eps=-1)
    y = y0 + tab.values
    ctx.check('recorded values are the evaluated ones, not normalized', np.shape(bo.Y) == (len(y), 1) and land(*[ctx.eq(bo.Y[i, 0], y[i], 0) for i in range(len(y))]))
    ctx.check('the reported optimum is in original units', land(*[bo.fx_opt <= v for v in y], lor(*[ctx.eq(bo.fx_opt, v, 0) for v in y])))
    ctx.check('the model is trained at every iteration', len(m.updates) == iters + 1)
    for k, u in enumerate(m.updates):
        ctx.check('the model is trained on all values', np.shape(u[1]) == (n + k * batch, 1))
