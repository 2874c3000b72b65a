"""C08: evaluation history."""
from checks.loop import *
from symx import env
from GPyOpt.methods import BayesianOptimization

BOUNDS = ['1-3 initial rows, up to 3 iterations of batches of up to 3, then a second run of up to 2 iterations; spaces as listed; all values in [-1000,1000]', 'long runs (up to 180 evaluations, batches up to 24, four continuations): two locations and values arbitrary, the others fixed', 'initial data given as int64 / float32 / float64 arrays']
ASSUMPTIONS = ['suggested batches are arbitrary points of the space (stub evaluator through EvaluatorBase); the objective returns an arbitrary value per call']

SPACES = [['c'], ['c', 'd2'], ['k2', 'c']]
MAXD = 1e9


def rows_ok(ctx, X, want):
    """X is exactly the list of rows `want`"""
    if np.shape(X) != (len(want), len(want[0])):
        return False
    return land(*[ctx.eq(X[i, j], want[i][j], 0) for i in range(len(want)) for j in range(len(want[0]))])


def history(ctx, bo, X0, ytab, ev, own_eval, y0=None):
    """recorded rows = initial rows then the batches in order; evaluated once each, in order, values in place"""
    want = [list(r) for r in X0]
    for b in ev.batches:
        want += b
    ctx.check('recorded locations: initial data then every batch in order', rows_ok(ctx, bo.X, want))
    ctx.check('one value per location', np.shape(bo.Y) == (len(want), 1))
    skip = 0 if own_eval else len(X0)
    ctx.check('every location evaluated exactly once, in the recorded order, one row per call', len(ytab.calls) == len(want) - skip and
              land(*[rows_ok(ctx, c, [want[skip + i]]) for i, c in enumerate(ytab.calls)]))
    vals = (list(y0) if y0 is not None else []) + list(ytab.values)
    ctx.check('the value of a location is the one returned for it', len(vals) == len(want) and land(*[ctx.eq(bo.Y[i, 0], vals[i], 0) for i in range(len(vals))]))
    gx, gy = bo.get_evaluations()
    ctx.check('get_evaluations returns the record', land(ctx.eqs(gx, bo.X, 0), ctx.eqs(gy, bo.Y, 0)))


def points(ctx, space, n, name='x'):
    return [loop_point(ctx, space, '%s%d' % (name, i)) for i in range(n)]


@harness('C08', jobs=[dict(kinds=k, n0=n, iters=i, batch=b, given=g) for k in SPACES for n, i, b in ((1, 2, 1), (2, 1, 2), (1, 0, 1), (3, 1, 3)) for g in (True, False)] + [dict(kinds=['c'], n0=1, iters=1, batch=1, given=True, norm=True)],
         thorough=[dict(kinds=['k3', 'd2', 'c'], n0=3, iters=3, batch=3, given=g) for g in (True, False)], replays=8)
def run(ctx, kinds, n0, iters, batch, given, norm=False):
    """modular runs: rows, order, continuation"""
    space = make_space(ctx, kinds, sym_domain=False)
    X0 = points(ctx, space, n0)
    y0 = ctx.reals('y0', (n0,), -K, K) if given else None
    tab = Table(ctx)
    X = ctx.arr(X0)
    Y = y0.reshape(n0, 1).copy() if given else None
    sx, sy = snapshot(X), snapshot(Y) if given else None
    bo = make_bo(ctx, space, StubModel(ctx), X, Y, SingleObjective(tab), batch, normalize_Y=norm)
    bo.run_optimization(max_iter=iters, eps=-1)
    ctx.check('each iteration adds exactly one batch', len(bo.evaluator.batches) == iters)
    history(ctx, bo, X0, tab, bo.evaluator, not given, y0)
    bo.run_optimization(max_iter=1, eps=-1)
    ctx.check('a run can be continued', len(bo.evaluator.batches) == iters + 1)
    history(ctx, bo, X0, tab, bo.evaluator, not given, y0)
    ctx.check("the user's initial arrays are not modified", land(unchanged(X, sx), unchanged(Y, sy) if given else True))
    n = len(tab.calls)
    s = bo.suggest_next_locations()
    ctx.check('asking for a suggestion evaluates and records nothing', len(tab.calls) == n and np.shape(bo.X) == (n0 + (iters + 1) * batch, obj_dim(space)) and np.shape(bo.Y) == (n0 + (iters + 1) * batch, 1))
    ctx.check('the suggestion is the batch in objective encoding', rows_ok(ctx, s, bo.evaluator.batches[-1]))


@harness('C08', jobs=[dict(kinds=k, init=i, n0=n, batch=b, maximize=m) for k in (['c'], ['k2', 'c']) for i, n in (('design', 2), ('X', 2), ('XY', 2), ('design', 1)) for b in (1, 2) for m in (False, True)], replays=8)
def bayesian_optimization(ctx, kinds, init, n0, batch, maximize):
    """BayesianOptimization: initial design or user data first, then the batches"""
    space = make_space(ctx, kinds, sym_domain=False)
    rnd = env.Rand(ctx)
    tab = Table(ctx)
    model = StubModel(ctx)
    X0 = points(ctx, space, n0) if init != 'design' else None
    y0 = ctx.reals('y0', (n0,), -K, K) if init == 'XY' else None
    ds = Design_space(space)
    acq = StubAcquisition(model, ds, AcquisitionOptimizer(ds))
    bo = BayesianOptimization(tab, space, X=None if X0 is None else ctx.arr(X0), Y=None if y0 is None else y0.reshape(n0, 1), model=model, acquisition=acq,
                              initial_design_numdata=n0, batch_size=batch, maximize=maximize, normalize_Y=False)
    ev = StubEvaluator(ctx, space, acq, batch)
    bo.evaluator = ev
    ctx.check('no suggestion before the run', len(ev.batches) == 0)
    if X0 is None:
        X0 = [list(r) for r in np.asarray(bo.X)]
        ctx.check('initial design of the requested size', len(X0) == n0)
    ctx.check('initial design evaluated before the run unless values are given', len(tab.calls) == (0 if init == 'XY' else n0))
    bo.run_optimization(max_iter=2, eps=-1)
    if maximize:
        tab.values = [-v for v in tab.values]
    history(ctx, bo, X0, tab, ev, init != 'XY', y0)


LONG = [dict(kinds=k, n0=n, iters=i, batch=b, slots=s, given=g) for k, n, i, b, s, g in ((['c'], 3, 70, 1, [0, 66], True), (['c', 'd2'], 40, 30, 2, [3, 41], False), (['k2', 'c'], 70, 12, 3, [0, 35], True), (['c'], 1, 110, 1, [5, 104], False),
                                                                                              (['c'], 12, 3, 24, [1, 70], True))]


@harness('C08', jobs=LONG, thorough=[dict(kinds=['c'], n0=5, iters=300, batch=1, slots=[0, 257], given=True), dict(kinds=['c'], n0=600, iters=2, batch=2, slots=[0, 3], given=False)], replays=6)
def long_run(ctx, kinds, n0, iters, batch, slots, given):
    """long runs and large batches: all but a few locations and values are fixed"""
    space = make_space(ctx, kinds, sym_domain=False)
    X0 = [loop_point(ctx, space, 'x%d' % i) if i == n0 // 2 else fixed_point(space, i) for i in range(n0)]
    y0 = [filler(i + 31) for i in range(n0)] if given else None
    tab = LongTable(ctx, slots)
    bo = make_bo(ctx, space, StubModel(ctx), ctx.arr(X0), ctx.arr([[v] for v in y0]) if given else None, SingleObjective(tab), batch, point=LongPoints(slots))
    bo.run_optimization(max_iter=iters, eps=-1)
    ctx.check('each iteration adds exactly one batch', len(bo.evaluator.batches) == iters)
    history(ctx, bo, X0, tab, bo.evaluator, not given, y0)
    for k in range(3):
        bo.run_optimization(max_iter=2, eps=-1)
    ctx.check('a run can be continued', len(bo.evaluator.batches) == iters + 6)
    history(ctx, bo, X0, tab, bo.evaluator, not given, y0)


TYPES = [('int', 'int'), ('int', 'float'), ('float', 'int'), ('int32', 'float32'), ('float32', 'int')]


@harness('C08', jobs=[dict(kinds=k, tx=a, ty=b, batch=n) for k in (['c'], ['k2', 'c']) for a, b in TYPES for n in (1, 2)], replays=8)
def number_types(ctx, kinds, tx, ty, batch):
    """initial data of any number type: later locations and values are recorded unrounded"""
    space = make_space(ctx, kinds, sym_domain=False)
    X0 = [[float((i + j) % 2) for j in range(obj_dim(space))] for i in range(3)]
    y0 = [4.0, -1.0, 4.0]
    tab = Table(ctx)
    bo = make_bo(ctx, space, StubModel(ctx), np.array(X0).astype(tx), np.array([[v] for v in y0]).astype(ty), SingleObjective(tab), batch)
    bo.run_optimization(max_iter=2, eps=-1)
    history(ctx, bo, X0, tab, bo.evaluator, False, y0)
    bo.run_optimization(max_iter=1, eps=-1)
    history(ctx, bo, X0, tab, bo.evaluator, False, y0)
    bo._compute_results()
    ctx.check('the best-so-far curve is not rounded', land(*[land(*[bo.Y_best[i] <= bo.Y[j, 0] for j in range(i + 1)]) for i in range(bo.Y.shape[0])]))


@harness('C08', jobs=[dict(n=n, d=d) for n in (1, 2, 3) for d in (1, 2)])
def objective(ctx, n, d):
    """SingleObjective.evaluate: row i of the values and of the costs belongs to row i of the locations"""
    tab = Table(ctx)
    clock = env.Clock(ctx, [])
    X = ctx.reals('x', (n, d), -K, K)
    F, C = SingleObjective(tab).evaluate(X.copy())
    ctx.check('objective: one call per row, in order', len(tab.calls) == n and land(*[ctx.eqs(tab.calls[i], X[i:i + 1], 0) for i in range(n)]))
    ctx.check('objective: values in order', np.shape(F) == (n, 1) and land(*[ctx.eq(F[i, 0], tab.values[i], 0) for i in range(n)]))
    ctx.check('objective: one non-negative cost per row', np.size(C) == n and land(*[c >= 0 for c in np.asarray(C, dtype=object).reshape(-1)]))


@harness('C08')
def suggestion_only(ctx):
    """without an objective the loop refuses to run and initial data are required"""
    from GPyOpt.core.errors import InvalidConfigError
    space = make_space(ctx, ['c'], sym_domain=False)
    X0, y0 = ctx.reals('x', (2, 1), -1, 2), ctx.reals('y', (2, 1), -K, K)
    bo = make_bo(ctx, space, StubModel(ctx), X0.copy(), y0.copy(), None)
    ctx.check('running without an objective is rejected', ctx.raises(InvalidConfigError, bo.run_optimization, 1) is not None)
    for X, Y in ((X0, None), (None, y0), (None, None)):
        ctx.check('missing initial data are rejected when there is no objective', ctx.raises(InvalidConfigError, BayesianOptimization, None, space, X=X, Y=Y, model=StubModel(ctx)) is not None)
    s = bo.suggest_next_locations()
    ctx.check('suggestions work without an objective', rows_ok(ctx, s, bo.evaluator.batches[-1]))
    ctx.check('suggestions leave the record alone', land(ctx.eqs(bo.X, X0, 0), ctx.eqs(bo.Y, y0, 0)))
