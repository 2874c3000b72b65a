"""C14: training data of the surrogate model."""
from checks.loop import *
from symx import env
from GPyOpt.methods import BayesianOptimization
from GPyOpt.util.general import normalize

BOUNDS = ['1-3 initial rows, up to 4 iterations of batches of up to 2, update intervals 1-3; spaces as listed, all values in [-1000,1000]', 'long runs (up to 80 evaluations): three locations and values arbitrary, the others fixed (all fixed when the values are normalized)']
ASSUMPTIONS = ['suggested batches are arbitrary points of the space (stub evaluator); the objective returns an arbitrary value per call']


def trained_on(ctx, space, upd, rows, ys, norm):
    X, Y = upd[0], upd[1]
    if np.shape(X) != (len(rows), model_dim(space)) or np.shape(Y) != (len(rows), 1):
        return False
    enc = [encode(space, r) for r in rows]
    okx = land(*[ctx.eq(X[i, j], enc[i][j], 0) for i in range(len(rows)) for j in range(model_dim(space))])
    want = ctx.arr([[v] for v in ys])
    if norm:
        want = normalize(want)
    return land(okx, *[ctx.eq(Y[i, 0], want[i, 0], 1e-6) for i in range(len(rows))])


@harness('C14', jobs=[dict(kinds=k, n0=n, iters=i, batch=b, interval=v, norm=w) for k, n, i, b, v, w in (
    (['c'], 1, 2, 1, 1, False), (['c', 'd2'], 2, 2, 1, 2, False), (['k2', 'c'], 2, 2, 2, 1, False), (['c', 'k3'], 1, 3, 1, 3, False), (['k2', 'd2', 'c'], 2, 4, 1, 2, False), (['c'], 2, 4, 1, 3, False),
    (['c'], 1, 1, 1, 1, True), (['c'], 2, 1, 1, 2, True), (['k2', 'c'], 1, 1, 1, 1, True), (['c2'], 2, 0, 1, 1, False))],
    thorough=[dict(kinds=['k2', 'd2', 'c'], n0=2, iters=5, batch=2, interval=2, norm=False), dict(kinds=['c'], n0=2, iters=1, batch=1, interval=1, norm=True)], replays=20)
def training(ctx, kinds, n0, iters, batch, interval, norm):
    """which data the model sees, and when"""
    train(ctx, kinds, n0, iters, batch, interval, norm)


@harness('C14', jobs=[dict(kinds=k, n0=n, iters=i, batch=b, interval=v, norm=w, slots=s) for k, n, i, b, v, w, s in (
    (['c'], 2, 66, 1, 1, False, [0, 62]), (['c', 'd2'], 60, 9, 2, 4, False, [0, 15]), (['k2', 'c'], 3, 40, 1, 7, False, [2, 38]), (['c'], 2, 24, 3, 25, False, [2, 65]), (['c'], 10, 20, 1, 5, True, []), (['c'], 40, 3, 1, 1, True, []))],
    thorough=[dict(kinds=['c'], n0=2, iters=260, batch=1, interval=3, norm=False, slots=[0, 255])], replays=6)
def long_training(ctx, kinds, n0, iters, batch, interval, norm, slots):
    """the same in long runs: all but a few locations and values are fixed"""
    train(ctx, kinds, n0, iters, batch, interval, norm, slots)


def train(ctx, kinds, n0, iters, batch, interval, norm, slots=None):
    space = make_space(ctx, kinds, sym_domain=False)
    events = []
    free = range(n0) if slots is None else [n0 // 2] if not norm else []
    X0 = [loop_point(ctx, space, 'x%d' % i) if i in free else fixed_point(space, i) for i in range(n0)]
    y0 = [ctx.real('y0.%d' % i, -K, K) if i in free else filler(i + 31) for i in range(n0)]
    tab = Table(ctx, events) if slots is None else LongTable(ctx, slots, events)
    m = StubModel(ctx, events)
    bo = make_bo(ctx, space, m, ctx.arr(X0), ctx.arr([[v] for v in y0]), SingleObjective(tab), batch, events, normalize_Y=norm, model_update_interval=interval, point=None if slots is None else LongPoints(slots))
    bo.run_optimization(max_iter=iters, eps=-1)
    due = [k for k in range(iters + 1) if k % interval == 0]
    # expected order of events; the update after the last batch is due as well
    want = []
    for k in range(iters + 1):
        if k in due:
            want.append('update')
        if k < iters:
            want += ['suggest'] + ['eval'] * batch
    ctx.check('updates happen at exactly the due iterations, before the suggestion', [e[0] for e in events] == want)
    b = bo.evaluator.batches
    for u, k in zip(m.updates, due):
        rows = X0 + [r for q in b[:k] for r in q]
        ctx.check('the model is trained on all recorded data, in order, in model encoding', trained_on(ctx, space, u, rows, y0 + tab.values[:k * batch], norm))
    ctx.check('one row of model parameters per iteration boundary', np.shape(bo.model_parameters_iterations) == (iters + 1, 2))
    ctx.check('logged parameters are the current ones at that time', len(m.params) == iters + 1 and ctx.eqs(bo.model_parameters_iterations, ctx.arr([p[0] for p in m.params]), 0))
    nu, np_ = len(m.updates), len(m.params)
    bo.suggest_next_locations()
    ctx.check('a suggestion trains the model first', len(m.updates) == nu + 1 and [e[0] for e in events[-2:]] == ['update', 'suggest'])
    rows = X0 + [r for q in b[:iters] for r in q]
    ctx.check('a suggestion uses all recorded data', trained_on(ctx, space, m.updates[-1], rows, y0 + tab.values, norm))
    ctx.check('a suggestion logs its own parameters', ctx.eqs(bo.model_parameters_iterations, m.params[-1], 0))


@harness('C14', jobs=[dict(kinds=k, norm=w) for k in (['c'], ['k2', 'c']) for w in (True, False)], replays=20)
def bayesian_optimization(ctx, kinds, norm):
    """the same through BayesianOptimization with an initial design"""
    space = make_space(ctx, kinds, sym_domain=False)
    env.Rand(ctx)
    events = []
    tab = Table(ctx, events)
    m = StubModel(ctx, events)
    ds = Design_space(space)
    acq = StubAcquisition(m, ds, AcquisitionOptimizer(ds))
    n0 = 1 if norm else 2
    bo = BayesianOptimization(tab, space, model=m, acquisition=acq, initial_design_numdata=n0, normalize_Y=norm)
    bo.evaluator = StubEvaluator(ctx, space, acq, 1, events)
    X0 = [list(r) for r in np.asarray(bo.X)]
    ctx.check('no training before the run', len(m.updates) == 0)
    bo.run_optimization(max_iter=1, eps=-1)
    rows = X0 + [b[0] for b in bo.evaluator.batches]
    ctx.check('two trainings in a run of one iteration', len(m.updates) == 2)
    ctx.check('the model is trained on all recorded data, in order, in model encoding', land(trained_on(ctx, space, m.updates[0], X0, tab.values[:n0], norm), trained_on(ctx, space, m.updates[1], rows, tab.values, norm)))


@harness('C14')
def without_parameters(ctx):
    """models that do not list parameters take part in the loop; the user's model is used"""
    space = make_space(ctx, ['c'], sym_domain=False)

    class Bare(BOModel):
        updates = []

        def updateModel(self, X_all, Y_all, X_new, Y_new):
            self.updates = self.updates + [(X_all, Y_all)]

        def predict(self, X):
            return np.zeros((len(X), 1)), np.ones((len(X), 1))

        def get_fmin(self):
            return 0.0
    x, y = ctx.reals('x', (2, 1), 0, 1), ctx.reals('y', (2, 1), -K, K)
    m = Bare()
    bo = make_bo(ctx, space, m, x.copy(), y.copy(), SingleObjective(Table(ctx)), 1)
    bo.run_optimization(max_iter=1, eps=-1)
    ctx.check('a model without parameter listing is trained', len(m.updates) == 2 and land(ctx.eqs(m.updates[0][0], x, 0), ctx.eqs(m.updates[0][1], y, 0)))
