"""C16: evaluation costs."""
import time
from checks.loop import *
from symx import env
from GPyOpt.core.task.cost import CostModel, constant_cost_withGradients
from GPyOpt.models import GPModel
from GPyOpt.methods import BayesianOptimization

BOUNDS = ['up to 3 updates of up to 2 rows in up to 2 dimensions, runs of up to 2 iterations; durations in (0,1000], all other values in [-1000,1000]', 'long histories (up to 125 timed evaluations, thorough 601): one location and duration arbitrary, the others fixed']
ASSUMPTIONS = ['the Gaussian process behind the cost model is a stub that records its training data and predicts arbitrary means and gradients; exp/log by axioms']


class FakeGP(object):
    def __init__(self, X, Y):
        self.X, self.Y = X, Y


def fake_gp(ctx):
    """GPModel with a stub in place of the GP; predictions are a fixed arbitrary function of the query (fresh per query)"""
    st = dict(q=[], trained=[])

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        self.model = FakeGP(np.array(X_all, dtype=object) if ctx.sym else np.array(X_all), np.array(Y_all, dtype=object) if ctx.sym else np.array(Y_all))
        if ctx.sym:
            self.model = FakeGP(ctx.arr(X_all), ctx.arr(Y_all))
        st['trained'].append((self.model.X, self.model.Y))

    def predict_withGradients(self, x):
        if self.model is None:
            raise AttributeError('model is not trained')
        x = np.atleast_2d(x)
        n, d = x.shape
        for xq, r in st['q']:
            if xq.shape == x.shape and ctx.implied(ctx.eqs(xq, x, 0)):
                return tuple(v.copy() for v in r)
        k = len(st['q'])
        r = (ctx.reals('m%d' % k, (n, 1), -10, 10), ctx.reals('s%d' % k, (n, 1), 0, 10), ctx.reals('dm%d' % k, (n, d), -K, K), ctx.reals('ds%d' % k, (n, d), -K, K))
        st['q'].append((x.copy(), r))
        return tuple(v.copy() for v in r)

    def predict(self, x, *a, **k):
        return predict_withGradients(self, x)[:2]
    ctx.patch(GPModel, 'updateModel', updateModel)
    ctx.patch(GPModel, 'predict_withGradients', predict_withGradients)
    ctx.patch(GPModel, 'predict', predict)
    return st


def exp(ctx, v):
    return core.exp(v) if ctx.sym else np.exp(v)


def log(ctx, v):
    return core.log(v) if ctx.sym else np.log(v)


@harness('C16', jobs=[dict(n=n, d=d) for n in (1, 2) for d in (1, 2)])
def constant_cost(ctx, n, d):
    """no cost model: one, with zero gradient"""
    x = ctx.reals('x', (n, d), -K, K)
    c = CostModel(None)
    for f in (c.cost_withGradients, constant_cost_withGradients):
        v, g = f(x)
        ctx.check('constant cost: one per location', np.shape(v) == (n, 1) and land(*[ctx.eq(e, 1.0, 0) for e in np.asarray(v, dtype=object).reshape(-1)]))
        ctx.check('constant cost: zero gradient', np.shape(g) == (n, d) and land(*[ctx.eq(e, 0.0, 0) for e in np.asarray(g, dtype=object).reshape(-1)]))
    c.update_cost_model(x, [1.0] * n)
    v, g = c.cost_withGradients(x)
    ctx.check('constant cost: unaffected by updates', land(*[ctx.eq(e, 1.0, 0) for e in np.asarray(v, dtype=object).reshape(-1)]))


@harness('C16', jobs=[dict(n=n, d=d) for n in (1, 2) for d in (1, 2)])
def user_cost(ctx, n, d):
    """a user cost function is used at the queried location, unchanged"""
    x = ctx.reals('x', (n, d), -K, K)
    cv, cg = ctx.reals('c', (n, 1), 0.1, K), ctx.reals('g', (n, d), -K, K)
    seen = []

    def cost(z):
        seen.append(ctx.eqs(z, x, 0))
        return cv.copy(), cg.copy()
    c = CostModel(cost)
    v, g = c.cost_withGradients(x)
    ctx.check('user cost: values and gradients at the queried locations', land(ctx.eqs(v, cv, 0), ctx.eqs(g, cg, 0), len(seen) == 1, *seen))
    c.update_cost_model(x, [1.0] * n)
    v, g = c.cost_withGradients(x)
    ctx.check('user cost: unaffected by evaluations', land(ctx.eqs(v, cv, 0), ctx.eqs(g, cg, 0)))


@harness('C16', jobs=[dict(sizes=s, d=d, form=f) for s in ((1,), (2,), (1, 1), (2, 1), (1, 2, 1)) for d in (1, 2) for f in ('list', 'flat', 'col')])
def time_cost(ctx, sizes, d, form):
    """evaluation-time cost: training set and prediction"""
    st = fake_gp(ctx)
    c = CostModel('evaluation_time')
    rows, durs = [], []
    for k, n in enumerate(sizes):
        x = ctx.reals('x%d' % k, (n, d), -K, K)
        t = ctx.reals('t%d' % k, (n,), 0.001, K)
        arg = {'list': list(t), 'flat': t, 'col': t.reshape(n, 1)}[form]
        c.update_cost_model(x.copy(), arg)
        rows += [list(r) for r in x]
        durs += list(t)
        ctx.check('time cost: trained after every update', len(st['trained']) == k + 1)
        X, Y = st['trained'][-1]
        ctx.check('time cost: one row per evaluated location', np.shape(X) == (len(rows), d) and np.shape(Y) == (len(rows), 1))
        ctx.check('time cost: locations in order', ctx.eqs(X, ctx.arr(rows), 0))
        ctx.check('time cost: log-durations aligned with the locations', land(*[ctx.eq(Y[i, 0], log(ctx, durs[i])) for i in range(len(durs))]))
    q = ctx.reals('q', (2, d), -K, K)
    v, g = c.cost_withGradients(q)
    xq, (m, _, dm, _) = st['q'][-1]
    ctx.check('time cost: queried at the given locations', ctx.eqs(xq, q, 0))
    ctx.check('time cost: exponentiated mean', np.shape(v) == (2, 1) and land(*[ctx.eq(v[i, 0], exp(ctx, m[i, 0])) for i in range(2)]))
    ctx.check('time cost: gradient of the exponentiated mean', np.shape(g) == (2, d) and land(*[ctx.eq(g[i, j], exp(ctx, m[i, 0]) * dm[i, j]) for i in range(2) for j in range(d)]))


@harness('C16', jobs=[dict(sizes=s, d=d, slot=k) for s, d, k in (([40, 1, 1, 30], 1, 3), ([1] * 60, 2, 0), ([5, 120], 1, 7))], thorough=[dict(sizes=[1] * 200, d=1, slot=2), dict(sizes=[600, 1], d=1, slot=2)], replays=6)
def time_cost_long(ctx, sizes, d, slot):
    """evaluation-time cost after many evaluations, one of them at an arbitrary location with an arbitrary duration"""
    st = fake_gp(ctx)
    c = CostModel('evaluation_time')
    rows, durs = [], []
    for k, n in enumerate(sizes):
        i0 = len(rows)
        for i in range(i0, i0 + n):
            rows.append([ctx.real('x.%d' % j, -K, K) if i == slot else ((29 + j) * i % 997) / 64.0 for j in range(d)])
            durs.append(ctx.real('t', 1e-9, K) if i == slot else 0.125 + (41 * i % 101) / 8.0)
        c.update_cost_model(ctx.arr(rows[i0:]), list(durs[i0:]))
    X, Y = st['trained'][-1]
    ok = np.shape(X) == (len(rows), d) and np.shape(Y) == (len(rows), 1)
    ctx.check('time cost: one row per evaluated location', ok)
    if ok:
        ctx.check('time cost: locations in order', ctx.eqs(X, ctx.arr(rows), 0))
        ctx.check('time cost: log-durations aligned with the locations', land(*[ctx.eq(Y[i, 0], log(ctx, durs[i])) for i in range(len(durs))]))


class Ticking(Table):
    """objective with a duration per call"""

    def __call__(self, x):
        t = self.ctx.real('dur%d' % len(self.calls), 0.001, K)
        self.durs.append(t)
        self.clock[0] = self.clock[0] + t
        return super().__call__(x)


def ticking(ctx):
    tab = Ticking(ctx)
    tab.durs, tab.clock = [], [0.0]
    for nm in ('time', 'perf_counter', 'monotonic'):
        ctx.patch(time, nm, lambda: tab.clock[0])
    return tab


@harness('C16', jobs=[dict(kinds=k, init=i, batch=b, cls=c) for k in (['c'], ['k2', 'c']) for i in ('design', 'X', 'XY') for b in (1, 2) for c in ('BO', 'Modular') if not (c == 'Modular' and i == 'design')], replays=10)
def runs(ctx, kinds, init, batch, cls):
    """runs with evaluation-time costs: every evaluation is timed and recorded with its location, in model encoding"""
    space = make_space(ctx, kinds, sym_domain=False)
    st = fake_gp(ctx)
    env.Rand(ctx)
    tab = ticking(ctx)
    m = StubModel(ctx)
    X0 = None if init == 'design' else ctx.arr([loop_point(ctx, space, 'x%d' % i) for i in range(2)])
    Y0 = ctx.reals('y0', (2, 1), -K, K) if init == 'XY' else None
    ds = Design_space(space)
    if cls == 'BO':
        acq = StubAcquisition(m, ds, AcquisitionOptimizer(ds))
        bo = BayesianOptimization(tab, space, X=X0, Y=Y0, model=m, acquisition=acq, initial_design_numdata=2, cost_withGradients='evaluation_time', normalize_Y=False)
        bo.evaluator = StubEvaluator(ctx, space, acq, batch)
    else:
        bo = make_bo(ctx, space, m, X0, Y0, SingleObjective(tab), batch, cost='evaluation_time')
    ctx.check('evaluation-time cost is in use', bo.cost.cost_type == 'evaluation_time')
    bo.run_optimization(max_iter=2, eps=-1)
    skip = 2 if init == 'XY' else 0
    rows = [encode(space, list(r)) for r in np.asarray(bo.X)[skip:]]
    ctx.check('every evaluation is timed once', len(tab.durs) == len(rows) and len(st['trained']) > 0)
    X, Y = st['trained'][-1]
    ctx.check('cost data: one row per evaluated location, initial ones included', np.shape(X) == (len(rows), model_dim(space)) and np.shape(Y) == (len(rows), 1))
    ctx.check('cost data: locations in evaluation order', land(*[ctx.eq(X[i, j], rows[i][j], 0) for i in range(len(rows)) for j in range(len(rows[0]))]))
    ctx.check('cost data: durations aligned with the locations', land(*[ctx.eq(Y[i, 0], log(ctx, tab.durs[i])) for i in range(len(rows))]))


@harness('C16')
def acquisition_uses_cost(ctx):
    """the acquisition chosen by BayesianOptimization divides by this very cost model"""
    space = make_space(ctx, ['c'], sym_domain=False)
    st = fake_gp(ctx)
    env.Rand(ctx)
    tab = ticking(ctx)
    kind = ctx.choice('cost', ['none', 'user', 'time'])
    cv = ctx.real('cv', 0.1, K)
    arg = {'none': None, 'user': lambda x: (ctx.arr([[cv]]), ctx.arr([[0.0]])), 'time': 'evaluation_time'}[kind]
    bo = BayesianOptimization(tab, space, X=ctx.arr([[0.25], [0.5]]), acquisition_type='EI', cost_withGradients=arg, normalize_Y=False, model=StubModel(ctx))
    q = ctx.reals('q', (1, 1), 0, 1)
    v, g = bo.acquisition.cost_withGradients(q)
    w, h = bo.cost.cost_withGradients(q)
    ctx.check('the acquisition uses the cost model of the run', land(ctx.eqs(v, w, 0), ctx.eqs(g, h, 0)))
    if kind == 'user':
        ctx.check('the user cost reaches the acquisition', ctx.eq(v[0, 0], cv, 0))
    if kind == 'time':
        ctx.check('the trained cost reaches the acquisition', ctx.eq(v[0, 0], exp(ctx, st['q'][-1][1][0][0, 0])))
    if kind == 'none':
        ctx.check('no cost: one', ctx.eq(v[0, 0], 1.0, 0))
