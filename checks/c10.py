"""C10: reported optimum and saved results."""
import os, shutil, tempfile
from checks.loop import *
from symx import env
from GPyOpt.methods import BayesianOptimization

BOUNDS = ['up to 5 recorded evaluations in 1-3 dimensions, up to 2 iterations; all values in [-1000,1000], ties included', 'long runs (up to 135 evaluations): two or three locations and values arbitrary, the others fixed']
ASSUMPTIONS = ['files are written to a scratch directory and read back; symbolic values appear in them as placeholders']


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='symx-c10-')
        return self

    def path(self, n):
        return os.path.join(self.d, n)

    def read(self, n):
        with open(self.path(n)) as f:
            return f.read()

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def optimum_ok(ctx, bo, X, y):
    n = len(y)
    ctx.check('the best value is the minimum of all values', land(*[bo.fx_opt <= v for v in y], lor(*[bo.fx_opt == v for v in y])))
    xo = np.asarray(bo.x_opt).reshape(-1)
    first = []
    for i in range(n):
        here = land(*[y[i] < y[j] for j in range(i)], *[y[i] <= y[j] for j in range(i + 1, n)])
        first.append(limplies(here, land(*[ctx.eq(xo[k], X[i][k], 0) for k in range(len(X[i]))])))
    ctx.check('the best location is the first one that attained it', land(len(xo) == len(X[0]), *first))
    ctx.check('best-so-far curve: one entry per evaluation', np.shape(bo.Y_best) == (n,))
    for i in range(n):
        ctx.check('best-so-far curve: minimum of the first i values', land(*[bo.Y_best[i] <= v for v in y[:i + 1]], lor(*[bo.Y_best[i] == v for v in y[:i + 1]])))


def optimum_long(ctx, bo, X, y, free):
    """as optimum_ok; of the fixed values only the lowest so far matters"""
    fixed = [i for i in range(len(y)) if i not in free]

    def cands(n):
        f = [i for i in fixed if i < n]
        return sorted([i for i in free if i < n] + ([min(f, key=lambda i: (y[i], i))] if f else []))
    c = cands(len(y))
    ctx.check('the best value is the minimum of all values', land(*[bo.fx_opt <= y[i] for i in c], lor(*[bo.fx_opt == y[i] for i in c])))
    xo = np.asarray(bo.x_opt).reshape(-1)
    ctx.check('the best location is the first one that attained it', land(len(xo) == len(X[0]), *[limplies(
        land(*[y[i] < y[j] if j < i else y[i] <= y[j] for j in c if j != i]), land(*[ctx.eq(xo[k], X[i][k], 0) for k in range(len(X[i]))])) for i in c]))
    ctx.check('best-so-far curve: one entry per evaluation', np.shape(bo.Y_best) == (len(y),))
    curve = []
    for i in range(len(y)):
        c = cands(i + 1)
        curve += [land(*[bo.Y_best[i] <= y[j] for j in c], lor(*[bo.Y_best[i] == y[j] for j in c]))]
    ctx.check('best-so-far curve: minimum of the first i values', land(*curve))


def table_ok(ctx, text, rows):
    lines = [l for l in text.splitlines() if l.strip()]
    if len(lines) != len(rows) + 1:
        return False
    ok = []
    for l, r in zip(lines[1:], rows):
        v = ctx.numbers(l)
        if len(v) != len(r):
            return False
        ok += [ctx.eq(a, b, 1e-6) for a, b in zip(v, r)]
    return land(*ok)


@harness('C10', jobs=[dict(n0=n, iters=i, d=d, norm=w) for n, i, d, w in ((1, 0, 1, False), (2, 1, 1, False), (3, 2, 1, False), (2, 1, 2, False), (4, 0, 3, False), (2, 0, 1, True), (2, 1, 1, True))] +
         [dict(n0=2, iters=1, d=obj_dim(make_space(None, k, False)), norm=False, kinds=k) for k in (['b3,2', 'b2,1'], ['b2,2l'], ['d3', 'k2', 'c'])],
         thorough=[dict(n0=4, iters=2, d=2, norm=False), dict(n0=3, iters=0, d=1, norm=True)], replays=40)
def optimum(ctx, n0, iters, d, norm, kinds=None):
    """modular runs: optimum, curve, saved evaluations, model parameters and report"""
    space = make_space(ctx, kinds or ['c'] * d, sym_domain=False)
    X0 = [loop_point(ctx, space, 'x%d' % i) for i in range(n0)]
    y0 = list(ctx.reals('y0', (n0,), -K, K))
    tab = Table(ctx)
    m = StubModel(ctx)
    bo = make_bo(ctx, space, m, ctx.arr(X0), ctx.arr([[v] for v in y0]), SingleObjective(tab, objective_name='the problem'), 1, normalize_Y=norm)
    with Scratch() as sc:
        bo.run_optimization(max_iter=iters, eps=-1, report_file=sc.path('rep'), evaluations_file=sc.path('ev'), models_file=sc.path('mod'))
        X = X0 + [b[0] for b in bo.evaluator.batches]
        y = y0 + tab.values
        optimum_ok(ctx, bo, X, y)
        text = sc.read('ev')
        ctx.check('saved evaluations: header', text.splitlines()[0].split('\t') == ['Iteration', 'Y'] + ['var_%d' % (i + 1) for i in range(d)])
        ctx.check('saved evaluations: every evaluation, numbered, in order', table_ok(ctx, text, [[i + 1, y[i]] + list(X[i]) for i in range(len(y))]))
        bo.save_evaluations(sc.path('again'))
        ctx.check('saving on request writes the same evaluations', table_ok(ctx, sc.read('again'), [[i + 1, y[i]] + list(X[i]) for i in range(len(y))]))
        text = sc.read('mod')
        ctx.check('saved model parameters: labelled with their names', text.splitlines()[0].split('\t') == ['Iteration', 'p0', 'p1'])
        ctx.check('saved model parameters: one row per logged set, in order', table_ok(ctx, text, [[i + 1] + list(p[0]) for i, p in enumerate(m.params)]))
        rep = sc.read('rep').splitlines()
        val = [l for l in rep if l.startswith('Value at minimum')]
        loc = [l for l in rep if l.startswith('Best found minimum location')]
        ctx.check('report: value and location at the minimum are given once', len(val) == 1 and len(loc) == 1)
        v = ctx.numbers(val[0].split(':', 1)[1])
        ctx.check('report: best value', len(v) == 1 and ctx.eq(v[0], bo.fx_opt, 1e-4))
        lv = ctx.numbers(loc[0].split(':', 1)[1])
        ctx.check('report: best location', len(lv) == d and land(*[ctx.eq(lv[k], bo.x_opt[k], 1e-4) for k in range(d)]))
        cnt = [l for l in rep if 'samples collected' in l]
        ctx.check('report: number of evaluations', len(cnt) == 1 and ctx.numbers(cnt[0])[0] == len(y))


@harness('C10', jobs=[dict(n0=n, iters=i, batch=b, slots=s, d=d) for n, i, b, s, d in ((2, 70, 1, [0, 66], 1), (40, 0, 1, [], 2), (5, 30, 3, [2, 80], 2), (130, 5, 1, [3], 1))] + [dict(n0=262, iters=3, batch=1, slots=[1], d=1, at=2)], thorough=[dict(n0=2, iters=300, batch=1, slots=[0, 258], d=1)], replays=6)
def long_run(ctx, n0, iters, batch, slots, d, at=None):
    """long runs: all but a few values are fixed"""
    at = n0 // 2 if at is None else at
    space = make_space(ctx, ['c'] * d, sym_domain=False)
    X0 = [fixed_point(space, i) for i in range(n0)]
    y0 = [ctx.real('y0.%d' % i, -K, K) if i == at else filler(i + 31) for i in range(n0)]
    tab, m = LongTable(ctx, slots), StubModel(ctx)
    bo = make_bo(ctx, space, m, ctx.arr(X0), ctx.arr([[v] for v in y0]), SingleObjective(tab), batch, point=LongPoints(slots))
    with Scratch() as sc:
        bo.run_optimization(max_iter=iters, eps=-1, report_file=sc.path('rep'), evaluations_file=sc.path('ev'), models_file=sc.path('mod'))
        X, y = X0 + [r for b in bo.evaluator.batches for r in b], y0 + tab.values
        optimum_long(ctx, bo, X, y, [i for i in range(len(y)) if i == at or i - n0 in slots])
        ctx.check('saved evaluations: every evaluation, numbered, in order', table_ok(ctx, sc.read('ev'), [[i + 1, y[i]] + list(X[i]) for i in range(len(y))]))
        ctx.check('saved model parameters: one row per logged set, in order', table_ok(ctx, sc.read('mod'), [[i + 1] + list(p[0]) for i, p in enumerate(m.params)]))
        rep = sc.read('rep').splitlines()
        v = ctx.numbers([l for l in rep if l.startswith('Value at minimum')][0].split(':', 1)[1])
        ctx.check('report: best value', len(v) == 1 and ctx.eq(v[0], bo.fx_opt, 1e-4))


@harness('C10', jobs=[dict(n0=n, iters=i, maximize=m, batch=b) for n, i, b in ((2, 1, 1), (3, 0, 1), (1, 1, 2)) for m in (True, False)], replays=30)
def maximize(ctx, n0, iters, maximize, batch):
    """BayesianOptimization: with maximize the recorded values are those of -f, and the same optimum and files follow"""
    space = make_space(ctx, ['c', 'd2'], sym_domain=False)
    env.Rand(ctx)
    tab = Table(ctx)
    m = StubModel(ctx)
    ds = Design_space(space)
    acq = StubAcquisition(m, ds, AcquisitionOptimizer(ds))
    bo = BayesianOptimization(tab, space, model=m, acquisition=acq, initial_design_numdata=n0, batch_size=batch, maximize=maximize, normalize_Y=False)
    bo.evaluator = StubEvaluator(ctx, space, acq, batch)
    with Scratch() as sc:
        bo.run_optimization(max_iter=iters, eps=-1, report_file=sc.path('rep'), evaluations_file=sc.path('ev'))
        sg = -1 if maximize else 1
        y = [sg * v for v in tab.values]
        X = [list(r) for r in bo.X]
        n = n0 + iters * batch
        ctx.check('recorded values are those of the minimized function', np.shape(bo.Y) == (n, 1) and land(*[ctx.eq(bo.Y[i, 0], y[i], 0) for i in range(n)]))
        optimum_ok(ctx, bo, X, y)
        ctx.check('saved evaluations: every evaluation, numbered, in order', table_ok(ctx, sc.read('ev'), [[i + 1, y[i]] + X[i] for i in range(n)]))
        rep = sc.read('rep').splitlines()
        v = ctx.numbers([l for l in rep if l.startswith('Value at minimum')][0].split(':', 1)[1])
        ctx.check('report: best value', len(v) == 1 and ctx.eq(v[0], bo.fx_opt, 1e-4))


@harness('C10')
def no_models(ctx):
    """saving models before any iteration is rejected"""
    space = make_space(ctx, ['c'], sym_domain=False)
    bo = make_bo(ctx, space, StubModel(ctx), ctx.reals('x', (1, 1), 0, 1), ctx.reals('y', (1, 1)), SingleObjective(Table(ctx)), 1)
    with Scratch() as sc:
        ctx.check('saving model parameters before any iteration is rejected', ctx.raises(ValueError, bo.save_models, sc.path('m')) is not None)
