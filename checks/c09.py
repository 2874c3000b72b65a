"""C09: stopping rules."""
from checks.loop import *
import time

BOUNDS = ['1-3 initial rows, at most 3 iterations of batches of 1 or 2, locations in 1 or 2 dimensions; all tolerances in [-1,10], time limits in [0,1000], evaluation durations >= 0', 'long runs (up to 130 iterations) along fixed locations with one location, the tolerance or the time limit arbitrary', 'runs continued by a second call (clock and tolerance restart)']
ASSUMPTIONS = ['time advances only while the objective runs, by an arbitrary amount (clock stub); model updates and suggestions are instantaneous']


class Steps(object):
    """clock which advances in the objective only"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.start = ctx.real('T0', 0, 1e6)
        self.now = self.start
        self.dts = []
        ctx.patch(time, 'time', lambda: self.now)
        for nm in ('perf_counter', 'monotonic'):
            ctx.patch(time, nm, lambda: self.now)

    def advance(self):
        dt = self.ctx.real('dt%d' % len(self.dts), 0, 1000)
        self.dts.append(dt)
        self.now = self.now + dt


class Timed(Table):
    def __call__(self, x):
        if self.clock is not None:
            self.clock.advance()
        return super().__call__(x)


@harness('C09', jobs=[dict(d=d, n0=n, batch=b, iters=i, time_limit=t, dist=e) for d, n, b, i, t, e in (
    (1, 1, 1, 0, 'sym', 'sym'), (1, 2, 1, 0, 'inf', 'sym'), (1, 1, 1, 1, 'sym', 'sym'), (1, 2, 1, 2, 'sym', 'sym'), (2, 2, 1, 1, 'inf', 'sym'), (1, 2, 2, 2, 'sym', 'off'),
    (1, 1, 1, 2, 'none', 'sym'), (1, 3, 1, 1, 'sym', 'sym'), (1, 1, 1, 'none', 'sym', 'sym'), (1, 2, 1, 'none', 'sym', 'off'), (1, 1, 2, 1, 'inf', 'sym'), (1, 2, 1, 'none', 'none', 'sym'))],
    thorough=[dict(d=2, n0=1, batch=1, iters=3, time_limit='sym', dist='sym'), dict(d=1, n0=2, batch=2, iters=3, time_limit='sym', dist='sym'), dict(d=1, n0=2, batch=1, iters=4, time_limit='sym', dist='sym')], replays=30)
def stopping(ctx, d, n0, batch, iters, time_limit, dist):
    """number of iterations = the first boundary at which one of the rules holds"""
    space = make_space(ctx, ['c'] * d, sym_domain=False)
    clock = Steps(ctx)
    tab = Timed(ctx)
    tab.clock = clock
    X0 = [loop_point(ctx, space, 'x%d' % i) for i in range(n0)]
    Y0 = ctx.reals('y0', (n0, 1), -K, K)
    limit = {'sym': lambda: ctx.real('max_time', 0, 1000), 'inf': lambda: np.inf, 'none': lambda: None}[time_limit]()
    eps = ctx.real('eps', -1, 10) if dist == 'sym' else -1.0
    bo = make_bo(ctx, space, StubModel(ctx), ctx.arr(X0), Y0, SingleObjective(tab), batch)
    max_iter = None if iters == 'none' else iters
    cap = 3
    if max_iter is None and time_limit == 'sym':
        # unbounded number of iterations: let the clock pass the limit after `cap` of them
        adv = clock.advance

        def advance():
            if len(clock.dts) == cap * batch - 1:
                ctx.assume(clock.now - clock.start + ctx.real('dt_last', 0, 5000) >= limit)
                clock.dts.append(1)
                clock.now = clock.start + limit + 1
            else:
                adv()
        clock.advance = advance
    marks = []
    ev = bo.evaluator
    orig = ev.compute_batch

    def compute_batch(**kw):
        marks.append(clock.now)
        return orig(**kw)
    ev.compute_batch = compute_batch
    kw = {}
    if time_limit != 'inf':
        kw['max_time'] = limit
    bo.run_optimization(max_iter=max_iter, eps=eps, **kw)
    done = len(ev.batches)
    lim = np.inf if limit is None else limit
    if max_iter is None and limit is None:
        budget = 0
    elif max_iter is None:
        budget = np.inf
    else:
        budget = max_iter
    times = marks + [clock.now]
    for k in range(done + 1):
        allr = [list(r) for r in X0] + [r for b in ev.batches[:k] for r in b]
        elapsed = times[k] - clock.start
        out_of_time = elapsed >= lim if lim is not np.inf else False
        if len(allr) > 1:
            d2 = sum((allr[-1][j] - allr[-2][j]) * (allr[-1][j] - allr[-2][j]) for j in range(d))
            if d == 1:
                diff = allr[-1][0] - allr[-2][0]
                close = land(diff <= eps, -diff <= eps)
            else:
                close = land(eps >= 0, d2 <= eps * eps)
        else:
            close = False
        stop = lor(out_of_time, close, k >= budget)
        if k < done:
            ctx.check('an iteration is performed only while no stopping rule holds', lnot(stop))
        else:
            ctx.check('the run ends only when a stopping rule holds', stop)
    ctx.check('the number of acquisitions is the number of iterations', bo.num_acquisitions == done)
    ctx.check('at most the allowed number of iterations', done <= budget)
    ctx.check('every suggested location is evaluated, nothing else', len(tab.calls) == done * batch)
    ctx.check('results are available after the run', np.shape(bo.Y_best) == (n0 + done * batch,))


class TimedLong(LongTable):
    def __call__(self, x):
        self.clock.advance()
        return super().__call__(x)


@harness('C09', jobs=[dict(d=1, iters=40, eps='sym', slots=[], limit=False), dict(d=1, iters=45, eps=-1.0, slots=[], limit=True), dict(d=1, iters=130, eps=2.0 ** -10, slots=[70], limit=False), dict(d=2, iters=66, eps=2.0 ** -10, slots=[62], limit=False),
                      dict(d=1, iters=None, eps=-1.0, slots=[], limit=True)], thorough=[dict(d=1, iters=400, eps=2.0 ** -10, slots=[255], limit=False)], replays=10)
def long_run(ctx, d, iters, eps, slots, limit):
    """long runs along fixed locations: stops at the first boundary at which a rule holds"""
    space = make_space(ctx, ['c'] * d, sym_domain=False)
    clock = Steps(ctx)
    tab = TimedLong(ctx, slots)
    tab.clock = clock

    def advance():
        clock.now = clock.now + 2.0
    clock.advance = advance
    # never closer than 0.01 to the one before
    X0 = [fixed_point(space, 0)]
    e = ctx.real('eps', -1, 10) if eps == 'sym' else eps
    pts = LongPoints(slots)
    bo = make_bo(ctx, space, StubModel(ctx), ctx.arr(X0), ctx.arr([[0.0]]), SingleObjective(tab), 1, point=pts)
    kw = dict(max_time=ctx.real('max_time', 0, 100)) if limit else {}
    bo.run_optimization(max_iter=iters, eps=e, **kw)
    rows = X0 + [b[0] for b in bo.evaluator.batches]
    done = len(rows) - 1
    for k in range(done + 1):
        stop = [iters is not None and k >= iters]
        if limit:
            stop.append(2.0 * k >= kw['max_time'])
        if k:
            q = sum((rows[k][j] - rows[k - 1][j]) * (rows[k][j] - rows[k - 1][j]) for j in range(d))
            stop.append(land(e >= 0, q <= e * e))
        stop = lor(*stop)
        if k < done:
            ctx.check('an iteration is performed only while no stopping rule holds', lnot(stop))
        else:
            ctx.check('the run ends only when a stopping rule holds', stop)
    ctx.check('the number of acquisitions is the number of iterations', bo.num_acquisitions == done)


@harness('C09', jobs=[dict(n0=n, given=g) for n in (1, 2) for g in (True, False)])
def zero_budget(ctx, n0, given):
    """without a budget only what initialisation requires is evaluated"""
    space = make_space(ctx, ['c'], sym_domain=False)
    tab = Table(ctx)
    X0 = [loop_point(ctx, space, 'x%d' % i) for i in range(n0)]
    Y0 = ctx.reals('y0', (n0, 1), -K, K) if given else None
    bo = make_bo(ctx, space, StubModel(ctx), ctx.arr(X0), Y0, SingleObjective(tab), 1)
    bo.run_optimization()
    ctx.check('zero budget: only initial evaluations', len(tab.calls) == (0 if given else n0) and len(bo.evaluator.batches) == 0 and np.shape(bo.X) == (n0, 1))
    ctx.check('zero budget: no acquisitions', bo.num_acquisitions == 0)


@harness('C09', jobs=[dict(fail=k) for k in (0, 1, 2)])
def numerical_failure(ctx, fail):
    """a model update that fails numerically ends the run with the results so far"""
    space = make_space(ctx, ['c'], sym_domain=False)
    tab = Table(ctx)

    class Failing(StubModel):
        def updateModel(self, *a):
            if len(self.updates) == fail:
                raise np.linalg.LinAlgError('not positive definite')
            super().updateModel(*a)
    X0 = [loop_point(ctx, space, 'x%d' % i) for i in range(2)]
    bo = make_bo(ctx, space, Failing(ctx), ctx.arr(X0), ctx.reals('y0', (2, 1), -K, K), SingleObjective(tab), 1)
    bo.run_optimization(max_iter=3, eps=-1)
    ctx.check('numerical failure: the run stops there', len(bo.evaluator.batches) == fail and bo.num_acquisitions == fail)
    ctx.check('numerical failure: the results cover all evaluations', np.shape(bo.Y_best) == (2 + fail,) and np.shape(bo.X) == (2 + fail, 1))


@harness('C09', jobs=[dict(d=d, n=n) for d in (1, 2, 3) for n in (1, 2, 3)])
def repeated_runs(ctx, d, n):
    """the counters restart with every run"""
    space = make_space(ctx, ['c'] * d, sym_domain=False)
    clock = Steps(ctx)
    tab = Timed(ctx)
    tab.clock = clock
    X0 = [loop_point(ctx, space, 'x%d' % i) for i in range(n)]
    bo = make_bo(ctx, space, StubModel(ctx), ctx.arr(X0), ctx.reals('y0', (n, 1), -K, K), SingleObjective(tab), 1)
    bo.run_optimization(max_iter=1, eps=-1)
    clock.advance()
    limit = ctx.real('max_time', 0, 1000)
    n1 = len(bo.evaluator.batches)
    bo.run_optimization(max_iter=1, max_time=limit, eps=-1)
    ctx.check('a second run has its own budget and time', ctx.eq(len(bo.evaluator.batches) - n1, ite(limit > 0, 1, 0)))
    ctx.check('a second run counts its own acquisitions', ctx.eq(bo.num_acquisitions, ite(limit > 0, 1, 0)))


@harness('C09', jobs=[dict(first=f, second=k, gap=g) for f in (0, 1, 2) for k in (2, 3) for g in (True, False)])
def continued_run(ctx, first, second, gap):
    """the time limit of a continued run counts from its own start"""
    space = make_space(ctx, ['c'], sym_domain=False)
    clock = Steps(ctx)
    tab = Timed(ctx)
    tab.clock = clock
    bo = make_bo(ctx, space, StubModel(ctx), ctx.arr([loop_point(ctx, space, 'x0')]), ctx.reals('y0', (1, 1), -K, K), SingleObjective(tab), 1)
    bo.run_optimization(max_iter=first, eps=-1)
    if gap:
        clock.advance()
    start = clock.now
    limit = ctx.real('max_time', 0, 1000)
    n0, k0 = len(bo.evaluator.batches), len(clock.dts)
    bo.run_optimization(max_iter=second, max_time=limit, eps=-1)
    done = len(bo.evaluator.batches) - n0
    t = 0.0
    for k in range(done + 1):
        stop = lor(k >= second, t >= limit)
        ctx.check('continued run: an iteration is performed only while no stopping rule holds' if k < done else 'continued run: ends only when a stopping rule holds', lnot(stop) if k < done else stop)
        if k < done:
            t = t + clock.dts[k0 + k]
    ctx.check('continued run: counts its own acquisitions', bo.num_acquisitions == done)
    ctx.check('continued run: reports its own time', ctx.eq(bo.cum_time, clock.now - start))
