"""C19: parallel evaluation.  Processes and pipes are modelled (private memory, blocking receive, bounded buffers, end of file); the
order in which processes run, which of them fails and when are symbolic choices."""
from checks.loop import *
from checks.acq import key
from symx import env
from GPyOpt.methods import BayesianOptimization
import multiprocessing

BOUNDS = ['batches of 1-5 locations of 1-2 coordinates, 1-4 processes (selected: up to 130 locations, 33 processes), one or two failing workers, three orders of execution, small and large results']
ASSUMPTIONS = ['the objective is a deterministic function of the location', 'a process runs to its end once scheduled; a send larger than the pipe buffer ends when the other end is received; receive at a pipe whose sending ends are all closed raises EOFError, if one is open it blocks']


class Blocked(BaseException):
    """a wait which cannot end"""


class World(object):
    def __init__(self, ctx, order='start', large=False, fail=(), when='before'):
        self.ctx, self.order, self.large, self.fail, self.when = ctx, order, large, set(fail), when
        self.procs, self.pipes, self.current = [], [], None
        self.blocked = False
        self.child_calls = []
        w = self

        class Process(object):
            def __init__(s, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
                s.target, s.args, s.kwargs = target, args, dict(kwargs)
                s.started = s.ran = s.stuck = False
                s.exitcode = None
                s.i = len(w.procs)
                w.procs.append(s)

            def start(s):
                assert not s.started
                s.started = True
                s.ends = [e for p in w.pipes for e in p if not e.closed]
                if w.order == 'start':
                    s.run_now()

            def run_now(s):
                if s.ran:
                    return
                s.ran = True
                prev, w.current = w.current, s
                try:
                    if s.i in w.fail and w.when == 'before':
                        raise RuntimeError('worker failed')
                    s.target(*s.args, **s.kwargs)
                    s.exitcode = 0
                except Blocked:
                    s.stuck = True
                except Exception:
                    s.exitcode = 1
                finally:
                    w.current = prev

            def join(s, timeout=None):
                w.schedule()
                if s.stuck and timeout is None:
                    w.stop()

            def is_alive(s):
                w.schedule()
                return s.stuck

            def terminate(s):
                s.stuck = False

            kill = terminate
            close = terminate

        class End(object):
            def __init__(s):
                s.queue, s.closed, s.other = [], False, None

            def send(s, v):
                if s.closed if w.current is None else s not in w.current.ends:
                    raise OSError('handle is closed')
                if w.current is not None and w.current.i in w.fail and w.when == 'sending':
                    raise RuntimeError('worker failed')
                s.other.queue.append((v, w.current))
                if w.large and w.current is not None:
                    raise Blocked()

            def recv(s):
                if s.closed:
                    raise OSError('handle is closed')
                w.schedule()
                if not s.queue:
                    if not s.other.closed or any(q.stuck and s.other in q.ends for q in w.procs):
                        w.stop()
                    raise EOFError()
                v, p = s.queue.pop(0)
                if p is not None:
                    p.stuck = False
                return v

            def poll(s, timeout=0):
                w.schedule()
                return bool(s.queue) or s.other.closed and not any(q.stuck and s.other in q.ends for q in w.procs)

            def close(s):
                # in a child: the copy of the child
                if w.current is None:
                    s.closed = True

        def Pipe(duplex=True):
            a, b = End(), End()
            a.other, b.other = b, a
            w.pipes.append((a, b))
            return a, b
        ctx.patch(multiprocessing, 'Process', Process)
        ctx.patch(multiprocessing, 'Pipe', Pipe)

    def schedule(self):
        todo = [p for p in self.procs if p.started and not p.ran]
        if self.order == 'reversed':
            todo = todo[::-1]
        for p in todo:
            p.run_now()

    def stop(self):
        self.blocked = True
        raise Blocked()


class Func(object):
    """deterministic objective: one value per location"""

    def __init__(self, ctx, w=None, shape='matrix'):
        self.ctx, self.w, self.shape = ctx, w, shape
        self.table, self.calls = {}, []
        self.failing = set()

    def value(self, r):
        k = key(r)
        if k not in self.table:
            self.table[k] = self.ctx.real('f%d' % len(self.table), -K, K)
        return self.table[k]

    def __call__(self, x):
        assert np.ndim(x) == 2
        w = self.w
        child = w is not None and w.current is not None
        self.calls.append((child, np.array(x, dtype=object)))
        if child and w.current.i in w.fail and w.when == 'evaluating':
            raise RuntimeError('worker failed')
        v = [self.value(r) for r in x]
        if self.shape == 'matrix':
            return self.ctx.arr([[t] for t in v])
        if self.shape == 'vector':
            return self.ctx.arr(v)
        return v[0]


def values_right(ctx, label, f, X, y):
    n = len(X)
    ok = np.shape(y) == (n, 1)
    ctx.check(label + ': one value per location', ok)
    if ok:
        ctx.check(label + ': values of the locations, in order', land(*[ctx.eq(y[i, 0], f.value(X[i]), 0) for i in range(n)]))


def once(ctx, label, calls, X):
    ok = all(c.shape == (1, X.shape[1]) for c in calls) and len(calls) == len(X)
    ctx.check(label + ': one call per location', ok)
    if ok:
        keys = sorted(key(c[0]) for c in calls)
        ctx.check(label + ': each location evaluated exactly once', keys == sorted(key(r) for r in X))


ORDERS = ('start', 'lazy', 'reversed')


@harness('C19', jobs=[dict(n=n, d=1 + n % 2, procs=p, order=o) for n in (1, 2, 3, 5) for p in (1, 2, 3, 4) for o in ORDERS if p > 1 or o == 'start'] +
         [dict(n=n, d=1, procs=p, order='lazy') for n, p in ((24, 4), (70, 8), (3, 12), (40, 33), (130, 1))],
         thorough=[dict(n=n, d=2, procs=p, order=o) for n in (7, 9) for p in (2, 3, 5, 8) for o in ORDERS])
def evaluate(ctx, n, d, procs, order):
    """parallel against sequential evaluation"""
    clock = env.Clock(ctx, [])
    X = ctx.reals('x', (n, d), -K, K)
    seq = Func(ctx)
    y0, c0 = SingleObjective(seq, 1).evaluate(X.copy())
    values_right(ctx, 'sequential', seq, X, y0)
    once(ctx, 'sequential', [c[1] for c in seq.calls], X)
    ctx.check('sequential: one duration per location, not negative', land(np.size(c0) == n, *[v >= 0 for v in np.asarray(c0, dtype=object).reshape(-1)]))
    w = World(ctx, order, ctx.choice('large', [False, True]))
    par = Func(ctx, w, ctx.choice('shape', ['matrix', 'vector', 'scalar']))
    par.table = seq.table
    obj = SingleObjective(par, procs)
    for rnd in range(2):
        del par.calls[:]
        y, c = obj.evaluate(X.copy())
        ctx.check('parallel: never waits for something which cannot happen', not w.blocked)
        values_right(ctx, 'parallel', par, X, y)
        once(ctx, 'parallel', [q[1] for q in par.calls], X)
        ctx.check('parallel: one cost per location, not negative', land(np.size(c) == n, *[v >= 0 for v in np.asarray(c, dtype=object).reshape(-1)]))
        ctx.check('parallel: at most the requested number of processes', len(w.procs) <= procs * (rnd + 1))
        ctx.check('parallel: evaluation happens in the workers', procs == 1 or all(q[0] for q in par.calls))


@harness('C19', jobs=[dict(n=n, procs=p, fail=f, when=t) for n, p, f in ((1, 2, [0]), (3, 2, [1]), (3, 2, [0]), (4, 3, [0, 2]), (2, 3, [2])) for t in ('before', 'evaluating', 'sending')] + [dict(n=40, procs=6, fail=[5], when='evaluating')],
         thorough=[dict(n=7, procs=4, fail=f, when=t) for f in ([0], [1], [3], [0, 1, 2, 3]) for t in ('before', 'evaluating', 'sending')])
def failures(ctx, n, procs, fail, when):
    """a failing worker: the batch is evaluated sequentially"""
    env.Clock(ctx, [])
    X = ctx.reals('x', (n, 1), -K, K)
    w = World(ctx, ctx.choice('order', ORDERS), ctx.choice('large', [False, True]), fail, when)
    f = Func(ctx, w)
    obj = SingleObjective(f, procs)
    for rnd in range(2):
        del f.calls[:]
        y, c = obj.evaluate(X.copy())
        ctx.check('failure: never waits for something which cannot happen', not w.blocked)
        values_right(ctx, 'failure', f, X, y)
        ctx.check('failure: one cost per location', np.size(c) == n)
        here = [q[1] for q in f.calls if not q[0]]
        if rnd == 0 and not (when == 'evaluating' and not any(q[0] for q in f.calls)):
            if here:
                once(ctx, 'fallback', here, X)
        w.fail = set(i + len(w.procs) for i in fail)


@harness('C19', jobs=[dict(cores=c, batch=b) for c, b in ((1, 2), (2, 1), (3, 2))])
def configured(ctx, cores, batch):
    """the number of processes requested by the user is used, in the initial design as in the run"""
    env.Rand(ctx)
    w = World(ctx)
    f = Func(ctx, w)
    space = make_space(ctx, ['c'], sym_domain=False)
    events = []
    m = StubModel(ctx, events)
    ds = Design_space(space)
    acq = StubAcquisition(m, ds, AcquisitionOptimizer(ds))
    bo = BayesianOptimization(f, space, model=m, acquisition=acq, initial_design_numdata=2, num_cores=cores, batch_size=batch, evaluator_type='random', normalize_Y=False)
    bo.evaluator = StubEvaluator(ctx, space, acq, batch, events)
    ctx.check('initial design: as many processes as cores', len(w.procs) == (0 if cores == 1 else cores))
    n = len(w.procs)
    bo.run_optimization(max_iter=1, eps=-1)
    ctx.check('run: as many processes as cores', len(w.procs) == n + (0 if cores == 1 else cores))
    X = np.asarray(bo.X)
    ctx.check('all evaluations recorded', np.shape(X) == (2 + batch, 1) and np.shape(bo.Y) == (2 + batch, 1))
    ctx.check('recorded values belong to their locations', land(*[ctx.eq(bo.Y[i, 0], f.value(X[i]), 0) for i in range(2 + batch)]))
    once(ctx, 'run', [c[1] for c in f.calls], X)
