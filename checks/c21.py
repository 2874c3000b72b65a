"""C21: output engine of experiments."""
from checks.common import *
import os, io, contextlib
from checks.c10 import Scratch
from GPyOpt.interface import OutputEng

BOUNDS = ['up to 4 appended iterations (thorough: 5) of 1-2 evaluations of 1-2 variables; intervals up to 4, symbolic; final append at any position', 'long logs (up to 144 evaluations in 6-90 appends): two locations and values arbitrary, the others fixed']
ASSUMPTIONS = ['real arithmetic; the text of a floating-point number stands for the number']


class Run(object):
    """the optimization handed to the savers: writes a numbered report"""

    def __init__(self):
        self.files = []

    def save_report(self, report_file=None):
        self.files.append(report_file)


def config(sc, out, name='exp'):
    return {'prjpath': sc.d, 'experiment-name': name, 'output': out}


def data(ctx, i, m, d):
    X = ctx.reals('x%d' % i, (m, d), -K, K)
    Y = ctx.reals('y%d' % i, (m, 1), -K, K)
    return X, Y


def due(ctx, clock, interval, final):
    """does a saver with this interval save now; new clock"""
    if final:
        return interval == -1, clock
    if ctx.implied(interval == -1):
        return False, clock
    clock += 1
    return clock % interval == 0, clock


@harness('C21', jobs=[dict(n=n) for n in (1, 2, 3)] + [dict(n=4, both=False)], thorough=[dict(n=4), dict(n=5, both=False)])
def cadence(ctx, n, both=True):
    """every saver saves at its interval, or at the end"""
    a, b = ctx.int('a', -1, 4), ctx.int('b', -1, 4) if both else -1
    ctx.assume(land(a != 0, b != 0))
    fin = ctx.choice('final', list(range(n)) + [None])
    times = [ctx.real('t%d' % i, 0, K) for i in range(n)]
    its = [ctx.int('i%d' % i, 0, 1000) for i in range(n)]
    with Scratch() as sc:
        eng = OutputEng(config(sc, {'verbosity': False, 'log': {'type': 'logger', 'content': 'ybest', 'format': 'csv', 'filename': 'log.csv', 'interval': a}, 'rep': {'type': 'report', 'filename': 'rep.txt', 'interval': b}}))
        run = Run()
        rows, reports = [], 0
        ca = cb = 0
        for i in range(n):
            X, Y = data(ctx, i, 1, 1)
            before = (snapshot(X), snapshot(Y))
            eng.append_iter(its[i], times[i], X, Y, run, final=True) if i == fin else eng.append_iter(its[i], times[i], X, Y, run)
            ctx.check('data left unchanged', land(unchanged(X, before[0]), unchanged(Y, before[1])))
            s, ca = due(ctx, ca, a, i == fin)
            if s:
                rows.append(i)
            s, cb = due(ctx, cb, b, i == fin)
            reports += 1 if s else 0
            ctx.check('the report is written when due', len(run.files) == reports)
        eng.close()
        ctx.check('the report goes to the configured file', all(os.path.realpath(f) == os.path.realpath(sc.path('rep.txt')) for f in run.files))
        lines = sc.read('log.csv').splitlines()
        ctx.check('the log has a row for every save', len(lines) == (len(rows) + 1 if rows else 0))
        if len(lines) != len(rows) + 1:
            return
        for line, i in zip(lines[1:], rows):
            v = ctx.numbers(line.replace(',', ' '))
            ctx.check('iteration and time of the save', len(v) == 4 and land(ctx.eq(v[0], its[i]), ctx.eq(v[1], times[i])))


@harness('C21', jobs=[dict(sizes=s, d=d) for s, d in (([1, 1], 1), ([2], 2), ([2, 1], 1), ([1, 1, 1], 2), ([1, 2], 2))], thorough=[dict(sizes=[1, 1, 1, 1], d=1), dict(sizes=[2, 2], d=3), dict(sizes=[3, 1], d=1)])
def log_contents(ctx, sizes, d):
    """the log: header, then the best evaluation of all collected so far"""
    every = ctx.choice('every', [1, -1] if len(sizes) < 3 else [1])
    with Scratch() as sc:
        eng = OutputEng(config(sc, {'Ybest': {'type': 'logger', 'content': 'Ybest', 'format': 'CSV', 'filename': 'log.csv', 'interval': every}}))
        allX, allY, expected = [], [], []
        for i, m in enumerate(sizes):
            X, Y = data(ctx, i, m, d)
            last = every == -1 and i == len(sizes) - 1
            eng.append_iter(i, ctx.real('t%d' % i, 0, K), X, Y, None, final=last)
            allX += [list(r) for r in X]
            allY += [r[0] for r in Y]
            if every == 1 or last:
                expected.append((i, list(allX), list(allY)))
        eng.close()
        lines = sc.read('log.csv').splitlines()
        ctx.check('one header and one row per save', len(lines) == len(expected) + 1)
        ctx.check('header', lines[0].split(',') == ['iteration', 'time(sec)', 'objective'] + ['input[%d]' % (k + 1) for k in range(d)])
        for line, (i, xs, ys) in zip(lines[1:], expected):
            v = ctx.numbers(line.replace(',', ' '))
            ok = len(v) == 3 + d
            ctx.check('a row has iteration, time, value and location', ok)
            if ok:
                ctx.check('iteration', ctx.eq(v[0], i))
                ctx.check('lowest value of all evaluations collected so far', land(*[v[2] <= y + 1e-9 for y in ys]))
                ctx.check('value and location belong to one evaluation', lor(*[land(ctx.eq(v[2], y), *[ctx.eq(v[3 + k], x[k]) for k in range(d)]) for x, y in zip(xs, ys)]))


@harness('C21', jobs=[dict(n=n, m=m, interval=k, slots=s) for n, m, k, s in ((80, 1, 1, [0, 70]), (40, 3, 7, [2, 39]), (6, 24, 2, [0, 5]), (90, 1, -1, [3, 60]))], thorough=[dict(n=300, m=1, interval=3, slots=[0, 150, 299])], replays=6)
def long_log(ctx, n, m, interval, slots):
    """long experiments: the best evaluation of all collected so far, with all but a few iterations fixed"""
    with Scratch() as sc:
        eng = OutputEng(config(sc, {'Ybest': {'type': 'logger', 'content': 'Ybest', 'format': 'csv', 'filename': 'log.csv', 'interval': interval}, 'rep': {'type': 'report', 'filename': 'r', 'interval': interval}}))
        run = Run()
        xs, ys, saves = [], [], []
        for i in range(n):
            rows = [(ctx.real('x%d' % i, -K, K), ctx.real('y%d' % i, -K, K)) if i in slots and j == 0 else (float(i * m + j), float((37 * (i * m + j) + 11) % 1009) / 8.0 - 60.0) for j in range(m)]
            final = interval == -1 and i == n - 1
            eng.append_iter(i, float(i), ctx.arr([[r[0]] for r in rows]), ctx.arr([[r[1]] for r in rows]), run, final=final)
            xs += [r[0] for r in rows]
            ys += [r[1] for r in rows]
            if final or (interval > 0 and (i + 1) % interval == 0):
                saves.append((i, len(ys)))
        eng.close()
        lines = sc.read('log.csv').splitlines()
        ctx.check('one header and one row per save', len(lines) == len(saves) + 1)
        ctx.check('the report is written when due', len(run.files) == len(saves))
        for line, (i, k) in zip(lines[1:], saves):
            v = ctx.numbers(line.replace(',', ' '))
            ok = len(v) == 4
            ctx.check('a row has iteration, time, value and location', ok)
            if ok:
                ctx.check('iteration and time of the save', v[0] == i and v[1] == i)
                ctx.check('lowest value of all evaluations collected so far', land(*[v[2] <= y + 1e-9 for y in ys[:k]]))
                ctx.check('value and location belong to one evaluation', lor(*[land(ctx.eq(v[2], y), ctx.eq(v[3], x)) for x, y in zip(xs[:k], ys[:k])]))


@harness('C21')
def collected(ctx):
    """everything appended is collected and handed to the savers"""
    got = []
    with Scratch() as sc:
        eng = OutputEng(config(sc, {}))
        n = ctx.choice('n', [1, 2, 3])
        datas = []
        for i in range(n):
            X, Y = data(ctx, i, 1 + i % 2, 2)
            t = ctx.real('t%d' % i, 0, K)
            datas.append((i, t, X, Y))
            eng.append_iter(i, t, X, Y, None)
        ctx.check('iterations, times and sizes', list(eng.iters) == [d[0] for d in datas] and len(eng.times) == n and land(*[ctx.eq(a, d[1]) for a, d in zip(eng.times, datas)]) and list(eng.offsets) == [len(d[2]) for d in datas])
        ctx.check('points and values', len(eng.Xs) == n and len(eng.Ys) == n and land(*[land(ctx.eqs(a, d[2]), ctx.eqs(b, d[3])) for a, b, d in zip(eng.Xs, eng.Ys, datas)]))
        eng.close()


@harness('C21')
def configuration(ctx):
    """names of files; unsupported choices are rejected"""
    name = ctx.choice('name', ['exp', 'my-experiment'])
    with Scratch() as sc:
        run = Run()
        x = ctx.reals('x', (1, 1), -K, K)
        eng = OutputEng(config(sc, {'verbosity': True, 'best': {'type': 'logger', 'content': 'ybest', 'format': 'csv', 'filename': None, 'interval': 1}, 'final': {'type': 'report', 'filename': None, 'interval': 1}}, name))
        eng.append_iter(1, 0.5, x, x, run)
        eng.close()
        made = os.listdir(sc.d)
        ctx.check('the log has a default name', len(made) == 1 and made[0].startswith('best_%s_' % name) and made[0].endswith('.csv'))
        ctx.check('the log is complete when closed', len(sc.read(made[0]).splitlines()) == 2)
        rep = run.files[0]
        ctx.check('the report has a default name', len(run.files) == 1 and os.path.realpath(os.path.dirname(rep)) == os.path.realpath(sc.d) and os.path.basename(rep).startswith('final_%s_' % name) and rep.endswith('.txt'))
        k = ctx.int('interval', -5, 5)
        ok = lor(k > 0, k == -1)
        for spec in ({'type': 'report', 'filename': 'r', 'interval': k}, {'type': 'logger', 'content': 'ybest', 'format': 'csv', 'filename': 'l', 'interval': k}):
            e = ctx.raises(AssertionError, OutputEng, config(sc, {'s': spec}))
            ctx.check('intervals are positive or -1', (e is None) == bool(ok) if not ctx.sym else ctx.implied(ok if e is None else lnot(ok)))
        for spec in ({'type': 'logger', 'content': 'ybest', 'format': 'json', 'filename': 'f', 'interval': 1}, {'type': 'logger', 'content': 'all', 'format': 'csv', 'filename': 'f', 'interval': 1}, {'type': 'database', 'filename': 'f', 'interval': 1}):
            ctx.check('unsupported savers are rejected', ctx.raises(Exception, OutputEng, config(sc, {'s': spec})) is not None)
        with contextlib.redirect_stdout(io.StringIO()):
            eng = OutputEng(config(sc, {'s': {'type': 'logger', 'content': 'ybest', 'format': 'csv', 'filename': os.path.join('no', 'such', 'folder', 'f'), 'interval': 1}}))
        eng.append_iter(1, 0.5, x, x, run)
        eng.close()
        ctx.check('a log which cannot be opened does not stop the experiment', sorted(os.listdir(sc.d)) == sorted(made + [f for f in ('l', 'f') if os.path.exists(sc.path(f))]))
