"""C22: benchmark objective functions."""
from checks.common import *
from symx import env
from GPyOpt.objective_examples import experiments1d as e1, experiments2d as e2, experimentsNd as en

BOUNDS = ['1-3 points per call; 1-3 dimensions for the functions of any dimension; coordinates anywhere in the documented domain; noise deviation in [0.01,5], coefficients in [0.01,10]']
ASSUMPTIONS = ['real arithmetic; sine, cosine, exponential and square root by their bounds, monotonicity, Lipschitz constants and identities; normal random numbers arbitrary',
               'lower bounds of McCormick, egg-holder, alpine2 and Forrester over the whole domain are outside the claim (they need more of the sine than these bounds); their documented minimum is only evaluated at the documented point']
PI = np.pi


def prod(vs):
    r = vs[0]
    for v in vs[1:]:
        r = r * v
    return r


def goldstein(x, y):
    a = 1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x ** 2 - 14 * y + 6 * x * y + 3 * y ** 2)
    b = 30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x ** 2 + 48 * y - 36 * x * y + 27 * y ** 2)
    return a * b


def branin(x, y, a=1, b=5.1 / (4 * PI ** 2), c=5 / PI, r=6, s=10, t=1 / (8 * PI)):
    return a * (y - b * x ** 2 + c * x - r) ** 2 + s * (1 - t) * np.cos(x) + s


def dropwave(x, y):
    r2 = x ** 2 + y ** 2
    return -(1 + np.cos(12 * np.sqrt(r2))) / (0.5 * r2 + 2)


def cosines(x, y):
    u, v = 1.6 * x - 0.5, 1.6 * y - 0.5
    return -(1 - (u ** 2 + v ** 2 - 0.3 * np.cos(3 * PI * u) - 0.3 * np.cos(3 * PI * v)))


def ackley(*x):
    d = len(x)
    return 20 + np.exp(1) - 20 * np.exp(-0.2 * np.sqrt(sum(v * v for v in x) / d)) - np.exp(sum(np.cos(2 * PI * v) for v in x) / d)


def eggholder(x, y):
    return -(y + 47) * np.sin(np.sqrt(abs(y + x / 2 + 47))) - x * np.sin(np.sqrt(abs(x - (y + 47))))


FUNCTIONS = {   # constructor, formula, documented domain, tolerance of the documented minimum (None: not claimed over the domain)
    'forrester': (e1.forrester, lambda x: (6 * x - 2) ** 2 * np.sin(12 * x - 4), [(0, 1)], None),
    'rosenbrock': (e2.rosenbrock, lambda x, y: 100 * (y - x ** 2) ** 2 + (x - 1) ** 2, [(-.5, 3), (-1.5, 2)], 1e-9),
    'beale': (e2.beale, lambda x, y: (1.5 - x + x * y) ** 2 + (2.25 - x + x * y ** 2) ** 2 + (2.625 - x + x * y ** 3) ** 2, [(-4.5, 4.5)] * 2, 1e-9),
    'dropwave': (e2.dropwave, dropwave, [(-1, 1)] * 2, 1e-6),
    'cosines': (e2.cosines, cosines, [(0, 1)] * 2, 1e-6),
    'branin': (e2.branin, branin, [(-5, 10), (1, 15)], 1e-5),
    'goldstein': (e2.goldstein, goldstein, [(-2, 2)] * 2, 1e-3),
    'sixhumpcamel': (e2.sixhumpcamel, lambda x, y: (4 - 2.1 * x ** 2 + x ** 4 / 3) * x ** 2 + x * y + (-4 + 4 * y ** 2) * y ** 2, [(-2, 2), (-1, 1)], 1e-4),
    'mccormick': (e2.mccormick, lambda x, y: np.sin(x + y) + (x - y) ** 2 - 1.5 * x + 2.5 * y + 1, [(-1.5, 4), (-3, 4)], None),
    'powers': (e2.powers, lambda x, y: abs(x) ** 2 + abs(y) ** 3, [(-1, 1)] * 2, 1e-9),
    'eggholder': (e2.eggholder, eggholder, [(-512, 512)] * 2, None),
    'alpine1': (en.alpine1, lambda *x: sum(abs(v * np.sin(v) + 0.1 * v) for v in x), [(-10, 10)], 1e-9),
    'alpine2': (en.alpine2, lambda *x: -prod([np.sqrt(v) * np.sin(v) for v in x]), [(1, 10)], None),
    'ackley': (en.ackley, ackley, [(-32.768, 32.768)], 1e-6),
}
ANYDIM = ('alpine1', 'alpine2', 'ackley')


def make(name, d, **kw):
    cls = FUNCTIONS[name][0]
    return cls(d, **kw) if name in ANYDIM else cls(**kw)


def domain(name, d):
    b = FUNCTIONS[name][2]
    return b * d if name in ANYDIM else b


def points(ctx, n, dom):
    rows = [[ctx.real('x[%d,%d]' % (i, j), float(a), float(b)) for j, (a, b) in enumerate(dom)] for i in range(n)]
    return ctx.arr([np.array(r, dtype=object) for r in rows]).reshape(n, len(dom)), rows


JOBS = [dict(name=k, n=n, d=d) for k in FUNCTIONS for d in ((1, 2) if k in ANYDIM else (len(FUNCTIONS[k][2]),)) for n in ((1, 2) if k != 'eggholder' else (1,))]


@harness('C22', jobs=JOBS, thorough=[dict(name=k, n=3, d=d) for k in FUNCTIONS for d in ((2, 3) if k in ANYDIM else (len(FUNCTIONS[k][2]),)) if k != 'eggholder'] + [dict(name='eggholder', n=2, d=2)])
def values(ctx, name, n, d):
    """one value per row, which is the documented function of that row"""
    dom = domain(name, d)
    o = make(name, d)
    ctx.check('documented domain', [tuple(b) for b in o.bounds] == [tuple(b) for b in dom] and o.input_dim == d)
    X, rows = points(ctx, n, dom)
    snap = snapshot(X)
    Y = o.f(X)
    ctx.check('one value per row', np.shape(Y) == (n, 1))
    ctx.check('points left unchanged', unchanged(X, snap))
    for i in range(n):
        ctx.check('the documented function of the row', ctx.eq(Y[i, 0], FUNCTIONS[name][1](*rows[i])))


@harness('C22', jobs=[dict(name=k, d=d) for k in FUNCTIONS for d in ((1, 2) if k in ANYDIM else (len(FUNCTIONS[k][2]),))], thorough=[dict(name=k, d=3) for k in ANYDIM])
def noisy(ctx, name, d):
    """noise: an own disturbance for every value, in proportion to the deviation"""
    n = 2
    rnd = env.Rand(ctx, spread=4)
    dom = domain(name, d)
    sd = ctx.real('sd', 0.01, 5)
    given = [(a, b) for a, b in dom]
    o, quiet = make(name, d, sd=sd), make(name, d, sd=0)
    X, rows = points(ctx, n, dom)
    F = quiet.f(X)
    ctx.check('no noise without a deviation', not rnd.normals)
    Y = o.f(X)
    ctx.check('one value per row', np.shape(Y) == (n, 1) and np.shape(F) == (n, 1))
    ctx.check('one disturbance per value', len(rnd.normals) == n)
    ctx.check('every value has its own disturbance', lor(*[land(*[ctx.eq(Y[i, 0] - F[i, 0], rnd.normals[p[i]]) for i in range(n)]) for p in ([0, 1], [1, 0])]) if len(rnd.normals) == n else False)
    if name != 'forrester':
        mine = [(a + 0.25, b - 0.25) for a, b in given]
        ctx.check('domain as requested', make(name, d, bounds=mine).bounds == mine)


@harness('C22', jobs=[dict(name=k, d=d) for k in FUNCTIONS for d in ((1, 2) if k in ANYDIM else (len(FUNCTIONS[k][2]),))], thorough=[dict(name=k, d=3) for k in ANYDIM], timeout_ms=15000)
def minima(ctx, name, d):
    """documented minima"""
    o = make(name, d)
    pts = np.array(o.min, dtype=float).reshape(-1, d)
    acc = 1e-2 if name in ('alpine2',) else 1e-4
    ctx.check('the documented minimum is attained where documented', bool(np.all(np.abs(np.asarray(o.f(pts)).reshape(-1) - o.fmin) <= acc * max(1.0, abs(o.fmin)))))
    dom = domain(name, d)
    ctx.check('documented minimizers lie in the domain', all(a <= v <= b for p in pts for v, (a, b) in zip(p, dom)))
    tol = FUNCTIONS[name][3]
    if tol is not None:
        X, rows = points(ctx, 1, dom)
        ctx.check('no point of the domain is below the documented minimum', o.f(X)[0, 0] >= o.fmin - tol)


@harness('C22', jobs=[dict(n=n, d=d) for n in (1, 2) for d in (1, 2)], thorough=[dict(n=2, d=3)])
def gsobol(ctx, n, d):
    """gSobol: product formula for every vector of positive coefficients"""
    a = ctx.reals('a', (d,), 0.01, 10)
    o = en.gSobol(a)
    ctx.check('documented domain', o.bounds == [(-4, 6)] * d and o.input_dim == d)
    X, rows = points(ctx, n, [(-4, 6)] * d)
    Y = o.f(X)
    ctx.check('one value per row', np.shape(Y) == (n, 1))
    for i in range(n):
        ctx.check('the documented function of the row', ctx.eq(Y[i, 0], prod([(abs(4 * rows[i][j] - 2) + a[j]) / (1 + a[j]) for j in range(d)])))
    bad = ctx.reals('neg', (d,), -5, 5)
    ctx.assume(lor(*[v <= 0 for v in bad]))
    ctx.check('coefficients which are not positive are rejected', ctx.raises(Exception, en.gSobol, bad) is not None)


@harness('C22')
def branin_coefficients(ctx):
    """Branin with coefficients of the user"""
    names = 'abcrst'
    X, rows = points(ctx, 2, FUNCTIONS['branin'][2])
    k = ctx.choice('given', list(range(len(names) + 1)))
    co = {names[k]: ctx.real('coefficient', -10, 10)} if k < len(names) else {c: ctx.real(c, -10, 10) for c in names}
    Y = e2.branin(**co).f(X)
    for i in range(2):
        ctx.check('the documented function with the given coefficients', ctx.eq(Y[i, 0], branin(rows[i][0], rows[i][1], **co)))


@harness('C22', jobs=[dict(name=k) for k in FUNCTIONS])
def one_point(ctx, name):
    """a single point may be given as a vector"""
    d = len(domain(name, 2))
    dom = domain(name, 2)
    X, rows = points(ctx, 1, dom)
    Y = make(name, d).f(X.reshape(-1))
    ctx.check('one value', np.shape(Y) == (1, 1) and ctx.eq(Y[0, 0], FUNCTIONS[name][1](*rows[0])))
