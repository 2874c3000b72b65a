"""C07: initial designs."""
import itertools
from checks.common import *
from symx import env
import GPyOpt.experiment_design as ED
from GPyOpt.core.errors import InvalidConfigError
from GPyOpt.util.general import samples_multidimensional_uniform as smu_general
from GPyOpt.experiment_design.random_design import samples_multidimensional_uniform as smu_design

BOUNDS = ['spaces: the listed mixes of up to 4 declarations; up to 3 points per design (grid: up to 9); domain values in [-1000,1000], generator output: every value of the documented range']
ASSUMPTIONS = ['np.random.uniform/choice/randint, sobol_seq.i4_sobol_generate and pyDOE.lhs return arbitrary values of their documented range (stubs)']

MIX = [['c'], ['c2'], ['d2'], ['k2'], ['c', 'd2'], ['d2', 'c'], ['k3', 'c', 'd2'], ['c', 'k2', 'c'], ['c2', 'd2x2'], ['d2x2', 'c2'], ['d1', 'c', 'k2', 'c'], ['d3', 'k2']]
BAND = [['b2,1'], ['b3,2'], ['b2,3'], ['b2,2', 'b2,2'], ['b2,1', 'b2,2', 'b2,1'], ['b2,2', 'b2,1'], ['b2,2l']]
THOROUGH = [['c3', 'd2', 'k3'], ['k2x2', 'c2', 'd3']]


def affine(ctx, lo, hi, u, v):
    return ctx.eq(v, lo + (hi - lo) * u)


@harness('C07', jobs=[dict(kinds=m, design=d, n=n) for m in MIX + BAND for d in ('random', 'sobol', 'latin') for n in (1, 3) if not (m in BAND and d != 'random')],
         thorough=[dict(kinds=m, design=d, n=n) for m in THOROUGH for d in ('random', 'sobol', 'latin') for n in (1, 4)])
def designs(ctx, kinds, design, n):
    """every point of the design is in the space"""
    big = kinds in (['c2', 'd2x2'], ['d2x2', 'c2'], ['d3', 'k2'], ['d1', 'c', 'k2', 'c'], ['k3', 'c', 'd2'])
    space = make_space(ctx, kinds)
    rnd = env.Rand(ctx)
    ld = env.low_discrepancy(ctx)
    ds = Design_space(space)
    X = ED.initial_design(design, ds, n)
    ctx.check('requested number of points, one column per coordinate', np.shape(X) == (n, obj_dim(space)))
    for i in range(n):
        ctx.check('every point is in the space', in_objective_domain(ctx, space, X[i], 0))
    cont = [i for i, c in enumerate(columns(space)) if c[0] == 'continuous']
    if design != 'random' and cont:
        ctx.check('one low-discrepancy sequence of the right size', len(ld['calls']) == 1 and ld['calls'][0][1:] == (n, len(cont)))
        cols = columns(space)
        for j, c in enumerate(cont):
            for i in range(n):
                ctx.check('continuous columns are the sequence scaled to their own bounds', affine(ctx, cols[c][1][0], cols[c][1][1], ld['last'][i, j], X[i, c]))


@harness('C07', jobs=[dict(kinds=m, n=n) for m in (['c'], ['c2'], ['c', 'd2'], ['k2', 'c2'], ['c', 'k2', 'c'], ['d2', 'c3']) for n in (1, 2, 3, 4, 5, 8, 9)]
         + [dict(kinds=m, n=2) for m in (['d2'], ['k2'], ['d2', 'k3'])])
def grid(ctx, kinds, n):
    """grid design: full factorial over the continuous coordinates"""
    space = make_space(ctx, kinds)
    env.Rand(ctx)
    ds = Design_space(space)
    X = ED.initial_design('grid', ds, n)
    cols = columns(space)
    cont = [i for i, c in enumerate(cols) if c[0] == 'continuous']
    k = 1
    while cont and (k + 1) ** len(cont) <= n:
        k += 1
    N = k ** len(cont) if cont else n
    ctx.check('grid: greatest power of an integer not above the request', np.shape(X) == (N, len(cols)))
    for i in range(N):
        ctx.check('grid: every point is in the space', in_objective_domain(ctx, space, X[i]))
    axis = [[cols[c][1][0] + (cols[c][1][1] - cols[c][1][0]) * (np.float64(j) / (k - 1) if k > 1 else 0.0) for j in range(k)] for c in cont]
    for combo in itertools.product(*[range(k)] * len(cont)):
        ctx.check('grid: every combination of the levels is present', lor(*[land(*[ctx.eq(X[i, c], axis[a][combo[a]]) for a, c in enumerate(cont)]) for i in range(N)]) if cont else True)


@harness('C07', jobs=[dict(kinds=k, design=d, n=n) for k, d, n in ((['c'], 'random', 80), (['d2', 'c'], 'random', 40), (['c6'], 'random', 9), (['k2', 'c'], 'sobol', 70), (['c'], 'latin', 70), (['c2', 'd2'], 'sobol', 40), (['c6', 'k9'], 'latin', 7), (['c9'], 'sobol', 3),
                                                                 (['b12,3'], 'random', 6), (['b3,2'], 'random', 40))], thorough=[dict(kinds=['c'], design=d, n=600) for d in ('random', 'sobol', 'latin')], max_paths=300, replays=8)
def large_designs(ctx, kinds, design, n):
    """larger designs: bounds arbitrary, all but two draws of the generator fixed"""
    space = make_space(ctx, kinds, ordered=True)
    rnd = env.Rand(ctx, few=(0, n - 1))
    ld = env.low_discrepancy(ctx, few=(0, n - 1))
    ds = Design_space(space)
    X = ED.initial_design(design, ds, n)
    ctx.check('requested number of points, one column per coordinate', np.shape(X) == (n, obj_dim(space)))
    ctx.check('every point is in the space', land(*[in_objective_domain(ctx, space, X[i], 0) for i in range(n)]))
    cols = columns(space)
    cont = [i for i, c in enumerate(cols) if c[0] == 'continuous']
    if design != 'random' and cont:
        ctx.check('one low-discrepancy sequence of the right size', len(ld['calls']) == 1 and ld['calls'][0][1:] == (n, len(cont)))
        ctx.check('continuous columns are the sequence scaled to their own bounds', land(*[affine(ctx, cols[c][1][0], cols[c][1][1], ld['last'][i, j], X[i, c]) for j, c in enumerate(cont) for i in range(n)]))


@harness('C07', jobs=[dict(k=1, top=1000), dict(k=2, top=80), dict(k=3, top=26)], thorough=[dict(k=2, top=150), dict(k=3, top=63), dict(k=4, top=30)])
def integer_root(ctx, k, top):
    """iroot(k, n) is the greatest x with x^k <= n, for every n up to the bound"""
    from GPyOpt.experiment_design.grid_design import iroot
    n = ctx.int('n', 1, top)
    r = iroot(k, n)
    ctx.check('integer root', land(r >= 1, r ** k <= n, (r + 1) ** k > n))


@harness('C07', jobs=[dict(d=d, n=n) for d in (1, 2, 3) for n in (1, 2)])
def uniform_samples(ctx, d, n):
    """both uniform samplers stay inside their own bounds"""
    env.Rand(ctx)
    bounds = []
    for i in range(d):
        lo, hi = ctx.real('lo%d' % i, -K, K), ctx.real('hi%d' % i, -K, K)
        ctx.assume(lo <= hi)
        bounds.append((lo, hi))
    for f in (smu_general, smu_design):
        X = f(bounds, n)
        ctx.check('uniform sampler: shape', np.shape(X) == (n, d))
        ctx.check('uniform sampler: within bounds', land(*[land(X[i, j] >= bounds[j][0], X[i, j] <= bounds[j][1]) for i in range(n) for j in range(d)]))


@harness('C07')
def rejections(ctx):
    """unknown design names and constraints with non-random designs"""
    lo = ctx.real('lo')
    ds = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (lo, lo + 1)}], [{'name': 'c', 'constraint': 'x[:,0]-1'}])
    name = ctx.choice('name', ['sobol', 'latin', 'grid'])
    ctx.check('designs without constraint support reject constrained spaces', ctx.raises(InvalidConfigError, ED.initial_design, name, ds, 2) is not None)
    ctx.check('unknown design is rejected', ctx.raises(ValueError, ED.initial_design, 'halton', ds, 2) is not None)
