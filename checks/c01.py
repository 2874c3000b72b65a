"""C01: rounding onto the domain."""
from checks.common import *

BOUNDS = ['selected larger spaces (12 discrete values, 9 categories, 12 arms, 14 coordinates, 8 declarations): 2-4 free coordinates at a time, a domain point elsewhere', 'spaces: the listed mixes of up to 3 variable declarations (continuous, discrete up to 4 values, categorical up to 4, bandit up to 3 arms x 2, up to three bandits); '
          'domain values and the point are symbolic: every real in [-1000,1000] (point: every real), and IEEE-754 double precision for the fp harnesses']
ASSUMPTIONS = ['continuous bounds satisfy lo <= hi', 'real-arithmetic harnesses treat double arithmetic as exact; the fp harnesses do not']

MIX = [['c'], ['c2'], ['d1'], ['d2'], ['d3'], ['d2x2'], ['k1'], ['k2'], ['k3'], ['k2x2'], ['c', 'd2', 'k2'], ['k2', 'c', 'd2'], ['d2', 'k3', 'c'],
       ['c', 'k2', 'c'], ['k2', 'k3'], ['b2,1'], ['b3,1'], ['b2,1', 'b2,1'], ['b2,1l']]
ARMS = [['b2,2'], ['b3,2'], ['b2,3'], ['b2,2', 'b2,2'], ['b2,2', 'b2,1'], ['b2,1', 'b2,1', 'b2,2'], ['b2,2l']]
MANY = ['c', 'k3', 'd2', 'c2', 'k2', 'c', 'd3', 'c']
LARGE = ([(['k9'], None), (['d12'], None), (['b12,2'], None), (['b2,9'], None)] + [(['c14'], f) for f in ([0, 5], [12, 13])] + [(['k2x6'], f) for f in ([0, 1, 10, 11], [5, 6])] +
         [(['d2x6'], f) for f in ([0, 5], [2, 3])] + [(MANY, f) for f in ([0, 1], [4, 5, 6], [7, 8], [9, 10, 11])])
THOROUGH = [['d4'], ['k4'], ['c3', 'd3x2'], ['k3x2', 'd3'], ['b2,2'], ['d3', 'k2', 'd2', 'c2'], ['k3', 'k3', 'c']]


def rounding_spec(ctx, space, x, r, pre=''):
    k = 0
    for i, (typ, dom, nm, w) in enumerate(columns(space)):
        xs = [x[k + j] for j in range(w)]
        rs = [r[k + j] for j in range(w)]
        k += w
        if typ == 'continuous':
            lo, hi = dom
            ctx.check(pre + 'continuous coordinate within bounds', land(rs[0] >= lo, rs[0] <= hi))
            ctx.check(pre + 'continuous coordinate clipped to the closest bound, unchanged inside',
                      land(limplies(land(xs[0] >= lo, xs[0] <= hi), rs[0] == xs[0]), limplies(xs[0] < lo, rs[0] == lo), limplies(xs[0] > hi, rs[0] == hi)))
        elif typ == 'discrete':
            ctx.check(pre + 'discrete coordinate is one of the values', lor(*[rs[0] == v for v in dom]))
            ctx.check(pre + 'discrete coordinate is a closest value', land(*[abs(rs[0] - xs[0]) <= abs(v - xs[0]) for v in dom]))
        elif typ == 'categorical':
            ctx.check(pre + 'categorical block is one-hot', lor(*[land(*[rs[j] == (1 if j == i else 0) for j in range(w)]) for i in range(w)]))
            ctx.check(pre + 'categorical block marks a largest entry', land(*[limplies(rs[i] == 1, land(*[xs[i] >= xs[j] for j in range(w)])) for i in range(w)]))
        else:
            ctx.check(pre + 'bandit block is one of the arms', lor(*[land(*[rs[j] == a[j] for j in range(w)]) for a in dom]))
            dist = lambda a: sum((a[j] - xs[j]) ** 2 for j in range(w))
            dr = dist(rs)
            ctx.check(pre + 'bandit block is a closest arm', land(*[dr <= dist(a) if ctx.sym else dr <= dist(a) * (1 + 1e-9) + 1e-9 for a in dom]))


@harness('C01', jobs=[dict(kinds=m) for m in MIX], thorough=[dict(kinds=m) for m in THOROUGH])
def rounding_real(ctx, kinds):
    """round_optimum on a symbolic space and a symbolic point"""
    rounding(ctx, make_space(ctx, kinds))


@harness('C01', jobs=[dict(kinds=m, free=f) for m, f in LARGE], thorough=[dict(kinds=m, free=None) for m in (['k16'], ['d40'], ['b30,2'])])
def rounding_large(ctx, kinds, free):
    """round_optimum on larger spaces (discrete values ascending, arms fixed): any value in the free coordinates, a point of the domain elsewhere"""
    rounding(ctx, make_space(ctx, kinds, ordered=True), free)


@harness('C01', jobs=[dict(kinds=m) for m in ARMS], thorough=[dict(kinds=['b4,2']), dict(kinds=['b3,3'])])
def rounding_arms(ctx, kinds):
    """round_optimum on a bandit with concrete arms and a symbolic point"""
    rounding(ctx, make_space(ctx, kinds, sym_domain=False))


def rounding(ctx, space, free=None):
    ds = Design_space(space)
    n = model_dim(space)
    x = ctx.reals('x', (n,))
    if free is not None:
        k = 0
        for typ, dom, nm, w in columns(space):
            if not set(free) & set(range(k, k + w)):
                if typ == 'continuous':
                    ctx.assume(land(x[k] >= dom[0], x[k] <= dom[1]))
                elif typ == 'discrete':
                    ctx.assume(x[k] == dom[k % len(dom)])
                else:
                    ctx.assume(land(*[x[k + j] == (1 if j == k % w else 0) for j in range(w)]))
            k += w
    flat = ctx.choice('ndim', [1, 2]) == 1
    arg = x.copy() if flat else x.copy().reshape(1, n)
    snap = snapshot(arg)
    r = ds.round_optimum(arg)
    ctx.check('one row with one entry per model coordinate', np.shape(r) == (1, n))
    ctx.check('argument not modified', unchanged(arg, snap))
    r0 = r[0]
    rounding_spec(ctx, space, x, r0)
    ctx.check('the rounded point is in the domain', in_model_domain(ctx, space, r0))
    r2 = ds.round_optimum(r)
    ctx.check('rounding is idempotent', ctx.eqs(r2, r, 0))
    ctx.check('a rounded point decodes into the domain', in_objective_domain(ctx, space, ds.zip_inputs(r)[0]))
    inside = in_model_domain(ctx, space, x)
    ctx.check('a point of the domain is left alone', limplies(inside, land(*[a == b for a, b in zip(r0, x)])))
    ctx.check('a two-row argument is rejected', ctx.raises(ValueError, ds.round_optimum, ctx.arr([list(x), list(x)])) is not None)


@harness('C01', jobs=[dict(kinds=m, closest=False) for m in (['c'], ['d2'], ['d3'], ['c', 'd2'])], thorough=[dict(kinds=m, closest=True) for m in (['d2'], ['d3'], ['c', 'd2'])], nice=False, nice_traces=False)
def rounding_fp(ctx, kinds, closest):
    """the same over IEEE-754 doubles: membership must be exact, infinities included"""
    space = make_space(ctx, kinds, fp=True)
    ds = Design_space(space)
    n = model_dim(space)
    x = [ctx.fp('x%d' % i) for i in range(n)]
    for v in x:
        ctx.assume(lnot(np.isnan(v)))
    r = ds.round_optimum(np.array(x))
    ctx.check('fp: one row with one entry per model coordinate', np.shape(r) == (1, n))
    ctx.check('fp: the rounded point is exactly in the domain', in_model_domain(ctx, space, r[0]))
    for i, (typ, dom, nm, w) in enumerate(columns(space)):
        if typ == 'continuous':
            ctx.check('fp: unchanged inside the bounds', limplies(land(x[i] >= dom[0], x[i] <= dom[1]), r[0][i] == x[i]))
        elif closest:
            ctx.check('fp: closest value', limplies(lnot(np.isinf(x[i])), land(*[abs(r[0][i] - x[i]) <= abs(v - x[i]) for v in dom])))
            ctx.check('fp: a value of the domain is left alone', land(*[limplies(x[i] == v, r[0][i] == v) for v in dom]))
