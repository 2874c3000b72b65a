"""C02: encodings and layout of the design space."""
import copy
from checks.common import *
from GPyOpt.core.errors import InvalidConfigError, InvalidVariableNameError
from GPyOpt.core.task.space import bounds_to_space

BOUNDS = ['all combinations: up to 3 declarations, dimensionality up to 3, up to 3 categories / values / arms; domain values and points: all reals in [-1000,1000]; up to 2 points per call', 'selected larger spaces: up to 12 declarations, 24 coordinates, 12 categories, 16 discrete values, 20 arms, 12 points per call (categories of the points fixed, discrete values ascending, 20 fixed arms)']
ASSUMPTIONS = ['categorical domains are 0..k-1 (the documented form)', 'two variables of one space do not share an expanded name']

MIX = [['c'], ['c2'], ['d2'], ['d2x2'], ['k2'], ['k3'], ['k2x2'], ['c', 'd2', 'k2'], ['k2', 'c', 'd2'], ['d2', 'k3', 'c'], ['k3', 'k2', 'c2'], ['c', 'k2', 'd2x2'],
       ['k2x2', 'c'], ['b2,1'], ['b3,2'], ['b2,3'], ['c2', 'c'], ['k1', 'c'], ['b2,2', 'b2,2'], ['b2,1', 'b3,2', 'b2,1'], ['b2,2l']]
THOROUGH = [['k3x2', 'd3', 'c2'], ['c3', 'k2x2', 'd2x2'], ['k2', 'k3', 'k2']]


LARGE = [['k12'], ['k7', 'c', 'k6'], ['d16'], ['c24'], ['k3x5', 'd2x4', 'c4'], ['c', 'k2', 'd3', 'k4', 'c', 'k3', 'd2', 'k2', 'c', 'd5', 'k5', 'c'], ['b20,7'], ['k2x12', 'c12']]


@harness('C02', jobs=[dict(kinds=m, npts=n) for m in MIX for n in (1, 2)] + [dict(kinds=m, npts=1) for m in (['k12'], ['k7', 'c', 'k6'])] +
         [dict(kinds=m, npts=n, fork=None) for m in LARGE for n in (1, 12)], thorough=[dict(kinds=m, npts=n) for m in THOROUGH[:-1] for n in (1, 2, 3)])
def roundtrip(ctx, kinds, npts, fork=True):
    """encode / decode of symbolic domain points (fork=None, larger spaces: the categories of the points are fixed)"""
    space = make_space(ctx, kinds, ordered=kinds in LARGE)
    ds = Design_space(space)
    rows = [domain_point(ctx, space, 'p%d' % i, fork) for i in range(npts)]
    X = ctx.arr(rows)
    snap = snapshot(X)
    Z = ds.unzip_inputs(X)
    ctx.check('encoding has one row per point, one column per model coordinate', np.shape(Z) == (npts, model_dim(space)))
    for i in range(npts):
        want = encode(space, rows[i])
        ctx.check('encoding is the one-hot / copied coordinates in order', ctx.eqv(Z[i], np.array(want, dtype=object), 0))
    ctx.check('encoding leaves the points unmodified', unchanged(X, snap))
    back = ds.zip_inputs(Z)
    ctx.check('decoding inverts encoding', ctx.eqs(back, X, 0))
    ctx.check('an encoded domain point is its own rounding', ctx.eqv(ds.round_optimum(Z[0]), Z[0], 0))
    again = ds.unzip_inputs(ds.zip_inputs(Z))
    ctx.check('encoding inverts decoding', ctx.eqs(again, Z, 0))


@harness('C02', jobs=[dict(kinds=m, named=n) for m in MIX + LARGE for n in (True, False)], thorough=[dict(kinds=m, named=n) for m in THOROUGH for n in (True, False)])
def layout(ctx, kinds, named):
    """bounds, names, indices, listings describe one layout"""
    space = make_space(ctx, kinds, named=named, ordered=kinds in LARGE)
    before = copy.deepcopy(space)
    ds = Design_space(space)
    ctx.check('declarations are not modified', len(space) == len(before) and land(*[same_decl(a, b) for a, b in zip(space, before)]))
    cols = columns(space)
    bandit = cols[0][0] == 'bandit'
    n, nm = len(cols), model_dim(space)
    ctx.check('dimensionalities', ds.model_dimensionality == nm and ds.objective_dimensionality == n and ds.dimensionality == sum(c[3] if c[0] == 'bandit' else 1 for c in cols))
    ctx.check('one expanded variable per objective coordinate', len(ds.space_expanded) == n and len(ds.model_input_dims) == n and
              all(w == c[3] for w, c in zip(ds.model_input_dims, cols)))
    k = 0
    bounds = ds.get_bounds()
    ctx.check('one bound per model coordinate', len(bounds) == nm)
    for i, (typ, dom, name, w) in enumerate(cols):
        v = ds.space_expanded[i]
        ctx.check('expanded variables keep kind, name and order', v.type == typ and v.name == name and (bandit or v.dimensionality == 1) and v.dimensionality_in_model == w)
        ctx.check('expanded variables keep their domain', ctx.eqv(np.array(v.domain, dtype=object), np.array(dom, dtype=object), 0))
        ctx.check('variable lookup by name', ds.find_variable(name) is v)
        if not bandit:
            ctx.check('index in the objective', list(v.index_in_objective) == [i])
            ctx.check('index in the model', list(v.index_in_model) == list(range(k, k + w)))
        bs = bounds[k:k + w]
        if typ == 'continuous':
            ctx.check('continuous bounds', land(bs[0][0] == dom[0], bs[0][1] == dom[1]))
        elif typ == 'discrete':
            ctx.check('discrete bounds are the extreme values', land(*[land(bs[0][0] <= x, bs[0][1] >= x) for x in dom] +
                                                                     [lor(*[bs[0][0] == x for x in dom]), lor(*[bs[0][1] == x for x in dom])]))
        elif typ == 'categorical':
            ctx.check('categorical bounds are (0,1) per category', all(tuple(b) == (0, 1) for b in bs))
        else:
            for j in range(w):
                col = [a[j] for a in dom]
                ctx.check('bandit bounds are the extreme coordinates', land(*[land(bs[j][0] <= x, bs[j][1] >= x) for x in col] +
                                                                            [lor(*[bs[j][0] == x for x in col]), lor(*[bs[j][1] == x for x in col])]))
        k += w
    # sub-spaces: by model index of the first coordinate of a variable
    starts, k = [], 0
    for c in cols:
        starts.append(k)
        k += c[3]
    full = 2 ** n - 1
    for mask in range(2 ** n) if n <= 5 else [0, full] + [1 << i for i in range(n)] + [full ^ (1 << i) for i in range(n)]:
        dims = [starts[i] for i in range(n) if mask >> i & 1]
        sub = ds.get_subspace(dims)
        ctx.check('sub-space lists the chosen variables in order', [v.name for v in sub] == [cols[i][2] for i in range(n) if mask >> i & 1])
    cdims, ddims = ds.get_continuous_dims(), ds.get_discrete_dims()
    ctx.check('continuous coordinates', list(cdims) == [i for i in range(n) if cols[i][0] == 'continuous'])
    ctx.check('discrete coordinates', list(ddims) == [i for i in range(n) if cols[i][0] == 'discrete'])
    ctx.check('input dimension counts both', ds.input_dim() == len(cdims) + len(ddims))
    cb = ds.get_continuous_bounds()
    want = [c[1] for c in cols if c[0] == 'continuous']
    ctx.check('continuous bounds listing', len(cb) == len(want) and land(*[land(a[0] == b[0], a[1] == b[1]) for a, b in zip(cb, want)]))
    import itertools
    grid = list(itertools.product(*[c[1] for c in cols if c[0] == 'discrete']))
    ctx.check('discrete grid crosses all values', ctx.eqv(np.array(ds.get_discrete_grid(), dtype=object), np.array(grid, dtype=object), 0))
    ctx.check('kind predicates', ds.has_continuous() == any(c[0] == 'continuous' for c in cols) and ds._has_bandit() == bandit)
    ctx.check('recorded kinds', all(ds.has_types[t] == any(c[0] == t for c in cols) for t in ('continuous', 'discrete', 'bandit', 'categorical')))
    ctx.check('listing of continuous declarations', [v.name for v in ds.get_continuous_space()] == [d.get('name', 'var_%d' % i) for i, d in enumerate(space) if d['type'] == 'continuous'])
    ctx.check('listing of discrete declarations', [v.name for v in ds.get_discrete_space()] == [d.get('name', 'var_%d' % i) for i, d in enumerate(space) if d['type'] == 'discrete'])
    if bandit and len(space) == 1:
        ctx.check('arms listing', ctx.eqs(ds.get_bandit(), space[0]['domain'], 0))
    ctx.check('unknown variable name is rejected', ctx.raises(InvalidVariableNameError, ds.find_variable, 'nope') is not None)


def same_decl(a, b):
    if set(a) != set(b):
        return False
    return land(*[ctx_same(a[k], b[k]) for k in a])


def ctx_same(x, y):
    if isinstance(x, (tuple, list, np.ndarray)):
        x, y = np.array(x, dtype=object), np.array(y, dtype=object)
        if x.shape != y.shape:
            return False
        return land(*[p == q for p, q in zip(x.reshape(-1), y.reshape(-1))])
    return x == y


@harness('C02', jobs=[dict(kinds=m) for m in [['c'], ['c2', 'd2'], ['k2x2', 'c'], ['c', 'k3', 'd2x2']] + LARGE[:-2]])
def expanded_config(ctx, kinds):
    """the expanded configuration lists one single-dimensional declaration per coordinate"""
    space = make_space(ctx, kinds, ordered=kinds in LARGE)
    ds = Design_space(space)
    cols = columns(space)
    e = ds.config_space_expanded
    ctx.check('expanded configuration has one entry per coordinate', len(e) == len(cols))
    for c, d in zip(cols, e):
        ctx.check('expanded configuration entries are one-dimensional, same kind and domain',
                  land(d['type'] == c[0], d.get('dimensionality', 1) == 1, ctx_same(d['domain'], c[1])))
    ds2 = Design_space(e)
    ctx.check('the expanded configuration declares the same space', ds2.model_dimensionality == ds.model_dimensionality and ds2.objective_dimensionality == ds.objective_dimensionality and
              ctx_same(np.array(ds2.get_bounds(), dtype=object), np.array(ds.get_bounds(), dtype=object)))


@harness('C02')
def rejected(ctx):
    """invalid declarations"""
    lo, hi = ctx.real('lo'), ctx.real('hi')
    c = {'name': 'a', 'type': 'continuous', 'domain': (lo, hi)}
    others = [{'name': 'd', 'type': 'discrete', 'domain': (lo, hi)}, c, {'name': 'k', 'type': 'categorical', 'domain': (0, 1)}]
    b = {'name': 'b', 'type': 'bandit', 'domain': np.array([[lo, hi], [hi, lo]])}
    o = ctx.choice('other', others)
    first = ctx.choice('first', [0, 1])
    mixed = [o, b] if first else [b, o]
    ctx.check('bandits cannot be mixed', ctx.raises(InvalidConfigError, Design_space, mixed) is not None)
    ctx.check('unknown kind is rejected', ctx.raises(InvalidConfigError, Design_space, [{'name': 'a', 'type': 'ordinal', 'domain': (lo, hi)}]) is not None)
    ctx.check('missing domain is rejected', ctx.raises(InvalidConfigError, Design_space, [c, {'name': 'z', 'type': 'continuous'}]) is not None)
    ctx.check('arms of unequal length are rejected', ctx.raises(InvalidConfigError, Design_space, [{'name': 'b', 'type': 'bandit', 'domain': [(lo, hi), (lo,)]}]) is not None)
    d = Design_space([{'domain': (lo, hi)}])
    ctx.check('defaults: continuous and named by position', d.space[0].type == 'continuous' and d.space[0].name == 'var_0' and d.model_dimensionality == 1)
    bs = bounds_to_space([(lo, hi), (hi, lo)])
    ds = Design_space(bs)
    ctx.check('list of bounds becomes continuous variables', land(ds.model_dimensionality == 2, ds.get_bounds()[0][0] == lo, ds.get_bounds()[0][1] == hi,
                                                                ds.get_bounds()[1][0] == hi, ds.get_bounds()[1][1] == lo, [v.name for v in ds.space] == ['var_1', 'var_2']))
    cons = [{'name': 'c1', 'constrain': 'x[:,0]'}]
    ctx.check('has constraints', Design_space([c], cons).has_constraints() and not Design_space([c]).has_constraints())
