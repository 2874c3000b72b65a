"""C11: acquisition values."""
from checks.acq import *

BOUNDS = ['1-3 points in spaces of up to 3 model coordinates, 1-3 hyper-parameter samples; means, best values in [-1000,1000], standard deviations in [1e-3,1000] (floor harness: [0,1000]), jitter in [0,1], exploration weight in [0,10], costs in [0.01,1000]']
ASSUMPTIONS = ['the model returns arbitrary means and standard deviations (stub model)', 'exp and the normal distribution function are uninterpreted functions with monotonicity and symmetry axioms',
               'entropy search is outside the claim: joint_min (expectation propagation) cannot be encoded within reach']
SPACES = [['c'], ['c2'], ['k2', 'c']]
NAMES = ['EI', 'MPI', 'LCB', 'EI_MCMC', 'MPI_MCMC', 'LCB_MCMC']


def parameter(ctx, name, jitter0=False):
    if name.startswith('LCB'):
        return dict(exploration_weight=ctx.real('w', 0, 10))
    return dict(jitter=0.0 if jitter0 else ctx.real('jitter', 0, 1))


def expected(ctx, name, par, mod, row, alt=False):
    n = mod.n or 1
    f = 0.0
    for i in range(n):
        m, s = mod.at(row, i)[:2]
        f = f + (ei_mcmc_as_found(par, mod.fmins[i], m, s) if alt else formula(name, par, mod.fmins[i], m, s))
    return f / np.float64(n)


def points(ctx, space, n):
    return [domain_point(ctx, space, 'x%d' % i, fork=False) for i in range(n)]


@harness('C11', jobs=[dict(name=a, kinds=k, n=n, samples=s, weights=w) for a in NAMES for k, n, s, w in (
    (['c'], 1, 2, 'none'), (['c'], 2, 1, 'cost'), (['c2'], 2, 2, 'both'), (['k2', 'c'], 2, 2, 'constraint'), (['k2', 'c'], 3, 1, 'both'))],
    thorough=[dict(name=a, kinds=['k2', 'c'], n=3, samples=3, weights='both') for a in NAMES] + [dict(name=a, kinds=['c', 'k3'], n=4, samples=2, weights='both') for a in NAMES], replays=12)
def values(ctx, name, kinds, n, samples, weights):
    """the value handed to the optimizer: minus the formula, divided by the cost, zero where infeasible; each row on its own"""
    space = make_space(ctx, kinds, sym_domain=False)
    cons = None
    if weights in ('constraint', 'both'):
        cons = [{'name': 'c1', 'constraint': 'x[:,%d] - 0.5' % (obj_dim(space) - 1)}, {'name': 'c2', 'constraint': '-x[:,%d] - 1.0' % (obj_dim(space) - 1)}]
    ds = Design_space(space, cons)
    rows = points(ctx, space, n)
    par = parameter(ctx, name)
    mod = TableModel(ctx, samples if name.endswith('MCMC') else None)
    costs = {}

    def cost(x):
        out = []
        for r in np.atleast_2d(x):
            k = key(r)
            if k not in costs:
                costs[k] = ctx.real('cost%d' % len(costs), 0.01, K)
            out.append([costs[k]])
        return ctx.arr(out), np.zeros(np.shape(x))
    withcost = weights in ('cost', 'both')
    acq = CLASSES[name](mod, ds, None, cost_withGradients=cost if withcost else None, **par)
    X = ctx.arr([encode(space, r) for r in rows])
    snap = snapshot(X)
    val = acq.acquisition_function(X)
    ctx.check('one value per point', np.shape(val) == (n, 1))
    ctx.check('locations not modified', unchanged(X, snap))
    p = list(par.values())[0]
    for i in range(n):
        feas = True
        if cons:
            v = rows[i][-1]
            feas = land(v <= 0.5, -v <= 1.0)
        c = costs[key(X[i])] if withcost and not name.startswith('LCB') else 1.0
        if withcost and name.startswith('LCB'):
            ctx.check('no cost weighting for confidence bounds', not costs)
        f = expected(ctx, name, p, mod, X[i])
        got = val[i, 0]
        ctx.check('infeasible points have value zero', lor(feas, ctx.eq(got, 0.0)))
        ok = ctx.eq(got * c, -expected(ctx, name, p, mod, X[i], alt=True)) if name == 'EI_MCMC' else False
        if ok is not True:
            ok = lor(ok, ctx.eq(got * c, -f))
        ctx.check('value is minus the formula divided by the cost', lor(lnot(feas), ok))


@harness('C11', jobs=[dict(samples=1)], known='EI_MCMC-jitter')
def ei_mcmc_jitter(ctx, samples):
    """probe of the recorded finding: integrated expected improvement with a non-zero jitter"""
    ds = Design_space(make_space(ctx, ['c'], sym_domain=False))
    mod = TableModel(ctx, samples)
    j = ctx.real('jitter', 0.01, 1)
    acq = AcquisitionEI_MCMC(mod, ds, None, jitter=j)
    X = ctx.arr([[ctx.real('x', 0, 1)]])
    ctx.assume(land(mod.at(X[0])[1] >= 1, mod.at(X[0])[1] <= 2, mod.fmins[0] - mod.at(X[0])[0] >= 0, mod.fmins[0] - mod.at(X[0])[0] <= 2))
    ctx.check('integrated expected improvement uses the jitter as expected improvement does', ctx.eq(acq.acquisition_function(X)[0, 0], -expected(ctx, 'EI', j, mod, X[0])))


@harness('C11', jobs=[dict(name=a, samples=s) for a in ('EI_MCMC',) for s in (1, 2, 3)])
def integrated_without_jitter(ctx, name, samples):
    """integrated expected improvement at jitter zero"""
    ds = Design_space(make_space(ctx, ['c'], sym_domain=False))
    mod = TableModel(ctx, samples)
    acq = CLASSES[name](mod, ds, None, jitter=0.0)
    X = ctx.arr([[ctx.real('x', 0, 1)], [ctx.real('x2', 0, 1)]])
    v = acq.acquisition_function(X)
    ctx.check('one value per point', np.shape(v) == (2, 1))
    for i in range(2):
        ctx.check('average over the hyper-parameter samples', ctx.eq(v[i, 0], -expected(ctx, name, 0.0, mod, X[i])))


@harness('C11', jobs=[dict(name=a) for a in ('EI', 'MPI', 'EI_MCMC', 'MPI_MCMC')])
def deviation_floor(ctx, name):
    """standard deviations below the floor are treated as the floor"""
    ds = Design_space(make_space(ctx, ['c'], sym_domain=False))
    mod = TableModel(ctx, 1 if name.endswith('MCMC') else None, smin=0)
    acq = CLASSES[name](mod, ds, None, jitter=0.0)
    X = ctx.arr([[ctx.real('x', 0, 1)]])
    m, s = mod.at(X[0])[:2]
    ctx.assume(lor(s >= 1e-3, s < 1e-10))
    v = acq.acquisition_function(X)
    ctx.check('floored deviation', ctx.eq(v[0, 0], -formula(name, 0.0, mod.fmins[0], m, ite(s < 1e-10, 1e-10, s))))


@harness('C11', jobs=[dict(name=a) for a in NAMES])
def shape_properties(ctx, name):
    """consequences which hold for every input: signs, ranges, monotonicity"""
    ds = Design_space(make_space(ctx, ['c'], sym_domain=False))
    mod = TableModel(ctx, 1 if name.endswith('MCMC') else None)
    par = parameter(ctx, name, jitter0=name == 'EI_MCMC')
    acq = CLASSES[name](mod, ds, None, **par)
    X = ctx.arr([[ctx.real('x', 0, 1)], [ctx.real('x2', 0, 1)]])
    v = acq.acquisition_function(X)
    (m1, s1), (m2, s2) = mod.at(X[0])[:2], mod.at(X[1])[:2]
    if name.startswith('MPI'):
        ctx.check('probability in the unit interval', land(-v[0, 0] >= 0, -v[0, 0] <= 1))
        ctx.check('lower mean is better at equal deviation', limplies(land(s1 == s2, m1 < m2), v[0, 0] < v[1, 0]) if ctx.sym else limplies(land(s1 == s2, m1 < m2), v[0, 0] <= v[1, 0]))
    if name.startswith('LCB'):
        ctx.check('lower mean is better at equal deviation', limplies(land(s1 == s2, m1 < m2), v[0, 0] < v[1, 0]))
        ctx.check('higher deviation is not worse at equal mean', limplies(land(m1 == m2, s1 <= s2), v[0, 0] >= v[1, 0]))


@harness('C11')
def selection(ctx):
    """names select their classes; confidence bounds ignore costs; defaults"""
    for n in NAMES:
        ctx.check('name selects its class', select_acquisition(n) is CLASSES[n])
    ctx.check('LP is selectable', select_acquisition('LP') is AcquisitionLP)
    ctx.check('unknown name is rejected', ctx.raises(Exception, select_acquisition, 'nope') is not None)
    ds = Design_space(make_space(ctx, ['c'], sym_domain=False))
    mod = TableModel(ctx)
    for n in ('EI_MCMC', 'MPI_MCMC', 'LCB_MCMC'):
        ctx.check('integrated versions need hyper-parameter samples', ctx.raises(AssertionError, CLASSES[n], mod, ds) is not None)
    ctx.check('defaults', AcquisitionEI(mod, ds).jitter == 0.01 and AcquisitionMPI(mod, ds).jitter == 0.01 and AcquisitionLCB(mod, ds).exploration_weight == 2)
