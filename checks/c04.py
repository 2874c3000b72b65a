"""C04: context variables."""
from checks.suggest import *
from GPyOpt.core.errors import InvalidVariableNameError
from GPyOpt.optimization.acquisition_optimizer import ContextManager
from GPyOpt.optimization.optimizer import apply_optimizer, OptLbfgs

BOUNDS = ['2-4 objective columns, every proper subset of them as context for the small spaces, both orders; batches of 1-2; sequences of two suggestions; random designs reduced to 1-2 points; domains and values symbolic in [-1000,1000]']
ASSUMPTIONS = ['acquisition values and gradients, model predictions and random draws arbitrary; the numerical optimizer returns any vector of the right length', 'spaces without bandit variables (they cannot be mixed with others); at least one free variable']

CASES = [(['c', 'c'], [0]), (['c', 'c'], [1]), (['k2', 'c'], [1]), (['k2', 'c'], [0]), (['k2', 'c', 'c'], [2]), (['k2', 'c', 'c'], [2, 0]), (['c', 'd2', 'c'], [2, 0]), (['c', 'd2'], [1]), (['c3'], [1]),
         (['d2', 'k3', 'c'], [1]), (['c', 'c', 'c'], [0, 1]), (['c', 'k2', 'd2'], [1, 0])]
EVS = ('sequential', 'random', 'thompson', 'local_penalization')


def value(ctx, col, name):
    typ, dom, nm, w = col
    if typ == 'continuous':
        return ctx.real(name, dom[0], dom[1])
    v = dom[ctx.choice(name, list(range(len(dom))))]
    return v if S(v) else float(v)


def model_columns(space):
    out, k = [], 0
    for c in columns(space):
        out.append(list(range(k, k + c[3])))
        k += c[3]
    return out


def context_of(ctx, space, idx, tag='ctx'):
    cols = columns(space)
    vals = {i: value(ctx, cols[i], '%s%d' % (tag, i)) for i in idx}
    return {cols[i][2]: v for i, v in vals.items()}, vals


def fixed_columns(space, vals):
    """model columns -> value, for the context"""
    cols, mc = columns(space), model_columns(space)
    out = {}
    for i, v in vals.items():
        if cols[i][0] == 'categorical':
            for j, k in enumerate(mc[i]):
                out[k] = ite(v == cols[i][1][j], 1.0, 0.0)
        else:
            out[mc[i][0]] = v
    return out


def respected(ctx, space, S_, vals, batch):
    valid(ctx, space, S_, batch)
    if np.shape(S_) == (batch, obj_dim(space)):
        ctx.check('context coordinates carry exactly the given values', land(*[ctx.eq(S_[i, j], v, 0) for i in range(batch) for j, v in vals.items()]))


def only_in_context(ctx, space, log, vals):
    f = fixed_columns(space, vals)
    d = model_dim(space)
    ctx.check('the acquisition is only evaluated with the context coordinates fixed', all(a.shape[1] == d for a, _ in log) and
              land(*[ctx.eq(a[i, k], v, 0) for a, _ in log for i in range(a.shape[0]) for k, v in f.items()]))


def optimizer_calls(ctx, space, calls, vals):
    """bounds and functions handed to the numerical optimizer are those of the free coordinates"""
    f = fixed_columns(space, vals)
    free, bounds = [], []
    for c, mc in zip(columns(space), model_columns(space)):
        for k in mc:
            if k not in f:
                free.append(k)
                bounds.append((0, 1) if c[0] == 'categorical' else (c[1][0], c[1][1]) if c[0] == 'continuous' else None)
    for c in calls:
        b = c['bounds']
        ctx.check('the optimizer works on the free coordinates within their bounds', len(b) == len(free) and len(c['x0']) == len(free) and
                  land(*[land(ctx.eq(b[j][0], w[0], 0), ctx.eq(b[j][1], w[1], 0)) for j, w in enumerate(bounds) if w is not None]))
    return free


@harness('C04', jobs=[dict(kinds=k, idx=i, evaluator='sequential') for k, i in CASES] + [dict(kinds=k, idx=i, evaluator=e) for k, i in CASES[:8] for e in EVS[1:]],
         thorough=[dict(kinds=k, idx=i, evaluator=e) for k, i in CASES[8:] for e in EVS[1:]], replays=6)
def suggestion(ctx, kinds, idx, evaluator):
    """one suggestion with context"""
    space = make_space(ctx, kinds)
    b = 1 if evaluator in ('sequential', 'thompson') else 2
    bo, ds, acq = build(ctx, space, evaluator, b, [loop_point(ctx, space, 'x0')], cap=1)
    context, vals = context_of(ctx, space, idx)
    given = dict(context)
    S_ = bo.suggest_next_locations(context=context)
    respected(ctx, space, S_, vals, b)
    only_in_context(ctx, space, acq.table.log, vals)
    optimizer_calls(ctx, space, ctx.lbfgs.calls, vals)
    ctx.check('the given context is not modified', list(context) == list(given) and all(context[k] is given[k] for k in given))


@harness('C04', jobs=[dict(kinds=k, first=i, second=j, evaluator=e) for k, i, j in ((['c', 'c'], [0], []), (['c', 'c'], [1], [0]), (['k2', 'c'], [0], []), (['c', 'd2'], [1], [])) for e in EVS if e == 'sequential' or len(k[0]) == 1],
         replays=6)
def forgotten(ctx, kinds, first, second, evaluator):
    """a context does not influence later suggestions"""
    space = make_space(ctx, kinds, sym_domain=False)
    bo, ds, acq = build(ctx, space, evaluator, 1, [loop_point(ctx, space, 'x0')], cap=1)
    c1, v1 = context_of(ctx, space, first)
    respected(ctx, space, bo.suggest_next_locations(context=c1), v1, 1)
    n, m = len(acq.table.log), len(ctx.lbfgs.calls)
    c2, v2 = context_of(ctx, space, second, 'again')
    S_ = bo.suggest_next_locations(context=c2) if second else bo.suggest_next_locations()
    respected(ctx, space, S_, v2, 1)
    only_in_context(ctx, space, acq.table.log[n:], v2)
    optimizer_calls(ctx, space, ctx.lbfgs.calls[m:], v2)
    last = ctx.lbfgs.calls[-1]
    if evaluator != 'random':
        # the free coordinates come from the optimizer or the anchor, not from the previous context
        enc = np.array(encode(space, list(S_[0])), dtype=object)
        want = ds.round_optimum(np.atleast_2d(expand(ctx, space, last['x'], v2)))
        ctx.check('free coordinates are those found by the optimizer', land(*[ctx.eq(enc[k], want[0, k], 1e-9) for k in range(model_dim(space))]))


def expand(ctx, space, x, vals):
    f = fixed_columns(space, vals)
    free = [k for k in range(model_dim(space)) if k not in f]
    row = [f[k] if k in f else x[free.index(k)] for k in range(model_dim(space))]
    return ctx.arr([row])


class Probe(object):
    """numerical optimizer which evaluates whatever it is given at one point"""

    def __init__(self, ctx, d):
        self.ctx = ctx
        self.x = ctx.reals('p', (d,), -2 * K, 2 * K)

    def optimize(self, x0, f=None, df=None, f_df=None):
        self.x0 = x0
        self.f = f(self.x.copy())
        self.fdf = f_df(self.x.copy()) if f_df is not None else None
        self.df = df(self.x.copy()) if df is not None else None
        return np.atleast_2d(self.x.copy()), np.atleast_2d(self.f)


@harness('C04', jobs=[dict(kinds=k, idx=i, grad=g) for k, i in CASES + [(['c', 'k2'], [])] for g in (True, False)])
def restricted(ctx, kinds, idx, grad):
    """function and gradient handed to the optimizer: the acquisition on the expanded vector, the gradient on the free coordinates"""
    space = make_space(ctx, kinds, sym_domain=False)
    ds = Design_space(space)
    context, vals = context_of(ctx, space, idx)
    cm = ContextManager(ds, context if idx else None)
    f = fixed_columns(space, vals)
    d = model_dim(space)
    free = [k for k in range(d) if k not in f]
    tab = Values(ctx)
    grads = []

    def f_df(x):
        g = ctx.reals('g%d' % len(grads), (np.atleast_2d(x).shape[0], d), -100, 100)
        grads.append((np.array(np.atleast_2d(x), dtype=object), g))
        return tab(x), g
    x0 = ctx.arr([[f.get(k, ctx.real('x0.%d' % k, -K, K)) for k in range(d)]])
    p = Probe(ctx, len(free))
    x, fx = apply_optimizer(p, x0.copy(), f=tab, df=None, f_df=f_df if grad else None, context_manager=cm, space=ds)
    only_in_context(ctx, space, tab.log + grads, vals)
    ctx.check('the starting point is the free part of the given one', ctx.eqv(p.x0, [x0[0, k] for k in free], 0))
    want = [f[k] if k in f else p.x[free.index(k)] for k in range(d)]
    ctx.check('the function is the acquisition at the expanded vector', land(*[ctx.eq(tab.log[0][0][0, k], want[k], 0) for k in range(d)]))
    ctx.check('its value is handed over', ctx.eqv(p.f, [tab.log[0][1][0]], 0))
    ctx.check('gradients are offered exactly when given', (p.fdf is not None) == grad)
    if grad:
        a, g = grads[0]
        ctx.check('the gradient is taken at the expanded vector', land(*[ctx.eq(a[0, k], want[k], 0) for k in range(d)]))
        ctx.check('the gradient is that of the free coordinates', ctx.eqs(p.fdf[1], [[g[0, k] for k in free]], 0))
        if p.df is not None:
            ctx.check('the gradient alone is that of the free coordinates', ctx.eqs(p.df, [[grads[-1][1][0, k] for k in free]], 0))
    ctx.check('the result carries the context', np.shape(x) == (1, d) and land(*[ctx.eq(x[0, k], v, 0) for k, v in f.items()]))
    ctx.check('the value of the returned point is reported', ctx.eqv(fx, [tab.log[-1][1][0]], 0))
    ctx.check('the returned point is the one scored', land(*[ctx.eq(tab.log[-1][0][0, k], x[0, k], 0) for k in range(d)]))


@harness('C04')
def unknown(ctx):
    """unknown context variables are rejected, named ones found"""
    space = make_space(ctx, ['c', 'k2'])
    bo, ds, acq = build(ctx, space, 'sequential', 1, [loop_point(ctx, space, 'x0')], cap=1)
    ctx.check('an unknown context variable is rejected', ctx.raises(InvalidVariableNameError, bo.suggest_next_locations, context={'nope': 1.0}) is not None)


@harness('C04', jobs=[dict(evaluator=e) for e in EVS], replays=6)
def loop(ctx, evaluator):
    """every location of a run with context carries it; the next run without does not"""
    space = make_space(ctx, ['c', 'c'], sym_domain=False)
    bo, ds, acq = build(ctx, space, evaluator, 1, [loop_point(ctx, space, 'x0')], cap=1)
    tab = Table(ctx)
    bo.objective = SingleObjective(tab)
    c, vals = context_of(ctx, space, [1])
    bo.run_optimization(max_iter=2, eps=-1, context=c)
    ctx.check('all iterations ran', len(tab.calls) == 2)
    for x in tab.calls:
        ctx.check('every evaluated location carries the context', ctx.eq(x[0, 1], vals[1], 0))
    n, m = len(acq.table.log), len(ctx.lbfgs.calls)
    bo.run_optimization(max_iter=1, eps=-1)
    optimizer_calls(ctx, space, ctx.lbfgs.calls[m:], {})
