"""C03: suggestions lie in the design space."""
from checks.suggest import *

BOUNDS = ['1-3 declared variables (up to 5 objective columns); batches of 1-3; the random designs of anchor candidates reduced to 2-3 points; domains symbolic in [-1000,1000]', 'evaluators called by the optimizer and directly, without a context']
ASSUMPTIONS = ['acquisition values, model predictions and random draws arbitrary; the numerical optimizer (fmin_l_bfgs_b, cma) returns any vector of the right length, inside the bounds or not', 'sizes of internally generated anchor designs (1000/10000/25000 points) are reduced: points are generated independently of each other']

SPACES = [['c'], ['d3'], ['k2'], ['b2,2'], ['c', 'd2'], ['k2', 'c'], ['b2,1', 'b2,1'], ['b2,2l'], ['d2', 'k2', 'c'], ['c2', 'd2x2']]
BIG = [['k3', 'c2', 'd2'], ['b2,2', 'b2,1'], ['k2x2', 'd3', 'c']]


def start(ctx, space, n=1):
    return [loop_point(ctx, space, 'x%d' % i) for i in range(n)]


NEED = dict(sequential=1, random=1, local_penalization=1)
EVS = ('random', 'thompson', 'local_penalization')


@harness('C03', jobs=[dict(kinds=k, evaluator='sequential', batch=1) for k in SPACES] + [dict(kinds=k, evaluator=e, batch=b) for k in SPACES[:6] for e in EVS for b in (1, 2) if k != ['b2,2'] or b == 1] +
         [dict(kinds=['d2', 'k2', 'c'], evaluator=e, batch=1) for e in EVS] + [dict(kinds=k, evaluator='sequential', batch=1, cap=2) for k in SPACES[:5] if k != ['b2,2']],
         thorough=[dict(kinds=k, evaluator=e, batch=b) for k in BIG for e in EVALUATORS for b in (1, 2) if b == 1 or e != 'sequential'] + [dict(kinds=['c'], evaluator=e, batch=3) for e in EVS], replays=6)
def suggestion(ctx, kinds, evaluator, batch, cap=None):
    """one suggestion, arbitrary acquisition and optimizer behaviour"""
    space = make_space(ctx, kinds)
    bo, ds, acq = build(ctx, space, evaluator, batch, start(ctx, space), cap=cap or (batch if evaluator == 'thompson' else max(1, batch - 1)))
    valid(ctx, space, bo.suggest_next_locations(), batch)


@harness('C03', jobs=[dict(kinds=k, evaluator=e) for k in (['c'], ['c', 'd2'], ['k2', 'c']) for e in ('sequential', 'random', 'thompson', 'local_penalization')], replays=6)
def without_gradients(ctx, kinds, evaluator):
    """models without analytical gradients; the optimizer may fail"""
    space = make_space(ctx, kinds)
    b = 2 if evaluator in ('random', 'local_penalization') else 1
    bo, ds, acq = build(ctx, space, evaluator, b, start(ctx, space), cap=1, gradients=False, failures=len(kinds) == 1)
    valid(ctx, space, bo.suggest_next_locations(), b)


@harness('C03', jobs=[dict(kinds=k, evaluator=e) for k in (['c'], ['d3'], ['k2', 'c'], ['b2,2']) for e in EVALUATORS], replays=6)
def evaluator_alone(ctx, kinds, evaluator):
    """batches collected by calling the evaluator directly, without a context"""
    space = make_space(ctx, kinds)
    b = 2 if evaluator in ('random', 'local_penalization') and kinds != ['b2,2'] else 1
    bo, ds, acq = build(ctx, space, evaluator, b, start(ctx, space), cap=1)
    B = bo.evaluator.compute_batch()
    ok = np.shape(B) == (b, model_dim(space))
    ctx.check('one row per requested batch element, in model coordinates', ok)
    if ok:
        valid(ctx, space, ds.zip_inputs(B), b)


class Cma(object):
    def __init__(self, ctx):
        import cma
        self.ctx, self.n = ctx, 0
        ctx.patch(cma, 'fmin', self.fmin)
        self.calls = []

    def fmin(self, f, x0, sigma0, options=None, **kw):
        self.n += 1
        x = self.ctx.reals('cma%d' % self.n, (np.size(x0),), -2 * K, 2 * K)
        v = f(x)
        self.calls.append((x, v, x0, options))
        return (x, v[0] if np.ndim(v) else v) + (None,) * 8


@harness('C03', jobs=[dict(kinds=k) for k in (['c2'], ['c', 'd2'], ['k2', 'c'], ['b2,2'])], replays=6)
def cma(ctx, kinds):
    """the CMA optimizer"""
    space = make_space(ctx, kinds)
    Cma(ctx)
    bo, ds, acq = build(ctx, space, 'sequential', 1, start(ctx, space), cap=1, optimizer='CMA')
    valid(ctx, space, bo.suggest_next_locations(), 1)


@harness('C03', jobs=[dict(kinds=k, evaluator=e) for k in (['c'], ['d2', 'c'], ['k2', 'c']) for e in ('sequential', 'random', 'thompson', 'local_penalization') if k != ['k2', 'c'] or e in ('sequential', 'random')],
         thorough=[dict(kinds=['k2', 'c'], evaluator=e) for e in ('thompson', 'local_penalization')], replays=6)
def loop(ctx, kinds, evaluator):
    """every location evaluated during a run lies in the space"""
    space = make_space(ctx, kinds, sym_domain=False)
    b = 1 if evaluator == 'sequential' else 2
    bo, ds, acq = build(ctx, space, evaluator, b, start(ctx, space), cap=b if evaluator == 'thompson' else 1, inside=False)
    tab = Table(ctx)
    bo.objective = SingleObjective(tab)
    bo.run_optimization(max_iter=1, eps=-1)
    ctx.check('every location was recorded', np.shape(bo.X) == (1 + b, obj_dim(space)) and len(tab.calls) == b)
    for c in tab.calls:
        ctx.check('evaluated location lies in the design space', in_objective_domain(ctx, space, list(c[0]), 1e-9))


@harness('C03', known='Thompson-without-gradients')
def thompson_model_without_gradients(ctx):
    """probe of the recorded finding: Thompson sampling with a model which has no gradients"""
    from GPyOpt.acquisitions import AcquisitionEI
    space = make_space(ctx, ['c'])
    bo, ds, acq = build(ctx, space, 'thompson', 1, start(ctx, space), cap=1, gradients=False)
    ei = AcquisitionEI(bo.model, ds, acq.optimizer)
    bo = ModularBayesianOptimization(bo.model, ds, None, ei, EVALUATORS['thompson'](ei, 1), bo.X, Y_init=bo.Y, normalize_Y=False)
    ok, S_ = True, None
    try:
        S_ = bo.suggest_next_locations()
    except TypeError:
        ok = False
    ctx.check('Thompson sampling accepts models without gradients', ok)
    if ok:
        valid(ctx, space, S_, 1)
