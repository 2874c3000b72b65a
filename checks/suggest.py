"""Shared pieces of the harnesses on suggestions (C03-C06, C15)."""
from checks.loop import *
from symx import env
from GPyOpt.acquisitions import AcquisitionLP
from GPyOpt.core.evaluators import Sequential, RandomBatch, ThompsonBatch, LocalPenalization

EVALUATORS = dict(sequential=Sequential, random=RandomBatch, thompson=ThompsonBatch, local_penalization=LocalPenalization)


class Values(object):
    """arbitrary acquisition values: a fresh value for every row of every call"""

    def __init__(self, ctx, name='a', lo=-100, hi=100):
        self.ctx, self.name, self.lo, self.hi = ctx, name, lo, hi
        self.n = 0
        self.log = []

    def __call__(self, x):
        x = np.atleast_2d(x)
        k, self.n = self.n, self.n + 1
        v = [self.ctx.real('%s%d.%d' % (self.name, k, i), self.lo, self.hi) for i in range(x.shape[0])]
        self.log.append((np.array(x, dtype=object).copy(), v))
        return self.ctx.arr([[t] for t in v])


class Acq(AcquisitionBase):
    """acquisition whose values are `table(x)`; gradients arbitrary"""
    analytical_gradient_prediction = True

    def __init__(self, model, space, optimizer, table, cost=None):
        self.table = table
        self.gradients = 0
        super().__init__(model, space, optimizer, cost)

    def _compute_acq(self, x):
        return -self.table(x)

    def _compute_acq_withGradients(self, x):
        x = np.atleast_2d(x)
        self.gradients += 1
        g = self.table.ctx.reals('grad%d' % self.gradients, x.shape, -100, 100)
        return -self.table(x), g


class LPAcq(AcquisitionLP):
    """penalized acquisition with arbitrary values; records the penalized sets"""

    def __init__(self, model, space, optimizer, table):
        self.table = table
        self.sets = []
        self.asked = []
        super().__init__(model, space, optimizer, Acq(model, space, optimizer, table))

    def acquisition_function(self, x):
        return self.table(x)

    def acquisition_function_withGradients(self, x):
        x = np.atleast_2d(x)
        return self.table(x), self.table.ctx.reals('lpgrad%d' % self.table.n, x.shape, -100, 100)

    def update_batches(self, X_batch, L, Min):
        self.sets.append(None if X_batch is None else np.array(X_batch, dtype=object).copy())

    def optimize(self, duplicate_manager=None):
        self.asked.append(len(self.sets))
        return super().optimize(duplicate_manager=duplicate_manager)


class Inner(object):
    """the underlying model of a wrapper, as the local-penalization evaluator uses it"""

    def __init__(self, ctx, X, Y):
        self.ctx, self.X, self.Y = ctx, X, Y
        self.n = 0

    def predictive_gradients(self, x):
        x = np.atleast_2d(x)
        self.n += 1
        return np.ones(x.shape + (1,)), np.zeros(x.shape)


class PModel(StubModel):
    """arbitrary predictions"""
    npred = 0

    def predict(self, X):
        n = np.atleast_2d(X).shape[0]
        self.npred += 1
        return self.ctx.reals('pm%d' % self.npred, (n, 1), -10, 10), self.ctx.reals('ps%d' % self.npred, (n, 1), 0.1, 10)

    def get_model_parameters(self):
        return np.zeros((1, 1))


def patch_everywhere(ctx, fn, new):
    """replace the function object wherever a GPyOpt module holds it"""
    import sys
    for nm, m in list(sys.modules.items()):
        if nm.split('.')[0] == 'GPyOpt' and m is not None:
            for k, v in list(getattr(m, '__dict__', {}).items()):
                if v is fn:
                    ctx.patch(m, k, new)


def cap_samples(ctx, cap):
    """hundreds of uniform samples are reduced to `cap` wherever a GPyOpt module holds such a function (env.Rand(tile=) covers any other way to draw them)"""
    import sys
    for nm, m in list(sys.modules.items()):
        if nm.split('.')[0] == 'GPyOpt' and m is not None:
            for k, v in list(getattr(m, '__dict__', {}).items()):
                if getattr(v, '__name__', '') == 'samples_multidimensional_uniform':
                    few = lambda n: min(n, cap) if isinstance(n, int) and n >= 100 else n
                    ctx.patch(m, k, lambda *a, _o=v, **kw: _o(*[few(n) for n in a], **{q: few(n) for q, n in kw.items()}))


def stub_lp(ctx, cap=1):
    """few samples for the Lipschitz estimate, arbitrary outcome of its optimization"""
    import scipy.optimize
    cap_samples(ctx, cap)
    ctx.rand.tile = cap

    class Res(object):
        def __init__(self, x, fun):
            self.x, self.fun = x, fun

    def minimize(fun, x0, args=(), **kw):
        minimize.n += 1
        return Res(x0, ctx.choice('minusL%d' % minimize.n, [-2.0, 0.0]))
    minimize.n = 0
    ctx.patch(scipy.optimize, 'minimize', minimize)


def build(ctx, space, evaluator, batch, X0, cap=2, inside=False, dedup=False, optimizer='lbfgs', constraints=None, table=None, evaluate=True, failures=False, gradients=True):
    """BO object over `space` with the real evaluator and acquisition optimizer"""
    ctx.rand = env.Rand(ctx, spread=3)
    ctx.designs = env.cap_designs(ctx, cap)
    ctx.lbfgs = env.Lbfgs(ctx, inside=inside, evaluate=evaluate, failures=failures)
    ds = Design_space([dict(d) for d in space], constraints)
    table = table or Values(ctx)
    model = PModel(ctx)
    model.analytical_gradient_prediction = gradients
    X = ctx.arr(X0)
    Y = ctx.reals('y', (len(X0), 1), -K, K)
    opt = AcquisitionOptimizer(ds, optimizer)
    if evaluator == 'local_penalization':
        stub_lp(ctx)
        model.model = Inner(ctx, ctx.arr([encode(space, r) for r in X0]), Y)
        acq = LPAcq(model, ds, opt, table)
    else:
        acq = Acq(model, ds, opt, table)
    ev = EVALUATORS[evaluator](acq, batch)
    bo = ModularBayesianOptimization(model, ds, None, acq, ev, X, Y_init=Y, normalize_Y=False, de_duplication=dedup)
    return bo, ds, acq


def valid(ctx, space, S_, batch, fixed=None):
    """the suggested batch has the right shape and lies in the domain"""
    n = obj_dim(space)
    ok = np.shape(S_) == (batch, n)
    ctx.check('one row per requested batch element and one column per objective coordinate', ok)
    if not ok:
        return
    for i in range(batch):
        ctx.check('suggested location lies in the design space', in_objective_domain(ctx, space, [S_[i, j] for j in range(n)], 1e-9))
