"""Stub components (through GPyOpt's public base classes) for the harnesses which run the optimization loop."""
from checks.common import *
from GPyOpt.models.base import BOModel
from GPyOpt.acquisitions.base import AcquisitionBase
from GPyOpt.core.evaluators.base import EvaluatorBase
from GPyOpt.core.task.objective import Objective, SingleObjective
from GPyOpt.optimization.acquisition_optimizer import AcquisitionOptimizer
from GPyOpt.methods import ModularBayesianOptimization


class StubModel(BOModel):
    """records what it is trained on; two parameters whose values change with every update"""
    MCMC_sampler = False
    analytical_gradient_prediction = True

    def __init__(self, ctx, events=None, nparams=2):
        self.ctx = ctx
        self.updates = []
        self.events = events if events is not None else []
        self.model = None
        self.asked = 0
        self.nparams = nparams
        self.params = []

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        self.updates.append((np.array(X_all, dtype=object), np.array(Y_all, dtype=object), X_new, Y_new))
        self.events.append(('update', len(self.updates)))

    def predict(self, X):
        n = np.atleast_2d(X).shape[0]
        return np.zeros((n, 1)), np.ones((n, 1))

    def get_fmin(self):
        return 0.0

    def get_model_parameters(self):
        p = self.ctx.reals('param%d' % len(self.params), (1, self.nparams), -K, K)
        self.params.append(p)
        return p.copy()

    def get_model_parameters_names(self):
        return ['p%d' % i for i in range(self.nparams)]


class StubAcquisition(AcquisitionBase):
    analytical_gradient_prediction = False

    def _compute_acq(self, x):
        return np.zeros((x.shape[0], 1))


class StubEvaluator(EvaluatorBase):
    """each batch: arbitrary points of the domain, in model coordinates"""

    def __init__(self, ctx, space, acquisition, batch_size, events=None, point=None):
        super().__init__(acquisition, batch_size)
        self.ctx, self.sp = ctx, space
        self.batches = []
        self.events = events if events is not None else []
        self.managers = []
        self.point = point

    def compute_batch(self, duplicate_manager=None, context_manager=None):
        n = len(self.batches)
        rows = [(self.point or loop_point)(self.ctx, self.sp, 'b%d.%d' % (n, i)) for i in range(self.batch_size)]
        self.batches.append(rows)
        self.managers.append((duplicate_manager, context_manager))
        self.events.append(('suggest', n))
        return self.ctx.arr([encode(self.sp, r) for r in rows])


class Table(object):
    """objective function: any value for every call; records the locations it was called with"""

    def __init__(self, ctx, events=None, name='y', out=1):
        self.ctx = ctx
        self.calls = []
        self.values = []
        self.events = events if events is not None else []
        self.name = name

    def __call__(self, x):
        v = self.ctx.real('%s%d' % (self.name, len(self.values)), -K, K)
        self.calls.append(np.array(x, dtype=object).copy())
        self.values.append(v)
        self.events.append(('eval', len(self.calls) - 1))
        return self.ctx.arr([[v]])


def make_bo(ctx, space, model, X, Y=None, objective=None, batch_size=1, events=None, design=None, point=None, normalize_Y=False, **kw):
    ds = design or Design_space(space)
    acq = StubAcquisition(model, ds, AcquisitionOptimizer(ds))
    ev = StubEvaluator(ctx, space, acq, batch_size, events, point)
    bo = ModularBayesianOptimization(model, ds, objective, acq, ev, X, Y_init=Y, normalize_Y=normalize_Y, **kw)
    return bo


# long runs: most values are fixed (distinct, unordered), those in the slots are arbitrary
def filler(i):
    return float((37 * i + 11) % 1009) / 8.0 - 60.0


class LongTable(Table):
    def __init__(self, ctx, slots, events=None):
        super().__init__(ctx, events)
        self.slots = slots

    def __call__(self, x):
        i = len(self.values)
        if i in self.slots:
            return super().__call__(x)
        self.calls.append(np.array(x, dtype=object).copy())
        self.values.append(filler(i))
        self.events.append(('eval', len(self.calls) - 1))
        return self.ctx.arr([[filler(i)]])


def fixed_point(space, i):
    """i-th of a sequence of different points of the space"""
    out = []
    for j, (typ, dom, nm, w) in enumerate(columns(space)):
        if typ == 'continuous':
            out.append(dom[0] + (dom[1] - dom[0]) * (((29 + 2 * j) * i + 7 * j) % 997) / 1024.0)
        else:
            out.append(float(dom[(i + j) % len(dom)]))
    return out


class LongPoints(object):
    """suggested points, to be given as `point`"""

    def __init__(self, slots):
        self.slots, self.n = slots, 0

    def __call__(self, ctx, space, name):
        self.n += 1
        return loop_point(ctx, space, name) if self.n - 1 in self.slots else fixed_point(space, self.n + 500)
