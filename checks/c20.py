"""C20: configurations, component choosers and experiment files."""
import json, os, tempfile, shutil
from checks.suggest import *
from checks.c17 import World
from symx import env
import GPyOpt
from GPyOpt.interface import config_parser
from GPyOpt.interface.config_parser import update_config, parser, default_config
from GPyOpt.interface import BODriver, load_objective
from GPyOpt.methods import BayesianOptimization
from GPyOpt.models import GPModel, GPModel_MCMC, RFModel, WarpedGPModel, InputWarpedGPModel, select_model
from GPyOpt.acquisitions import (AcquisitionEI, AcquisitionEI_MCMC, AcquisitionMPI, AcquisitionMPI_MCMC, AcquisitionLCB, AcquisitionLCB_MCMC, AcquisitionLP, select_acquisition)
from GPyOpt.core.evaluators import Sequential, RandomBatch, LocalPenalization, ThompsonBatch, select_evaluator
from GPyOpt.util.arguments_manager import ArgumentsManager
from GPyOpt.core.task.cost import CostModel

BOUNDS = ['default configurations of 4 keys and up to 3 levels; at every key the user gives nothing, a number, None, a list, an empty, flat or nested dictionary; all numbers symbolic', 'every documented component name, every keyword argument present or absent with a symbolic value']
ASSUMPTIONS = ['component parameters are numbers of any value; GPy, random numbers are stubs; experiment files contain concrete JSON values']


# ---------------------------------------------------------------- configuration merging
def merged(new, default):
    """user values win, missing ones are filled"""
    out = dict(default)
    for k, v in new.items():
        out[k] = merged(v, default[k]) if isinstance(v, dict) and isinstance(default.get(k), dict) else v
    return out


def same(ctx, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and land(*[same(ctx, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and land(*[same(ctx, x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
    return ctx.eq(a, b, 0)


def deep(v):
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, list):
        return [deep(x) for x in v]
    return v


ABSENT = object()


def user_value(ctx, nm, kinds, inner):
    k = ctx.choice('kind.' + nm, kinds)
    if k == 'absent':
        return ABSENT
    if k == 'number':
        return ctx.real('user.' + nm, -K, K)
    if k == 'list':
        return [ctx.real('user.' + nm, -K, K)]
    if k == 'none':
        return None
    if k == 'empty':
        return {}
    d = {}
    for q in inner:
        v = user_value(ctx, nm + '.' + q, ('absent', 'number') if k == 'flat' else ('number', 'flat'), ['x', 'new'])
        if v is not ABSENT:
            d[q] = v
    return d


@harness('C20', jobs=[dict(first=f, second=s) for f in ('absent', 'number', 'none', 'list', 'empty', 'flat', 'nested') for s in ('absent', 'number', 'flat')],
         thorough=[dict(first=f, second=s) for f in ('flat', 'nested') for s in ('none', 'list', 'empty', 'nested')], replays=10)
def merging(ctx, first, second):
    """merging a configuration with defaults"""
    r = ctx.real
    default = {'sub': {'x': r('d.x', -K, K), 'y': {'x': r('d.yx', -K, K), 'z': r('d.yz', -K, K)}}, 'num': r('d.num', -K, K), 'none': None, 'list': [r('d.l', -K, K)]}
    user = {}
    for nm, kinds in (('sub', (first,)), ('none', ('absent', 'flat')), ('num', (second,)), ('extra', ('absent', 'flat') if first in ('flat', 'number') else ('absent',)), ('list', ('absent', 'number'))):
        v = user_value(ctx, nm, kinds, ['x', 'y', 'w'] if nm == 'sub' else ['x'])
        if v is not ABSENT:
            user[nm] = v
    want, before = merged(user, default), deep(user)
    got = update_config(user, deep(default))
    ctx.check('user values win and missing values are filled', same(ctx, got, want))
    ctx.check('the user configuration is left unchanged', same(ctx, user, before))


FILES = [{}, {'model': {'type': 'GP_MCMC'}}, {'model': {'num_inducing': 3}, 'language': 'MATLAB'}, {'acquisition': {'optimizer': {'name': 'CMA', 'popsize': 7}}},
         {'acquisition': {'type': 'LCB', 'evaluator': {'type': 'random', 'batch_size': 4}}, 'resources': {'max-run-time': 3}},
         {'output': {'Ybest': {'interval': 5}, 'verbosity': True}, 'constraints': [{'name': 'c', 'constraint': 'x[:,0]-1'}]},
         {'experiment-name': 'mine', 'space': [{'name': 'a', 'type': 'continuous', 'domain': '(0,1)', 'dimensionality': '2'}], 'initialization': {'num-eval': 9}}]


@harness('C20', jobs=[dict(second=i) for i in range(len(FILES))])
def experiment_files(ctx, second):
    """reading experiment files: two in a row, then a missing and a malformed one"""
    d = tempfile.mkdtemp()
    try:
        before = deep(default_config)
        first = ctx.choice('first', FILES)
        for i, c in enumerate((first, FILES[second])):
            p = os.path.join(d, 'c%d.json' % i)
            with open(p, 'w') as f:
                json.dump(c, f)
            got = parser(p)
            ctx.check('the file merged with the defaults', same(ctx, got, merged(c, before)))
            ctx.check('defaults are left unchanged', same(ctx, default_config, before))
            # what is done to the result does not reach the defaults
            got['model']['type'] = 'changed'
            got['acquisition']['optimizer']['name'] = 'changed'
            got['output']['Ybest']['interval'] = -7
            ctx.check('defaults do not share data with the result', same(ctx, default_config, before))
        ctx.check('missing files are rejected', ctx.raises(Exception, parser, os.path.join(d, 'none.json')) is not None)
        with open(os.path.join(d, 'bad.json'), 'w') as f:
            f.write('{"model": ')
        ctx.check('malformed files are rejected', ctx.raises(Exception, parser, os.path.join(d, 'bad.json')) is not None)
    finally:
        shutil.rmtree(d)


@harness('C20')
def objective_files(ctx):
    """the objective of an experiment file"""
    d, cwd = os.path.realpath(tempfile.mkdtemp()), os.getcwd()
    try:
        for nm, op in (('prob', '+'), ('other', '*')):
            with open(os.path.join(d, nm + '.py'), 'w') as f:
                f.write('def helper(x):\n    return None\ndef %s(x):\n    return x %s 3\n' % (nm, op))
        x = ctx.real('x', -K, K)
        for lang in ('PYTHON', 'python'):
            f = load_objective({'prjpath': d, 'main-file': 'prob.py', 'language': lang})
            g = load_objective({'prjpath': d, 'main-file': 'other.py', 'language': lang})
            ctx.check('the function named like the file is loaded', land(ctx.eq(f(x), x + 3), ctx.eq(g(x), x * 3)))
        ctx.check('a main file is required', ctx.raises(Exception, load_objective, {'prjpath': d, 'language': 'PYTHON'}) is not None)
        ctx.check('other file types are rejected', ctx.raises(Exception, load_objective, {'prjpath': d, 'main-file': 'prob.m', 'language': 'PYTHON'}) is not None)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


# ---------------------------------------------------------------- component choosers
def space_of(ctx):
    return Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 1), 'dimensionality': 2}])


def options(ctx, names):
    """each option present or absent (one common choice per group), with any value"""
    kw = {}
    for group in names:
        if ctx.choice('given.' + group[0], [False, True]):
            for n in group:
                kw[n] = ctx.real('opt.' + n, -K, K)
    return kw


MODELS = {
    'GP': (GPModel, dict(kernel=None, noise_var=None, optimizer='lbfgs', max_iters=1000, optimize_restarts=5, num_inducing=10, verbose=False, ARD=False, sparse=False)),
    'sparseGP': (GPModel, dict(kernel=None, noise_var=None, optimizer='lbfgs', max_iters=1000, optimize_restarts=5, num_inducing=10, verbose=False, ARD=False, sparse=True)),
    'GP_MCMC': (GPModel_MCMC, dict(kernel=None, noise_var=None, n_samples=10, n_burnin=100, subsample_interval=10, step_size=1e-1, leapfrog_steps=20, verbose=False)),
    'RF': (RFModel, dict(verbose=False)),
    'warpedGP': (WarpedGPModel, dict(kernel=None, noise_var=None, optimizer='lbfgs', max_iters=1000, optimize_restarts=5, verbose=False)),
    'input_warped_GP': (InputWarpedGPModel, dict(kernel=None, noise_var=None, optimizer='lbfgs', max_iters=1000, optimize_restarts=5, verbose=False, ARD=False, warping_function=None)),
}
MODELS['InputWarpedGP'] = MODELS['input_warped_GP']
KWARG = dict(optimizer='model_optimizer_type', verbose='verbosity_model')
GROUPS = [('kernel', 'noise_var', 'ARD'), ('model_optimizer_type', 'max_iters', 'optimize_restarts'), ('verbosity_model', 'num_inducing', 'n_samples', 'n_burnin'), ('subsample_interval', 'step_size', 'leapfrog_steps')]


def attr_is(ctx, a, b):
    if a is b:
        return True
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) == type(b) and a == b
    return ctx.eq(a, b, 0)


@harness('C20', jobs=[dict(kind=k) for k in MODELS])
def models(ctx, kind):
    """model chooser"""
    kw = options(ctx, GROUPS)
    exact = ctx.choice('exact', [False, True])
    sp = space_of(ctx)
    m = ArgumentsManager(kw).model_creator(kind, exact, sp)
    cls, defaults = MODELS[kind]
    ctx.check('the requested type of model', type(m) is cls)
    for a, v in defaults.items():
        ctx.check('model parameters are those requested, otherwise the documented defaults', attr_is(ctx, getattr(m, a), kw.get(KWARG.get(a, a), v)))
    if kind != 'RF':
        ctx.check('exactness of the evaluations is passed to the model', m.exact_feval is exact)
    if 'nput' in kind:
        ctx.check('the model knows the space', m.space is sp)


ACQ = {None: (AcquisitionEI, 'jitter'), 'EI': (AcquisitionEI, 'jitter'), 'MPI': (AcquisitionMPI, 'jitter'), 'LCB': (AcquisitionLCB, 'exploration_weight'),
       'EI_MCMC': (AcquisitionEI_MCMC, 'jitter'), 'MPI_MCMC': (AcquisitionMPI_MCMC, 'jitter'), 'LCB_MCMC': (AcquisitionLCB_MCMC, 'exploration_weight')}


@harness('C20', jobs=[dict(kind=k) for k in ACQ] + [dict(kind='other')])
def acquisitions(ctx, kind):
    """acquisition chooser"""
    kw = options(ctx, [('acquisition_jitter',), ('acquisition_weight',)])
    sp = space_of(ctx)
    m = StubModel(ctx)
    m.MCMC_sampler = str(kind).endswith('MCMC')
    opt = AcquisitionOptimizer(sp)
    g = ctx.real('cost', 1, 5)

    def cost(x):
        return g * np.ones((x.shape[0], 1)), np.zeros(x.shape)
    am = ArgumentsManager(kw)
    if kind == 'other':
        ctx.check('unknown acquisitions are rejected', ctx.raises(Exception, am.acquisition_creator, 'UCB', m, sp, opt, cost) is not None and ctx.raises(Exception, select_acquisition, 'UCB') is not None)
        return
    a = am.acquisition_creator(kind, m, sp, opt, cost)
    cls, par = ACQ[kind]
    ctx.check('the requested type of acquisition', type(a) is cls)
    ctx.check('acquisition parameter is the one requested, otherwise the documented default', attr_is(ctx, getattr(a, par), kw.get('acquisition_jitter', 0.01) if par == 'jitter' else kw.get('acquisition_weight', 2)))
    ctx.check('acquisition uses the given model, space and optimizer', a.model is m and a.space is sp and a.optimizer is opt)
    if par == 'jitter':
        c, dc = a.cost_withGradients(ctx.arr([[0.5, 0.5]]))
        ctx.check('acquisition uses the given cost', ctx.eqv(c, ctx.arr([g])))
    if kind is not None:
        ctx.check('selection by name', select_acquisition(kind) is cls)
    w = ctx.real('w', -K, K)
    b = cls.fromConfig(m, sp, opt, None, {'type': kind, 'jitter': w, 'exploration_weight': w})
    ctx.check('from a configuration: the requested type with its parameter', land(type(b) is cls, attr_is(ctx, getattr(b, par), w), b.model is m, b.space is sp, b.optimizer is opt))


@harness('C20', jobs=[dict(kind=k, batch=b) for k in (None, 'sequential', 'random', 'thompson_sampling', 'local_penalization', 'unknown') for b in (1, 2, 3)])
def evaluators(ctx, kind, batch):
    """evaluator chooser"""
    sp = space_of(ctx)
    m = StubModel(ctx)
    opt = AcquisitionOptimizer(sp)
    a = ctx.choice('penalized', [False, True])
    ei = AcquisitionEI(m, sp, opt)
    acq = AcquisitionLP(m, sp, opt, ei) if a else ei
    tr = ctx.choice('transform', [None, 'softplus', 'none'])
    mt = ctx.choice('model_type', ['GP', 'sparseGP', 'warpedGP', 'RF'])
    am = ArgumentsManager({} if tr is None else {'acquisition_transformation': tr})
    args = (kind, acq, batch, mt, m, sp, opt)
    if batch == 1 or kind == 'sequential':
        e = am.evaluator_creator(*args)
        ctx.check('one location at a time', type(e) is Sequential and e.acquisition is acq and e.batch_size == 1)
        return
    if kind == 'unknown' or (kind == 'local_penalization' and mt == 'RF'):
        ctx.check('impossible choices are rejected', ctx.raises(Exception, am.evaluator_creator, *args) is not None)
        return
    e = am.evaluator_creator(*args)
    cls = {None: RandomBatch, 'random': RandomBatch, 'thompson_sampling': ThompsonBatch, 'local_penalization': LocalPenalization}[kind]
    ctx.check('the requested type of evaluator', type(e) is cls)
    ctx.check('the requested batch size', e.batch_size == batch)
    if kind != 'local_penalization':
        ctx.check('the given acquisition is used', e.acquisition is acq)
        return
    ctx.check('a penalized version of the given acquisition', isinstance(e.acquisition, AcquisitionLP) and e.acquisition.acq is ei)
    ctx.check('a penalized acquisition is used as it is', not a or e.acquisition is acq)
    ctx.check('transformation as requested', a or e.acquisition.transform == (tr or 'none'))


@harness('C20')
def selectors(ctx):
    """selection by name"""
    for nm, c in (('GP', GPModel), ('GP_MCMC', GPModel_MCMC), ('RF', RFModel), ('warpGP', WarpedGPModel)):
        ctx.check('model by name', select_model(nm) is c)
    for nm, c in (('sequential', Sequential), ('random', RandomBatch), ('local_penalization', LocalPenalization), ('thompson_sampling', ThompsonBatch)):
        ctx.check('evaluator by name', select_evaluator(nm) is c)
    ctx.check('unknown names are rejected', ctx.raises(Exception, select_model, 'gp') is not None and ctx.raises(Exception, select_evaluator, 'batch') is not None)


# ---------------------------------------------------------------- the facade
@harness('C20', jobs=[dict(model=m, acq=a) for m, a in (('GP', 'EI'), ('GP', 'LCB'), ('sparseGP', 'MPI'), ('GP_MCMC', 'EI_MCMC'), ('GP_MCMC', 'LCB_MCMC'), ('warpedGP', 'EI'), ('input_warped_GP', 'MPI'), ('RF', 'EI'))])
def facade(ctx, model, acq):
    """BayesianOptimization: all choices reach the components"""
    World(ctx)
    rnd = env.Rand(ctx)
    j, w, nv = ctx.real('jitter', -K, K), ctx.real('weight', -K, K), ctx.real('noise', 0, K)
    f = Table(ctx)
    flags = ctx.choice('flags', [False, True])
    n0 = ctx.choice('n0', [1, 3])
    evalr, batch = ctx.choice('evaluator', [('sequential', 1), ('random', 2), ('thompson_sampling', 3), ('local_penalization', 2)] if model not in ('RF', 'input_warped_GP') else [('sequential', 1), ('random', 2)])
    bo = BayesianOptimization(f, [{'name': 'a', 'type': 'continuous', 'domain': (0, 1), 'dimensionality': 2}], model_type=model, acquisition_type=acq, acquisition_jitter=j, acquisition_weight=w, noise_var=nv,
                              initial_design_numdata=n0, evaluator_type=evalr, batch_size=batch, exact_feval=flags, maximize=flags, normalize_Y=not flags, de_duplication=flags, model_update_interval=n0,
                              acquisition_optimizer_type='CMA' if flags else 'lbfgs', objective_name='mine', num_cores=1)
    ctx.check('model as requested', type(bo.model) is MODELS[model][0] and (model == 'RF' or bo.model.exact_feval is flags))
    if model in ('GP', 'sparseGP'):
        ctx.check('sparsity as requested', bo.model.sparse == (model == 'sparseGP'))
    if model != 'RF':
        ctx.check('model parameters as requested', attr_is(ctx, bo.model.noise_var, nv))
    ev = {'sequential': Sequential, 'random': RandomBatch, 'thompson_sampling': ThompsonBatch, 'local_penalization': LocalPenalization}[evalr]
    ctx.check('evaluator and batch size as requested', type(bo.evaluator) is ev and bo.evaluator.batch_size == batch)
    cls, par = ACQ[acq]
    ctx.check('acquisition as requested', land(type(bo.acquisition) is cls, attr_is(ctx, getattr(bo.acquisition, par), j if par == 'jitter' else w)))
    ctx.check('acquisition and model belong together', bo.acquisition.model is bo.model and bo.acquisition.space is bo.space)
    ctx.check('acquisition optimizer as requested', bo.acquisition.optimizer.optimizer_name == ('CMA' if flags else 'lbfgs'))
    ctx.check('initial design as requested', np.shape(bo.X) == (n0, 2) and np.shape(bo.Y) == (n0, 1) and len(f.calls) == n0)
    ctx.check('maximization as requested', land(*[ctx.eq(bo.Y[i, 0], (-1 if flags else 1) * f.values[i], 0) for i in range(n0)]))
    ctx.check('switches as requested', bool(bo.normalize_Y) == (not flags) and bool(bo.de_duplication) == flags and bo.model_update_interval == n0 and bo.objective.objective_name == 'mine')
    d = BayesianOptimization(Table(ctx, name='z'), [{'name': 'a', 'type': 'continuous', 'domain': (0, 1)}])
    ctx.check('documented defaults', type(d.model) is GPModel and not d.model.sparse and not d.model.exact_feval and type(d.acquisition) is AcquisitionEI and ctx.eq(d.acquisition.jitter, 0.01) and type(d.evaluator) is Sequential
              and d.acquisition.optimizer.optimizer_name == 'lbfgs' and d.normalize_Y and not d.maximize and not d.de_duplication and d.model_update_interval == 1 and np.shape(d.X) == (5, 1) and d.num_cores == 1 and d.batch_size == 1)


@harness('C20')
def rejected(ctx):
    """unknown names are rejected by the facade"""
    World(ctx)
    env.Rand(ctx)
    sp = [{'name': 'a', 'type': 'continuous', 'domain': (0, 1)}]
    for i, kw in enumerate((dict(model_type='gauss'), dict(acquisition_type='UCB'), dict(evaluator_type='parallel', batch_size=2), dict(initial_design_type='factorial'))):
        ctx.check('unknown choices are rejected', ctx.raises(Exception, BayesianOptimization, Table(ctx, name='f%d' % i), sp, **kw) is not None)
    from GPyOpt.core.errors import InvalidConfigError
    given = AcquisitionEI(StubModel(ctx), Design_space(sp))
    ctx.check('unknown models are rejected whatever else is given', ctx.raises(Exception, BayesianOptimization, Table(ctx, name='g'), sp, model_type='gauss', acquisition=given) is not None)
    ctx.check('without objective initial data are required', ctx.raises(InvalidConfigError, BayesianOptimization, None, sp) is not None and ctx.raises(InvalidConfigError, BayesianOptimization, None, sp, X=ctx.reals('x', (1, 1), 0, 1)) is not None)


# ---------------------------------------------------------------- the driver
@harness('C20', jobs=[dict(model=m, acq=a, ev=e) for m, a, e in (('GP', 'EI', 'sequential'), ('GP_MCMC', 'EI_MCMC', 'sequential'), ('GP', 'LCB', 'random'), ('GP_MCMC', 'LCB_MCMC', 'thompson_sampling'), ('warpGP', 'MPI', 'random'), ('GP_MCMC', 'MPI_MCMC', 'sequential'))])
def driver(ctx, model, acq, ev):
    """an experiment: components and limits of the configuration"""
    World(ctx)
    env.Rand(ctx, spread=3)
    conf = deep(default_config)
    given = ctx.choice('constraints', [[], [{'name': 'c', 'constraint': 'x[:,0] - 5'}]])
    par = ctx.real('par', -K, K)
    eps, mins = ctx.real('eps', 0, K), ctx.choice('minutes', ['NA', ctx.real('mins', 0.1, 100)])
    iters = 0
    user = {'space': [{'name': 'a', 'type': 'continuous', 'domain': '(0,1)', 'dimensionality': '2'}, {'name': 'k', 'type': 'discrete', 'domain': '(1,2,4)', 'dimensionality': 1}], 'constraints': given,
            'model': {'type': model}, 'acquisition': {'type': acq, 'jitter': par, 'exploration_weight': par, 'evaluator': {'type': ev, 'batch_size': 2} if ev != 'sequential' else {'type': ev}},
            'resources': {'maximum-iterations': iters, 'max-run-time': mins, 'tolerance': eps, 'cores': 1}, 'initialization': {'type': 'random', 'num-eval': 3}}
    conf = update_config(user, conf)
    before = deep(conf)
    f = Table(ctx)
    for rnd in range(2):
        del f.calls[:]
        bo = BODriver(conf, f).run()
        ctx.check('the configuration is left unchanged', same(ctx, conf, before))
        ctx.check('model of the configuration', type(bo.model) is select_model(model))
        cls, nm = ACQ[acq]
        ctx.check('acquisition of the configuration', land(type(bo.acquisition) is cls, attr_is(ctx, getattr(bo.acquisition, nm), par), bo.acquisition.model is bo.model))
        ctx.check('evaluator of the configuration', type(bo.evaluator) is select_evaluator(ev) and bo.evaluator.batch_size == (1 if ev == 'sequential' else 2))
        ctx.check('space of the configuration', len(bo.space.space_expanded) == 3 and bo.space.get_bounds() == [(0, 1), (0, 1), (1, 4)] and bo.space.has_constraints() == bool(given))
        ctx.check('initial design of the configuration', np.shape(bo.X) == (3, 3) and len(f.calls) == 3)
        ctx.check('limits of the configuration', land(bo.max_iter == iters, ctx.eq(bo.max_time, np.inf if mins == 'NA' else mins * 60), attr_is(ctx, bo.eps, eps)))
        ctx.check('objective of the configuration', bo.objective.n_procs == 1)


@harness('C20')
def driver_limits(ctx):
    """no limit on the number of iterations"""
    World(ctx)
    env.Rand(ctx, spread=3)
    conf = update_config({'space': [{'name': 'k', 'type': 'discrete', 'domain': '(1,2,4)', 'dimensionality': 1}], 'resources': {'maximum-iterations': 'NA', 'tolerance': 10.0, 'cores': 3, 'max-run-time': 5}, 'initialization': {'num-eval': 2}}, deep(default_config))

    class Obj(object):
        def __init__(s, func, num_cores=1, *a, **k):
            s.n_procs = num_cores

        def evaluate(s, x):
            return ctx.reals('y', (x.shape[0], 1), -K, K), [1.0] * x.shape[0]
    patch_everywhere(ctx, SingleObjective, Obj)
    bo = BODriver(conf, Table(ctx)).run()
    ctx.check('no limit on the number of iterations', bo.max_iter == np.inf and bo.max_time == 300)
    ctx.check('cores of the configuration', bo.objective.n_procs == 3)
