"""writes /verif/properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=False))
    if state: d['anchors']['state'] = state
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

p('C01', 'Rounding returns the closest point of the design space',
  'Rounding an arbitrary model-space vector onto a design space returns exactly one point of that space: continuous coordinates are clipped to their bounds, discrete coordinates become a closest listed value, categorical blocks become one-hot at a largest entry, bandit blocks become a closest arm. A point already in the space is returned unchanged, rounding twice equals rounding once, and the argument is not modified.',
  ['inputs', 'configurations'], 'every space declaration (variable kinds, dimensionalities, domain values) and every real vector, including values outside the bounds, ties and unsorted value lists',
  'The tests round a dozen hand-picked vectors; membership must survive every tie, order of values, bound coincidence and mix of block widths.',
  ['GPyOpt/core/task/space.py', 'GPyOpt/core/task/variables.py'],
  [('round_optimum', 'space.py Design_space.round_optimum'), ('per-kind rounding', 'variables.py *.round')], observe='returned row')

p('C02', 'Model and objective encodings are inverse and consistently laid out',
  'For every design space, encoding a domain point into model coordinates and decoding it back gives the same point, the encoding of a categorical value is the one-hot vector of its category and all other coordinates are copied in order. Dimensionality expansion, names, variable lookup, per-variable indices, bounds, continuous/discrete listings, sub-spaces and the expanded configuration all describe that same layout; constructing a space does not modify the variable declarations given to it, and invalid declarations are rejected.',
  ['inputs', 'configurations'], 'every mix and order of continuous, discrete, categorical and bandit declarations with dimensionality >= 1 and every domain point',
  'Index bookkeeping only breaks for particular orders and widths of variables (a categorical before another variable, repeated variables, unnamed ones); tests cover a few fixed layouts.',
  ['GPyOpt/core/task/space.py', 'GPyOpt/core/task/variables.py'],
  [('encode/decode', 'space.py unzip_inputs/zip_inputs/objective_to_model/model_to_objective'), ('layout', 'space.py _expand_space/_compute_variables_indices/get_bounds/get_subspace'), ('expansion', 'variables.py expand')])

p('C03', 'Every suggested evaluation location lies in the declared design space',
  'Whatever the acquisition values are and whatever point the numerical optimizer returns, each suggested location of every batch produced by the sequential, random, Thompson-sampling and local-penalization evaluators is a point of the declared space: bounds respected, discrete and bandit coordinates exactly listed values, categorical coordinates valid categories. The suggestion has one row per requested batch element and one column per objective coordinate.',
  ['inputs', 'configurations', 'schedules'], 'every space mix, every acquisition/model behaviour, every optimizer outcome (including points outside the bounds or worse than the start), every batch size and random draw',
  'A test runs one optimizer on one smooth function; leaving the domain needs an optimizer result past a bound or between discrete values together with a particular mix of variables.',
  ['GPyOpt/optimization/acquisition_optimizer.py', 'GPyOpt/optimization/optimizer.py', 'GPyOpt/optimization/anchor_points_generator.py', 'GPyOpt/core/evaluators/batch_random.py', 'GPyOpt/core/evaluators/batch_local_penalization.py', 'GPyOpt/core/evaluators/batch_thompson.py', 'GPyOpt/core/evaluators/sequential.py', 'GPyOpt/core/bo.py'],
  [('optimize acquisition', 'acquisition_optimizer.py AcquisitionOptimizer.optimize'), ('round after local search', 'optimizer.py apply_optimizer'), ('batches', 'core/evaluators/*'), ('suggestion', 'core/bo.py suggest_next_locations/_compute_next_evaluations')])

p('C04', 'Context variables are held fixed and only the rest is optimized',
  'When context values are given (for spaces without bandit variables and with at least one variable left free), every suggested location carries exactly those values in the context coordinates, whatever the variable kinds and the order in which the context is given, and the remaining coordinates are a domain point found by optimizing the acquisition with the context coordinates fixed, with the gradient restricted to the free coordinates. A context given for one suggestion does not influence later suggestions, and an unknown context variable is rejected.',
  ['inputs', 'configurations', 'histories'], 'every space, every subset of variables used as context, every context value of the domain and sequences of calls with different contexts',
  'Only particular positions of context variables (after a categorical, last, several at once, out of order) or a later call without context expose index or state mistakes.',
  ['GPyOpt/optimization/optimizer.py', 'GPyOpt/optimization/acquisition_optimizer.py', 'GPyOpt/optimization/anchor_points_generator.py', 'GPyOpt/core/bo.py'],
  [('ContextManager', 'acquisition_optimizer.py ContextManager'), ('OptimizationWithContext', 'optimizer.py OptimizationWithContext'), ('apply_optimizer', 'optimizer.py apply_optimizer'), ('context in anchors', 'anchor_points_generator.py get')])

p('C05', 'De-duplication never suggests an evaluated, pending or ignored location',
  'With duplicate suggestions disabled, a suggested batch contains no location that was already evaluated, is pending or is to be ignored, and no location twice, for every space and every history, including points whose coordinates are all zero. If a fully discrete space has no new location left, the request ends with the documented error instead of a duplicate; a batch never repeats a location to reach its size.',
  ['inputs', 'histories', 'configurations'], 'every set of evaluated, pending and ignored points (any size up to the bound, any coincidences), every batch size, every acquisition ordering and random draw',
  'Duplicates depend on which points coincide; tests use one or two fixed histories and never a pending point at the origin.',
  ['GPyOpt/util/duplicate_manager.py', 'GPyOpt/optimization/anchor_points_generator.py', 'GPyOpt/core/evaluators/base.py', 'GPyOpt/core/evaluators/batch_random.py', 'GPyOpt/core/evaluators/batch_local_penalization.py', 'GPyOpt/core/bo.py'],
  [('DuplicateManager', 'util/duplicate_manager.py'), ('anchor filtering', 'anchor_points_generator.py get'), ('batch filling', 'core/evaluators/base.py SamplingBasedBatchEvaluator')])

p('C06', 'Constraints are honoured in designs, acquisition values and suggestions',
  'A point counts as feasible exactly when every declared constraint is non-positive there. Constraints are functions of the locations as the objective receives them, also while context variables are fixed. Random initial designs contain only feasible points, anchor selection and the acquisition value used by the optimizer rank every infeasible point no better than any feasible point (for acquisitions that are non-negative, such as expected improvement and probability of improvement), and constraints may be given under either accepted key.',
  ['inputs', 'configurations'], 'every set of up to the bound of constraints over the coordinates, every point, every random draw',
  'Feasibility at ties, several constraints at once, and designs that need many rejected draws are not sampled by tests.',
  ['GPyOpt/core/task/space.py', 'GPyOpt/experiment_design/random_design.py', 'GPyOpt/acquisitions/base.py', 'GPyOpt/optimization/anchor_points_generator.py'],
  [('indicator_constraints', 'core/task/space.py'), ('get_samples_with_constraints', 'experiment_design/random_design.py'), ('constraint weighting', 'acquisitions/base.py')])

p('C07', 'Initial designs have the requested size and lie in the design space',
  'Random, Latin-hypercube, Sobol and grid designs return the requested number of points (the grid: a full factorial over the continuous variables with at most the requested number of points), every one a point of the space for every draw of the underlying generator, with low-discrepancy coordinates mapped affinely onto each variable\'s own bounds. Multi-dimensional and repeated variables fill their own columns, and unknown design names and unsupported space/design combinations are rejected.',
  ['inputs', 'configurations'], 'every space mix and order, every number of points up to the bound, every random draw in [0,1]',
  'Column mix-ups show only for asymmetric bounds, particular orders of kinds or repeated variables; tests mostly check shapes.',
  ['GPyOpt/experiment_design/random_design.py', 'GPyOpt/experiment_design/latin_design.py', 'GPyOpt/experiment_design/sobol_design.py', 'GPyOpt/experiment_design/grid_design.py', 'GPyOpt/experiment_design/__init__.py', 'GPyOpt/util/general.py'],
  [('random', 'random_design.py'), ('sobol', 'sobol_design.py'), ('latin', 'latin_design.py'), ('grid', 'grid_design.py'), ('samples_multidimensional_uniform', 'util/general.py')])

p('C08', 'The evaluation history is append-only and each value belongs to its location',
  'During a run, every recorded location was evaluated exactly once, in the recorded order, and its recorded value and cost are those the objective returned for it; earlier rows never change. Each iteration adds exactly the suggested batch, values supplied by the user or obtained in an initial design come first in the order given, and a run can be continued without losing or repeating rows.',
  ['histories', 'inputs', 'configurations'], 'every sequence of batches, initial data, objective values and repeated calls up to the bound',
  'Tests look only at the final optimum of a few seeds; a swapped or dropped row changes it only for particular values.',
  ['GPyOpt/core/bo.py', 'GPyOpt/core/task/objective.py', 'GPyOpt/methods/bayesian_optimization.py', 'GPyOpt/methods/modular_bayesian_optimization.py'],
  [('run_optimization', 'core/bo.py'), ('evaluate_objective', 'core/bo.py'), ('SingleObjective.evaluate', 'core/task/objective.py'), ('_init_design_chooser', 'methods/bayesian_optimization.py')], state='X, Y, num_acquisitions, cost model data')

p('C09', 'The optimization loop stops exactly when its stopping rules say so',
  'A run performs at most the allowed number of iterations, stops at the first iteration boundary where the elapsed time has reached the time limit or the last two locations are at most the tolerance apart (or where the model cannot be updated for numerical reasons), and otherwise continues; with an iteration budget of zero it evaluates only what initialisation requires. The recorded number of acquisitions matches the iterations performed.',
  ['schedules', 'inputs', 'histories'], 'every iteration budget up to the bound, every non-decreasing clock, every tolerance and every distance sequence',
  'Boundary equalities (exactly at the tolerance, time limit reached between evaluation and update) never occur in timed tests.',
  ['GPyOpt/core/bo.py'], [('stopping test', 'core/bo.py run_optimization, _distance_last_evaluations'), ('suggest-only mode', 'core/bo.py suggest_next_locations')])

p('C10', 'The reported optimum and saved results are those of the best evaluation',
  'After any run the reported best value is the minimum of all recorded values (with maximization the recorded values are those of the negated objective), the reported best location is the first location that attained it, and the best-so-far curve at step i is the minimum of the first i values. Saved evaluation, model-parameter and report files contain every recorded evaluation in order with these values.',
  ['histories', 'inputs'], 'every sequence of objective values up to the bound, ties included, for minimization and maximization',
  'A wrong index or sign is invisible unless values tie, decrease at specific places or are maximized.',
  ['GPyOpt/core/bo.py', 'GPyOpt/util/general.py', 'GPyOpt/methods/bayesian_optimization.py'],
  [('_compute_results', 'core/bo.py'), ('best_value', 'util/general.py'), ('save_evaluations/save_report/save_models', 'core/bo.py'), ('_sign', 'methods/bayesian_optimization.py')])

p('C11', 'Acquisition functions compute their published formulas',
  'At every point the (negated) expected improvement, probability of improvement and lower confidence bound equal their defining formulas in the predicted mean, standard deviation, current best value and exploration parameter; the MCMC versions equal the average over hyper-parameter samples. Values handed to the optimizer are divided by the evaluation cost and weighted by feasibility, and points are scored independently of each other.',
  ['inputs', 'configurations'], 'every mean, standard deviation above the numerical floor, best value, jitter or weight, cost and feasibility pattern',
  'Tests compare one hard-coded number per acquisition; sign, scaling and broadcasting mistakes can coincide there.',
  ['GPyOpt/acquisitions/EI.py', 'GPyOpt/acquisitions/MPI.py', 'GPyOpt/acquisitions/LCB.py', 'GPyOpt/acquisitions/EI_mcmc.py', 'GPyOpt/acquisitions/MPI_mcmc.py', 'GPyOpt/acquisitions/LCB_mcmc.py', 'GPyOpt/acquisitions/base.py', 'GPyOpt/util/general.py'],
  [('formulas', 'acquisitions/*.py _compute_acq'), ('get_quantiles', 'util/general.py'), ('cost and constraint weighting', 'acquisitions/base.py acquisition_function')])

p('C12', 'Acquisition gradients are the derivatives of the acquisition values',
  'For every acquisition with analytical gradients, including cost weighting, context restriction and (for single-sample models) batch penalization, the returned value equals the plain value and the returned gradient equals the derivative of that value with respect to the location, given that the model and cost derivatives are correct.',
  ['inputs', 'configurations'], 'every location, mean, standard deviation, derivative vector, cost, jitter and set of penalized points up to the bound',
  'Tests check gradients at one point through a Gaussian process, if at all.',
  ['GPyOpt/acquisitions/EI.py', 'GPyOpt/acquisitions/MPI.py', 'GPyOpt/acquisitions/LCB.py', 'GPyOpt/acquisitions/EI_mcmc.py', 'GPyOpt/acquisitions/MPI_mcmc.py', 'GPyOpt/acquisitions/LCB_mcmc.py', 'GPyOpt/acquisitions/LP.py', 'GPyOpt/acquisitions/base.py', 'GPyOpt/core/task/cost.py'],
  [('gradients', 'acquisitions/*.py _compute_acq_withGradients'), ('cost weighting', 'acquisitions/base.py acquisition_function_withGradients'), ('penalized gradient', 'acquisitions/LP.py')])

p('C13', 'Objective normalization is an order-preserving affine rescaling',
  'Standardization subtracts the mean and divides by the standard deviation when that is positive, max-min normalization maps the values affinely onto [-1,1], constant data are only shifted to zero, and non-vector data and unknown schemes are rejected. Order and ties of the values are preserved, the input is not modified, and the optimizer applies it only to the data given to the model, never to the recorded or reported values.',
  ['inputs'], 'every vector of values up to the bound, including constant and single-element vectors',
  'Tests check three fixed vectors.',
  ['GPyOpt/util/general.py', 'GPyOpt/core/bo.py'], [('normalize', 'util/general.py normalize'), ('use', 'core/bo.py _update_model')])

p('C14', 'The surrogate model is trained on exactly the recorded data',
  'Whenever the model is updated it receives all recorded locations in model encoding and all recorded values in the same order (normalized if requested), updates happen at exactly the iterations given by the update interval, and before any suggestion. One row of model parameters is logged at every iteration boundary, the final one included, labelled with the model\'s parameter names when saved.',
  ['histories', 'configurations'], 'every history, interval and space mix up to the bound',
  'A stale or partial training set still yields plausible suggestions.',
  ['GPyOpt/core/bo.py', 'GPyOpt/models/base.py', 'GPyOpt/models/gpmodel.py'], [('_update_model', 'core/bo.py'), ('_save_model_parameter_values', 'core/bo.py')])

p('C15', 'Acquisition optimization returns the best candidate it found',
  'Anchor points are the best-scoring points of the generated design (no better-scoring design point is dropped, at most the requested number), each anchor is refined, and the returned point is the one with the lowest acquisition value among the refined candidates, together with its value. The local optimizers (L-BFGS, CMA) start from the point they are given and report the value of the point they return, an abnormal termination of the local optimizer falls back to the starting point and its value, with duplicate management a refined point that is a duplicate falls back to its anchor, and unknown optimizers are rejected.',
  ['inputs', 'configurations'], 'every ordering of acquisition values over design points, every optimizer result, number of anchors up to the bound',
  'Selection errors only show when a non-first candidate wins or rounding worsens a point.',
  ['GPyOpt/optimization/anchor_points_generator.py', 'GPyOpt/optimization/acquisition_optimizer.py', 'GPyOpt/optimization/optimizer.py'],
  [('anchor selection', 'anchor_points_generator.py get'), ('best of refined', 'acquisition_optimizer.py optimize'), ('apply_optimizer', 'optimizer.py'), ('optimizers', 'optimizer.py OptLbfgs/OptDirect/OptCma')])

p('C16', 'Evaluation costs are charged and modelled as configured',
  'Without a cost model the cost is one with zero gradient everywhere; with a user cost function its values and gradients are used at the queried locations; with evaluation-time costs (positive durations) the cost model is trained on the log-durations of all evaluated locations and its prediction and gradient are those of the exponentiated mean. Cost data gathered at every evaluation, initial ones included, stay aligned with the locations.',
  ['inputs', 'histories', 'configurations'], 'every duration, location and update sequence up to the bound',
  'Durations in tests are tiny and never asserted.',
  ['GPyOpt/core/task/cost.py', 'GPyOpt/core/bo.py', 'GPyOpt/methods/bayesian_optimization.py'], [('CostModel', 'core/task/cost.py'), ('update_cost_model calls', 'core/bo.py evaluate_objective, run_optimization')])

p('C17', 'Model wrappers report predictions consistently',
  'The Gaussian-process wrappers return the underlying mean, the square root of the (floored) variance, and gradients of exactly those quantities (the deviation\'s gradient being the variance\'s divided by twice the reported deviation); predicted covariance matrices keep their covariances and floor only the variances; the reported minimum is the minimum predicted mean over the training inputs; MCMC wrappers return one entry per hyper-parameter sample and leave the model\'s parameters as they were. Re-training sets exactly the new data, parameter listings match their names, and a copy is a model of the same kind with the same configuration and data and its own kernel.',
  ['inputs', 'configurations', 'histories'], 'every predicted mean, variance (including tiny or negative ones) and derivative, every number of samples and points up to the bound',
  'Variance flooring, derivative scaling and parameter restoration matter only off the tested path.',
  ['GPyOpt/models/gpmodel.py', 'GPyOpt/models/base.py', 'GPyOpt/models/warpedgpmodel.py', 'GPyOpt/models/input_warped_gpmodel.py'],
  [('GPModel', 'models/gpmodel.py'), ('GPModel_MCMC', 'models/gpmodel.py'), ('warped', 'models/warpedgpmodel.py, models/input_warped_gpmodel.py')])

p('C18', 'Local penalization applies exactly its penalizers and resets them',
  'With a model with a single set of hyper-parameters, the penalized acquisition is the transformed acquisition multiplied by one penalizer in [0,1] per pending batch point, each computed from the distance to that point with the estimated Lipschitz constant and current minimum; with no pending batch it equals the transformed acquisition. Batch collection penalizes exactly the points already in the batch and removes all penalization afterwards.',
  ['inputs', 'schedules'], 'every location, batch, mean, deviation, Lipschitz constant and minimum up to the bound',
  'Penalization mistakes only change which later batch element is chosen.',
  ['GPyOpt/acquisitions/LP.py', 'GPyOpt/core/evaluators/batch_local_penalization.py'], [('AcquisitionLP', 'acquisitions/LP.py'), ('LocalPenalization.compute_batch', 'core/evaluators/batch_local_penalization.py'), ('estimate_L', 'core/evaluators/batch_local_penalization.py')])

p('C19', 'Parallel evaluation returns what sequential evaluation returns, in order',
  'Evaluating a batch with any number of processes returns, for each location in order, the value (and a cost per location) that sequential evaluation returns, evaluating each location exactly once; a failure of the parallel path falls back to sequential evaluation. One-row batches behave alike, and neither failing workers nor large results block the evaluation.',
  ['inputs', 'schedules', 'configurations'], 'every batch size and number of processes up to the bound, every objective value, worker failure at any point',
  'Splitting is only exercised with batch sizes that divide evenly, and functional tests of it are unreliable.',
  ['GPyOpt/core/task/objective.py', 'GPyOpt/util/general.py'], [('_syncronous_batch_evaluation', 'core/task/objective.py'), ('spawn/compute', 'util/general.py')])

p('C20', 'Configurations select the documented components with the user\'s values winning',
  'Merging a configuration with the defaults keeps every user value and fills every missing one, reading an experiment file yields the same without changing the defaults, and building spaces and experiments leaves the configuration unchanged. The selected model, acquisition, optimizer and evaluator types and their parameters are those requested, with documented defaults otherwise, and unknown choices are rejected.',
  ['configurations', 'inputs'], 'every configuration dictionary up to the bound of keys and nesting, every documented component name and symbolic parameter value',
  'Tests build one or two default configurations.',
  ['GPyOpt/interface/config_parser.py', 'GPyOpt/interface/driver.py', 'GPyOpt/util/arguments_manager.py', 'GPyOpt/methods/bayesian_optimization.py', 'GPyOpt/acquisitions/__init__.py', 'GPyOpt/models/__init__.py'],
  [('update_config/parser', 'interface/config_parser.py'), ('BODriver', 'interface/driver.py'), ('ArgumentsManager', 'util/arguments_manager.py'), ('fromConfig', 'acquisitions/*.py, models/*.py, core/task/space.py')])

p('C21', 'Result logging collects every iteration and saves at the configured cadence',
  'The output engine keeps the number, elapsed time, locations and values of every appended iteration. A saver with interval k > 0 saves at exactly every k-th appended non-final iteration, a saver with interval -1 at exactly the final one, entries that are not savers are ignored, and other intervals, formats, contents and types are rejected. The csv logger writes one header and then, per save, the number and time of the latest iteration and the lowest value of everything appended so far with its location; the report saver has the run write its report to the configured (or default) file.',
  ['histories', 'configurations'], 'every number of iterations, batch sizes and intervals up to the bound',
  'There are no tests of the output engine.',
  ['GPyOpt/interface/output.py'], [('OutputEng', 'interface/output.py'), ('Report/Logger', 'interface/output.py')])

p('C22', 'Benchmark objectives map each row independently to its documented value',
  'Every bundled benchmark function returns a column with one value per input row (a single point may be a vector); each value depends only on its own row and equals the closed-form definition of the function; with a noise deviation every value has its own additive disturbance of that scale, without it none. Requested domains and coefficients are used, the documented minimum is attained at the documented minimizers, and no point of the documented domain is below it (claimed for Rosenbrock, Beale, drop-wave, cosines, Branin, Goldstein-Price, six-hump camel, powers, alpine1 and Ackley).',
  ['inputs'], 'every batch of points of the documented domain up to the bound',
  'Tests only run optimizations on them.',
  ['GPyOpt/objective_examples/experiments1d.py', 'GPyOpt/objective_examples/experiments2d.py', 'GPyOpt/objective_examples/experimentsNd.py'], [('functions', 'objective_examples/*.py')])

p('C23', 'Numerical utilities meet their contracts for every input',
  'Combining two arrays yields every pair of rows once, grids contain every combination of the per-variable values, running minima and best guesses are computed element by element, list reshaping keeps all values in order, and moment and quantile helpers return values consistent with their definitions for every input.',
  ['inputs'], 'every array of values and every size up to the bound',
  'Tests use one array each.',
  ['GPyOpt/util/general.py', 'GPyOpt/util/stats.py'], [('multigrid, values_to_array, merge_values, best_value, best_guess, get_moments, reshape', 'util/general.py')])

p('C24', 'Entropy search scores each location by its expected information gain',
  'The entropy search acquisition is minus the expected information gain over the representer points of positive proposal density, computed for each location on its own from the normalised log probabilities of being the minimum and their derivatives in mean and covariance; each optimization uses the beliefs of the current model. Those probabilities and derivatives follow from the expectation propagation messages. The ensemble sampler starts inside the space and returns the requested number of points with their log densities; the default density is the expected improvement inside the bounds and zero outside. Invalid densities, wrong dimensions, unsupported models and gradient requests are rejected.',
  ['inputs', 'histories', 'configurations'], 'every representer set, belief, mean, covariance, density and scored location up to the bound, every model update between two optimizations',
  'Tests compare two numbers on one model; beliefs and derivatives are never checked against their definitions.',
  ['GPyOpt/acquisitions/ES.py', 'GPyOpt/util/epmgp.py', 'GPyOpt/util/mcmc_sampler.py'], [('AcquisitionEntropySearch', 'acquisitions/ES.py'), ('joint_min/min_faktor/lt_factor', 'util/epmgp.py'), ('AffineInvariantEnsembleSampler', 'util/mcmc_sampler.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
print(len(P))
