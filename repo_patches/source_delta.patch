From 31b655e879645ce6be0e022e4421e4fffc1b1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 01/56] fix: listing continuous/discrete dimensions of a space
 with multi-dimensional bandit arms

---
 GPyOpt/core/task/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index e5f0b6a..c91c9da 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -365,7 +365,7 @@ class Design_space(object):
         Returns the dimension of the continuous components of the domain.
         """
         continuous_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'continuous':
                 continuous_dims += [i]
         return continuous_dims
@@ -400,7 +400,7 @@ class Design_space(object):
         Returns the dimension of the discrete components of the domain.
         """
         discrete_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'discrete':
                 discrete_dims += [i]
         return discrete_dims
-- 
2.43.0


From ce1d4f3aa6c49c31182d23c76ca8b0daa1b23a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 02/56] fix: unnamed variables with a dimensionality get their
 default name in the expanded configuration

---
 GPyOpt/core/task/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index c91c9da..80fdda4 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -115,8 +115,9 @@ class Design_space(object):
         """
         self.config_space_expanded = []
 
-        for variable in self.config_space:
+        for i, variable in enumerate(self.config_space):
             variable_dic = variable.copy()
+            variable_dic.setdefault('name', 'var_' + str(i))
             if 'dimensionality' in variable_dic.keys():
                 dimensionality = variable_dic['dimensionality']
                 variable_dic['dimensionality'] = 1
-- 
2.43.0


From 767e4cab1356358ea2993a098913904816a239ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:00 +0000
Subject: [PATCH 03/56] fix: grid design on spaces without continuous variables

---
 GPyOpt/experiment_design/grid_design.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/experiment_design/grid_design.py b/GPyOpt/experiment_design/grid_design.py
index 9b82d85..0baabcf 100644
--- a/GPyOpt/experiment_design/grid_design.py
+++ b/GPyOpt/experiment_design/grid_design.py
@@ -20,6 +20,8 @@ class GridDesign(ExperimentDesign):
         # TODO: log this
         print('Note: in grid designs the total number of generated points is the smallest closest integer of n^d to the selected amount of points')
         continuous_dims = len(self.space.get_continuous_dims())
+        if continuous_dims == 0:
+            return init_points_count
         self.data_per_dimension = iroot(continuous_dims, init_points_count)
         return self.data_per_dimension**continuous_dims
 
-- 
2.43.0


From 2780e33619c2459904e8b6692d4a928ff79c2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 04/56] fix: evaluation-time costs of BayesianOptimization runs

The cost model handed to BO was wrapped in a second CostModel, so it was never
trained (the first acquisition crashed); initial evaluations were not recorded,
durations of parallel evaluations were transposed and the locations were not in
model encoding.
---
 GPyOpt/core/bo.py                       | 6 +++---
 GPyOpt/core/task/cost.py                | 2 +-
 GPyOpt/methods/bayesian_optimization.py | 6 ++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 8fb0d93..28549d3 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -50,7 +50,7 @@ class BO(object):
         self.model_update_interval = model_update_interval
         self.X = X_init
         self.Y = Y_init
-        self.cost = CostModel(cost)
+        self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
         self.model_parameters_iterations = None
@@ -126,7 +126,7 @@ class BO(object):
         if self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
             if self.cost.cost_type == 'evaluation_time':
-                self.cost.update_cost_model(self.X, cost_values)
+                self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
         # --- Initialize iterations and running time
         self.time_zero = time.time()
@@ -200,7 +200,7 @@ class BO(object):
         Evaluates the objective
         """
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
-        self.cost.update_cost_model(self.suggested_sample, cost_new)
+        self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
         self.Y = np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 946cc05..a5fa554 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -61,7 +61,7 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.atleast_2d(np.asarray(cost_x)).T)
+            cost_evals = np.log(np.asarray(cost_x).reshape(-1, 1))
 
             if self.num_updates == 0:
                 X_all = x
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index c3ad58b..19c66c3 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -192,10 +192,12 @@ class BayesianOptimization(BO):
         # Case 1:
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From c1aa7e989be37614e86a8132481c81681bd56c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 05/56] fix: evaluation-time cost before any evaluation has
 been timed

---
 GPyOpt/core/task/cost.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index a5fa554..500488e 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -49,6 +49,8 @@ class  CostModel(object):
         """
         Predicts the time cost and its gradient of evaluating the function at x.
         """
+        if self.num_updates == 0:
+            return constant_cost_withGradients(x)
         m, _, dmdx, _= self.cost_model.predict_withGradients(x)
         return np.exp(m), np.exp(m)*dmdx
 
-- 
2.43.0


From 76c633cc8c5eb966a4c197e2393699322317a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 06/56] fix: evaluate the objective with the requested number
 of cores, not the batch size

---
 GPyOpt/methods/bayesian_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index 19c66c3..6bbdaaa 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -103,7 +103,7 @@ class BayesianOptimization(BO):
         self.num_cores = num_cores
         if f is not None:
             self.f = self._sign(f)
-            self.objective = SingleObjective(self.f, self.batch_size,self.objective_name)
+            self.objective = SingleObjective(self.f, self.num_cores,self.objective_name)
         else:
             self.f = None
             self.objective = None
-- 
2.43.0


From 68dec5842d1ae58ce9b22b15a25ef51dc5e5a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 07/56] fix: reports of modular Bayesian optimization

save_report needed attributes which only BayesianOptimization sets, and an
acquisition optimizer with a name.
---
 GPyOpt/core/bo.py                               |  3 ---
 GPyOpt/methods/modular_bayesian_optimization.py | 12 ++++++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 28549d3..4406769 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -349,9 +349,6 @@ class BO(object):
             file.write('Normalized outputs:          ' + str(self.normalize_Y) + '\n')
             file.write('Model type:                  ' + str(self.model_type).strip('[]') + '\n')
             file.write('Model update interval:       ' + str(self.model_update_interval) + '\n')
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
-            file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
-
             file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
             if hasattr(self, 'acquisition_optimizer') and hasattr(self.acquisition_optimizer, 'optimizer_name'):
                 file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
diff --git a/GPyOpt/methods/modular_bayesian_optimization.py b/GPyOpt/methods/modular_bayesian_optimization.py
index 45439a0..e1c5b32 100644
--- a/GPyOpt/methods/modular_bayesian_optimization.py
+++ b/GPyOpt/methods/modular_bayesian_optimization.py
@@ -26,6 +26,18 @@ class ModularBayesianOptimization(BO):
         self.initial_iter = True
         self.modular_optimization = True
 
+        # --- Description of the components, used in the reports
+        self.objective_name = getattr(objective, 'objective_name', 'no_name')
+        self.num_cores = getattr(objective, 'n_procs', 1)
+        self.constraints = space.constraints
+        self.initial_design_numdata = len(X_init)
+        self.exact_feval = getattr(model, 'exact_feval', False)
+        self.model_type = type(model).__name__
+        self.acquisition_type = type(acquisition).__name__
+        self.acquisition_optimizer = getattr(acquisition, 'optimizer', None)
+        self.evaluator_type = type(evaluator).__name__
+        self.batch_size = getattr(evaluator, 'batch_size', 1)
+
         # --- Create optimization space
         super(ModularBayesianOptimization ,self).__init__(  model                  = model,
                                                             space                  = space,
-- 
2.43.0


From 89a43e43fa623480983ca875d610ca47d7182e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 08/56] fix: report that the problem has constraints

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 4406769..896a461 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -342,7 +342,7 @@ class BO(object):
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
             file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
-            file.write('Constraints:                  ' + str(self.constraints==True) +'\n')
+            file.write('Constraints:                  ' + str(self.constraints is not None) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
-- 
2.43.0


From 9ec19a87a6a75bcb3ea752727dde0d4b433fb626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 09/56] fix: models without a parameter listing can be used in
 the optimization loop

---
 GPyOpt/core/bo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 896a461..5c80820 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -261,6 +261,8 @@ class BO(object):
         self._save_model_parameter_values()
 
     def _save_model_parameter_values(self):
+        if not hasattr(self.model, 'get_model_parameters'):
+            return
         if self.model_parameters_iterations is None:
             self.model_parameters_iterations = self.model.get_model_parameters()
         else:
-- 
2.43.0


From b8f86800bcbbe5519cb179b42f39c72d803a527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 10/56] fix: gradient of the local penalizers

The derivative of log Phi((|x-x0|-r)/s) along each coordinate contains the
direction (x-x0)/|x-x0|; the same scalar was used for all coordinates.
---
 GPyOpt/acquisitions/LP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 0686ec5..582b8c7 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -98,9 +98,9 @@ class AcquisitionLP(AcquisitionBase):
         h_func = norm.cdf(z)
 
         d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm
-        d[h_func<1e-50] = 0.
+        d[(h_func<1e-50) | (nm==0)] = 0.
         d = d[:,:,None]
-        return d.sum(axis=1)
+        return (d*dx).sum(axis=1)
 
     def acquisition_function(self, x):
         """
-- 
2.43.0


From fbd59e110ccae3d9bf9bb283da2a785a42ec87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 11/56] fix: local penalizers use the predicted standard
 deviation

Models predict means and standard deviations; the penalizer took the square
root of the standard deviation.
---
 GPyOpt/acquisitions/LP.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 582b8c7..88d0b13 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -52,9 +52,8 @@ class AcquisitionLP(AcquisitionBase):
         if x0 is None: return None, None
         if len(x0.shape)==1: x0 = x0[None,:]
         m = model.predict(x0)[0]
-        pred = model.predict(x0)[1].copy()
-        pred[pred<1e-16] = 1e-16
-        s = np.sqrt(pred)
+        s = model.predict(x0)[1].copy()
+        s[s<1e-16] = 1e-16
         r_x0 = (m-Min)/L
         s_x0 = s/L
         r_x0 = r_x0.flatten()
-- 
2.43.0


From 9be7fa8cbdf2794168e2037b00e597ed98b2c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:35 +0000
Subject: [PATCH 12/56] fix: scale of the locally penalized acquisition's
 gradient

One scale per point (not per coordinate), and the same transformation as the
value: no overflow for large values, no division by zero at value zero.
---
 GPyOpt/acquisitions/LP.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 88d0b13..34aa987 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -115,11 +115,13 @@ class AcquisitionLP(AcquisitionBase):
         x = np.atleast_2d(x)
 
         if self.transform=='softplus':
-            fval = -self.acq.acquisition_function(x)[:,0]
-            scale = 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
-        elif self.transform=='none':
-            fval = -self.acq.acquisition_function(x)[:,0]
+            fval = -self.acq.acquisition_function(x)
             scale = 1./fval
+            low = fval<40.
+            scale[low] = 1./(np.log1p(np.exp(fval[low]))*(1.+np.exp(-fval[low])))
+        elif self.transform=='none':
+            fval = -self.acq.acquisition_function(x)
+            scale = 1./(fval+1e-50)
         else:
             scale = 1.
 
-- 
2.43.0


From f05ac7e779efc2edd31a7a95c6b78eb19a11f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 13/56] fix: abnormal terminations of L-BFGS are recognized

scipy reports the task as a string since 1.2x; the comparison with bytes never matched, so NaN values of an abnormal termination were returned instead of the starting point.
---
 GPyOpt/optimization/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 5ca8f37..6e706c0 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -51,7 +51,10 @@ class OptLbfgs(Optimizer):
             res = scipy.optimize.fmin_l_bfgs_b(_f_df, x0=x0, bounds=self.bounds, maxiter=self.maxiter)
 
         ### --- We check here if the the optimizer moved. If it didn't we report x0 and f(x0) as scipy can return NaNs
-        if res[2]['task'] == b'ABNORMAL_TERMINATION_IN_LNSRCH':
+        task = res[2]['task']
+        if isinstance(task, bytes):  # older versions of scipy
+            task = task.decode()
+        if task.startswith('ABNORMAL'):
             result_x  = np.atleast_2d(x0)
             result_fx =  np.atleast_2d(f(x0))
         else:
-- 
2.43.0


From 4b68f9f18845a07e71902ffe5a987a2d126d2c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 14/56] fix: L-BFGS with a separate gradient function

The lambda ended before the comma, so passing df without f_df raised a NameError.
---
 GPyOpt/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 6e706c0..4745b5e 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -41,7 +41,7 @@ class OptLbfgs(Optimizer):
         :param f_df: returns both the function to optimize and its gradient.
         """
         import scipy.optimize
-        if f_df is None and df is not None: f_df = lambda x: float(f(x)), df(x)
+        if f_df is None and df is not None: f_df = lambda x: (float(f(x)), df(x))
         if f_df is not None:
             def _f_df(x):
                 return f(x), f_df(x)[1][0]
-- 
2.43.0


From 6217003b330ce6a0742727e0a30b7eed84bdcc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 15/56] fix: pending and ignored points whose coordinates are
 all zero

np.any was used to test whether points were given, which is false for points at the origin.
---
 GPyOpt/util/duplicate_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index fe1807c..bc056d1 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -21,10 +21,10 @@ class DuplicateManager(object):
         self.unique_points = set()
         self.unique_points.update(tuple(x.flatten()) for x in zipped_X)
 
-        if np.any(pending_zipped_X):
+        if pending_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)
 
-        if np.any(ignored_zipped_X):
+        if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
 
-- 
2.43.0


From 0bdbe091bd5b82611576209e59f3f0691b5f6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 16/56] fix: first batch element at the origin is not dropped

np.any(x0) is false for an all-zero point, so the optimum of the acquisition was left out of de-duplicated batches.
---
 GPyOpt/core/evaluators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d2ab81f..8cfa11f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -57,7 +57,7 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
 
         x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
-        if np.any(x0):
+        if x0 is not None:
             batch.append(x0)
             already_suggested_points.add(self.zip_and_tuple(x0))
 
-- 
2.43.0


From c2b0ccbc71e9fee81e61b7cc35172dfcf9a3902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 17/56] fix: de-duplicated batches of size one

The batch was only found to be full after another point had been added, so a batch of one (already filled by the optimum of the acquisition) kept growing.
---
 GPyOpt/core/evaluators/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index 8cfa11f..bc248d5 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -62,6 +62,9 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
             already_suggested_points.add(self.zip_and_tuple(x0))
 
         for a in anchor_points:
+            if len(batch) == self.batch_size:
+                break
+
             x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
             # We first try to add the optimized anchor point; if we cannot, we then try the initial anchor point.
@@ -77,9 +80,6 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
                     batch.append(a)
                     already_suggested_points.add(zipped_a)
 
-            if len(batch) == self.batch_size:
-                break
-
         if len(batch) < self.batch_size:
             # Note that the case where anchor_points is empty is handled in self.get_anchor_points that would throw a FullyExploredOptimizationDomainError
             print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
-- 
2.43.0


From c07adbf342a5d428418c4bafbf7a58711e6e11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 18/56] fix: local penalization avoids duplicates

compute_batch ignored the duplicate manager, so de_duplication=True had no effect with this evaluator.
---
 GPyOpt/core/evaluators/batch_local_penalization.py | 7 +++++--
 GPyOpt/util/duplicate_manager.py                   | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/evaluators/batch_local_penalization.py b/GPyOpt/core/evaluators/batch_local_penalization.py
index e527581..41d8dee 100644
--- a/GPyOpt/core/evaluators/batch_local_penalization.py
+++ b/GPyOpt/core/evaluators/batch_local_penalization.py
@@ -29,7 +29,7 @@ class LocalPenalization(EvaluatorBase):
         self.acquisition.update_batches(None,None,None)
 
         # --- GET first element in the batch
-        X_batch = self.acquisition.optimize()[0]
+        X_batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
         k=1
 
         if self.batch_size >1:
@@ -40,7 +40,10 @@ class LocalPenalization(EvaluatorBase):
         # --- GET the remaining elements
         while k<self.batch_size:
             self.acquisition.update_batches(X_batch,L,Min)
-            new_sample = self.acquisition.optimize()[0]
+            if duplicate_manager:
+                # the points already in the batch must not be suggested again
+                duplicate_manager = duplicate_manager.with_unzipped_points(X_batch)
+            new_sample = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
             X_batch = np.vstack((X_batch,new_sample))
             k +=1
 
diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index bc056d1..30fc521 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -27,6 +27,11 @@ class DuplicateManager(object):
         if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
+    def with_unzipped_points(self, unzipped_X):
+        """
+        param: unzipped_X: configurations, assumed to be unzipped, which the returned manager considers duplicates as well
+        """
+        return DuplicateManager(self.space, [np.array(x) for x in self.unique_points], self.space.zip_inputs(np.atleast_2d(unzipped_X)))
 
     def is_zipped_x_duplicate(self, zipped_x):
         """
-- 
2.43.0


From 1667b8523d775becb64707d6f7a3f7fd5faf6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:47 +0000
Subject: [PATCH 19/56] fix: context variables in constrained problems

The candidates of the acquisition optimizer were generated on the free variables only while the constraints, which are functions of all the variables, were evaluated on them: wrong columns or an IndexError.
---
 GPyOpt/optimization/anchor_points_generator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 22ca1c3..fbedc6e 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -27,10 +27,13 @@ class AnchorPointsGenerator(object):
         ## --- We use the context handler to remove duplicates only over the non-context variables
         if context_manager and not self.space._has_bandit():
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
-            space = Design_space(space_configuration_without_context, context_manager.space.constraints)
+            # The constraints are functions of all the variables: if some of them are fixed, the constraints are applied below
+            constraints_on_all_variables = len(context_manager.context_index_obj) > 0 and self.space.has_constraints()
+            space = Design_space(space_configuration_without_context, None if constraints_on_all_variables else context_manager.space.constraints)
             add_context = lambda x : context_manager._expand_vector(x)
         else:
             space = self.space
+            constraints_on_all_variables = False
             add_context = lambda x: x
 
         ## --- Generate initial design
@@ -45,6 +48,12 @@ class AnchorPointsGenerator(object):
         ## --- Add context variables
         X = add_context(X)
 
+        ## --- Remove infeasible points, unless there are no other ones
+        if constraints_on_all_variables:
+            feasible = self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1
+            if feasible.any():
+                X = X[feasible, :]
+
         if duplicate_manager:
             is_duplicate = duplicate_manager.is_unzipped_x_duplicate
         else:
-- 
2.43.0


From 3c678460213fcb01b2f679d9dd5a343086e98986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 20/56] fix: negative covariances are not floored

---
 GPyOpt/models/gpmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9310be8..5c997b4 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -96,7 +96,12 @@ class GPModel(BOModel):
         if X.ndim == 1:
             X = X[None,:]
         m, v = self.model.predict(X, full_cov=full_cov, include_likelihood=include_likelihood)
-        v = np.clip(v, 1e-10, np.inf)
+        if full_cov:
+            # only the variances have to be positive, covariances can be negative
+            v = np.array(v)
+            np.fill_diagonal(v, np.clip(np.diag(v), 1e-10, np.inf))
+        else:
+            v = np.clip(v, 1e-10, np.inf)
         return m, v
 
     def predict(self, X, with_noise=True):
-- 
2.43.0


From 0cff6156d5da545c92b64224fa380e13795055bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:36 +0000
Subject: [PATCH 21/56] fix: copies of GPModel_MCMC

---
 GPyOpt/models/gpmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 5c997b4..a7489fd 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -333,7 +333,7 @@ class GPModel_MCMC(BOModel):
         Makes a safe copy of the model.
         """
 
-        copied_model = GPModel( kernel = self.model.kern.copy(),
+        copied_model = GPModel_MCMC( kernel = self.model.kern.copy(),
                                 noise_var= self.noise_var ,
                                 exact_feval= self.exact_feval,
                                 n_samples = self.n_samples,
-- 
2.43.0


From b97fd6bae6c65141b9ff36c98ae3484d24a97000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 22/56] fix: copies of sparse, mean-function and input-warped
 models

---
 GPyOpt/models/gpmodel.py              |  5 ++++-
 GPyOpt/models/input_warped_gpmodel.py | 20 +++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index a7489fd..d85ded1 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -156,8 +156,11 @@ class GPModel(BOModel):
                             optimizer=self.optimizer,
                             max_iters=self.max_iters,
                             optimize_restarts=self.optimize_restarts,
+                            sparse=self.sparse,
+                            num_inducing=self.num_inducing,
                             verbose=self.verbose,
-                            ARD=self.ARD)
+                            ARD=self.ARD,
+                            mean_function=None if self.mean_function is None else self.mean_function.copy())
 
         copied_model._create_model(self.model.X,self.model.Y)
         copied_model.updateModel(self.model.X,self.model.Y, None, None)
diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 0e88020..fcf81c8 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -85,4 +85,22 @@ class InputWarpedGPModel(GPModel):
         if self.exact_feval:
             self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
         else:
-            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
\ No newline at end of file
+            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
+
+    def copy(self):
+        """
+        Makes a safe copy of the model.
+        """
+        X, Y = self.model.X_untransformed, self.model.Y
+        copied_model = InputWarpedGPModel(self.space,
+                                          warping_function=None if self.warping_function is None else self.warping_function.copy(),
+                                          kernel=self.kernel.copy(),
+                                          noise_var=self.noise_var,
+                                          exact_feval=self.exact_feval,
+                                          optimizer=self.optimizer,
+                                          max_iters=self.max_iters,
+                                          optimize_restarts=self.optimize_restarts,
+                                          verbose=self.verbose,
+                                          ARD=self.ARD)
+        copied_model.updateModel(X, Y, None, None)
+        return copied_model
-- 
2.43.0


From 224eff47661fb42f2e949835d341cbd058b0f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 23/56] fix: names of the model parameters match their values

---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index d85ded1..4b0569c 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -176,7 +176,7 @@ class GPModel(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names_flat().tolist()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
 
     def get_covariance_between_points(self, x1, x2):
         """
@@ -360,4 +360,4 @@ class GPModel_MCMC(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
-- 
2.43.0


From 63010cebd381c4633f68d3d7cf747d074b2c9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 24/56] fix: input-warped models predict and can be retrained

---
 GPyOpt/models/input_warped_gpmodel.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index fcf81c8..19e52ad 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -87,6 +87,30 @@ class InputWarpedGPModel(GPModel):
         else:
             self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
 
+    def updateModel(self, X_all, Y_all, X_new, Y_new):
+        """
+        Updates the model with new observations.
+        """
+        # GPy's input-warped GP cannot be given other data once created
+        self.model = None
+        super(InputWarpedGPModel, self).updateModel(X_all, Y_all, X_new, Y_new)
+
+    def _predict(self, X, full_cov, include_likelihood):
+        if full_cov:
+            raise NotImplementedError("Covariances are not available for input-warped GPs")
+        if X.ndim == 1:
+            X = X[None,:]
+        m, v = self.model.predict(X)
+        if not include_likelihood:
+            v = v - self.model.likelihood.variance
+        return m, np.clip(v, 1e-10, np.inf)
+
+    def get_fmin(self):
+        """
+        Returns the location where the posterior mean is takes its minimal value.
+        """
+        return self.model.predict(self.model.X_untransformed)[0].min()
+
     def copy(self):
         """
         Makes a safe copy of the model.
-- 
2.43.0


From cace0dd71eddf63fc2e4fbdb686d615e939bde31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 25/56] fix: input-warped models predict over the whole domain

---
 GPyOpt/models/input_warped_gpmodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 19e52ad..ed2ffd1 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -78,8 +78,12 @@ class InputWarpedGPModel(GPModel):
         # --- define model
         noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
 
+        # --- the warping is only defined between Xmin and Xmax: they have to span the domain
+        bounds = np.array(self.space.get_bounds())
         self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function,
-                                              warping_indices=self.warping_indices, Xmin=X.min(axis=0), Xmax=X.max(axis=0))
+                                              warping_indices=self.warping_indices,
+                                              Xmin=np.minimum(X.min(axis=0), bounds[:,0]),
+                                              Xmax=np.maximum(X.max(axis=0), bounds[:,1]))
 
         # --- restrict variance if exact evaluations of the objective
         if self.exact_feval:
-- 
2.43.0


From 819cc1b08c6e23649e55aab372c133f9a7f8808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:21 +0000
Subject: [PATCH 26/56] fix: warped models can be retrained

---
 GPyOpt/models/warpedgpmodel.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index fd80d50..ec81e37 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -50,10 +50,8 @@ class WarpedGPModel(BOModel):
                 self.model.Gaussian_noise.constrain_positive(warning=False)
 
     def updateModel(self, X_all, Y_all, X_new, Y_new):
-        if self.model is None:
-            self._create_model(X_all, Y_all)
-        else:
-            self.model.set_XY(X_all, Y_all)
+        # GPy's warped GP cannot be given a different number of observations once created
+        self._create_model(X_all, Y_all)
 
         self.model.optimize(optimizer = self.optimizer, messages=self.verbose, max_iters=self.max_iters)
 
-- 
2.43.0


From 8a706faac26ca8d8ee82442ee57b71ebbacd660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:21 +0000
Subject: [PATCH 27/56] fix: random-forest predictions at single points

---
 GPyOpt/models/rfmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/rfmodel.py b/GPyOpt/models/rfmodel.py
index ed06613..3a10ee9 100644
--- a/GPyOpt/models/rfmodel.py
+++ b/GPyOpt/models/rfmodel.py
@@ -87,7 +87,7 @@ class RFModel(BOModel):
         for k in range(X.shape[0]):
             preds = []
             for pred in self.model.estimators_:
-                preds.append(pred.predict(X[k,:])[0])
+                preds.append(pred.predict(X[[k],:])[0])
             m = np.vstack((m ,np.array(preds).mean()))
             s = np.vstack((s ,np.array(preds).std()))
         return m, s
-- 
2.43.0


From 440fa2876ca0c8cf50c5384ac88b88797ac95a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 28/56] fix: local penalization with a penalized acquisition
 given by the user

---
 GPyOpt/util/arguments_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 7bbfc55..2745dc4 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -33,6 +33,7 @@ class ArgumentsManager(object):
             if model_type not in ['GP', 'sparseGP', 'GP_MCMC', 'warpedGP']:
                 raise InvalidConfigError('local_penalization evaluator can only be used with GP models')
 
+            acquisition_lp = acquisition
             if not isinstance(acquisition, AcquisitionLP):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
-- 
2.43.0


From 0853bdd3f8aaf7aa0bfda3d29716c36b706cc014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 29/56] fix: unknown evaluators are rejected

---
 GPyOpt/util/arguments_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 2745dc4..29b0118 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -38,6 +38,8 @@ class ArgumentsManager(object):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
 
+        else:
+            raise InvalidConfigError('Invalid evaluator selected.')
 
 
     def acquisition_creator(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
-- 
2.43.0


From 8509f336ce7134fbb8ec578e1299b50fa24e57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 30/56] fix: configuration of the warped GP model

---
 GPyOpt/util/arguments_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 29b0118..73fba29 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -127,7 +127,7 @@ class ArgumentsManager(object):
         # --- Initialize WapedGP in the outputs
         # --------
         elif model_type =='warpedGP':
-            return WarpedGPModel()
+            return WarpedGPModel(kernel, noise_var, exact_feval, model_optimizer_type, max_iters, optimize_restarts, verbose=verbosity_model)
 
         # --------
         # --- Initialize WapedGP in the inputs
-- 
2.43.0


From 3de5552f7f5e0db147dcf840a331a708aac8b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 31/56] fix: failing workers of the parallel evaluation do not
 block the optimization

---
 GPyOpt/core/task/objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8118515..db75181 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -89,6 +89,8 @@ class SingleObjective(Objective):
         pipe = [Pipe() for i in range(self.n_procs)]
         proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
         [p.start() for p in proc]
+        # only the workers send: a worker which ends without a result is noticed
+        [c.close() for (p,c) in pipe]
         [p.join() for p in proc]
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
-- 
2.43.0


From d338d3b15d7a17c354084bc4930f167504b41eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 32/56] fix: large results of the parallel evaluation do not
 block the optimization

---
 GPyOpt/core/task/objective.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index db75181..4085b21 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -91,7 +91,6 @@ class SingleObjective(Objective):
         [p.start() for p in proc]
         # only the workers send: a worker which ends without a result is noticed
         [c.close() for (p,c) in pipe]
-        [p.join() for p in proc]
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
@@ -100,6 +99,8 @@ class SingleObjective(Objective):
         for (p,c) in pipe:
             f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
             i += 1
+        # joined after their results are received: a worker only ends when its results are read
+        [p.join() for p in proc]
         return f_evals, cost_evals
 
     def _asyncronous_batch_evaluation(self,x):
-- 
2.43.0


From fe7db4fe08852e8d42c6f69ff3879c7983fde929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 33/56] fix: workers of the parallel evaluation do not hold
 each other's pipes

---
 GPyOpt/core/task/objective.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 4085b21..6587701 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -86,17 +86,20 @@ class SingleObjective(Objective):
 
         # --- parallel evaluation of the function
         divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]
-        pipe = [Pipe() for i in range(self.n_procs)]
-        proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
-        [p.start() for p in proc]
-        # only the workers send: a worker which ends without a result is noticed
-        [c.close() for (p,c) in pipe]
+        pipe, proc = [], []
+        for k in divided_samples:
+            p, c = Pipe()
+            proc.append(Process(target=spawn(self._eval_func),args=(c,k)))
+            proc[-1].start()
+            # only this worker holds the sending end: if it ends without a result this is noticed
+            c.close()
+            pipe.append(p)
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
         i = 0
-        for (p,c) in pipe:
+        for p in pipe:
             f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
             i += 1
         # joined after their results are received: a worker only ends when its results are read
-- 
2.43.0


From 16fba17f31f27f245ea4bd9d7bb264b571dc2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 34/56] fix: the driver can create the objective

---
 GPyOpt/interface/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index de1144f..787cc69 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -29,7 +29,7 @@ class BODriver(object):
         obj_func = self.obj_func
         
         from ..core.task import SingleObjective
-        return SingleObjective(obj_func, self.config['resources']['cores'], space=space, unfold_args=True)
+        return SingleObjective(obj_func, self.config['resources']['cores'], space=space)
         
     def _get_space(self):
         """
-- 
2.43.0


From 862c5ebbf1db95bbc3d7d440c689f69ce3d06385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 35/56] fix: the maximum run time of a configuration is given
 in minutes

---
 GPyOpt/interface/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index 787cc69..b7ab46b 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -114,6 +114,6 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
+        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time']*60. if self.config['resources']['max-run-time']!="NA" else np.inf,
                               eps = self.config['resources']['tolerance'], verbosity=True)        
         return bo
-- 
2.43.0


From 6210bdef6aec5de93ec8333999a117a37f13c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 36/56] fix: configurations without a maximum number of
 iterations

---
 GPyOpt/interface/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index b7ab46b..b41d3bd 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -114,6 +114,6 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time']*60. if self.config['resources']['max-run-time']!="NA" else np.inf,
+        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'] if self.config['resources']['maximum-iterations']!="NA" else np.inf, max_time = self.config['resources']['max-run-time']*60. if self.config['resources']['max-run-time']!="NA" else np.inf,
                               eps = self.config['resources']['tolerance'], verbosity=True)        
         return bo
-- 
2.43.0


From 8b1749306c99d1c40965fb35debebfdde770c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 37/56] fix: a nested configuration replaces a default which is
 not nested

---
 GPyOpt/interface/config_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/config_parser.py b/GPyOpt/interface/config_parser.py
index 7f3bdc6..cb97225 100644
--- a/GPyOpt/interface/config_parser.py
+++ b/GPyOpt/interface/config_parser.py
@@ -66,7 +66,7 @@ def update_config(config_new, config_default):
     '''
     if any([isinstance(v, dict) for v in list(config_new.values())]):
         for k,v in list(config_new.items()):
-            if isinstance(v,dict) and k in config_default:
+            if isinstance(v,dict) and isinstance(config_default.get(k),dict):
                 update_config(config_new[k],config_default[k])
             else:
                 config_default[k] = v
-- 
2.43.0


From fb4c994e57df98c938df65892e74df85b2028a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 38/56] fix: creating a space from a configuration leaves the
 configuration unchanged

---
 GPyOpt/core/task/space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 80fdda4..f8bef43 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -91,6 +91,7 @@ class Design_space(object):
         import six
         from ast import literal_eval
 
+        space = [d.copy() for d in space]
         for d in space:
             if isinstance(d['dimensionality'],six.string_types):
                 d['dimensionality'] = int(d['dimensionality'])
-- 
2.43.0


From 5928f896f8432384a51380fec05dc7990c6b0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 39/56] fix: loading the objective of an experiment

---
 GPyOpt/interface/func_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/func_loader.py b/GPyOpt/interface/func_loader.py
index 6456a51..386f24f 100644
--- a/GPyOpt/interface/func_loader.py
+++ b/GPyOpt/interface/func_loader.py
@@ -15,8 +15,10 @@ def load_objective(config):
     os.chdir(config['prjpath'])
     if config['language'].lower()=='python':
         assert config['main-file'].endswith('.py'), 'The python problem file has to end with .py!'
-        import imp
-        m = imp.load_source(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        from importlib.util import spec_from_file_location, module_from_spec
+        spec = spec_from_file_location(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        m = module_from_spec(spec)
+        spec.loader.exec_module(m)
         func = m.__dict__[config['main-file'][:-3]]
     return func
 
-- 
2.43.0


From df441dfd2955a5b2a75849c6c91fbc88074cc675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 40/56] fix: configurations with the LCB and the integrated
 acquisitions

---
 GPyOpt/acquisitions/EI_mcmc.py  | 4 ++++
 GPyOpt/acquisitions/LCB.py      | 4 ++++
 GPyOpt/acquisitions/LCB_mcmc.py | 4 ++++
 GPyOpt/acquisitions/MPI_mcmc.py | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/GPyOpt/acquisitions/EI_mcmc.py b/GPyOpt/acquisitions/EI_mcmc.py
index 1ea68cf..2f80042 100644
--- a/GPyOpt/acquisitions/EI_mcmc.py
+++ b/GPyOpt/acquisitions/EI_mcmc.py
@@ -26,6 +26,10 @@ class AcquisitionEI_MCMC(AcquisitionEI):
         
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated EI'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionEI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+
     def _compute_acq(self,x):
         """
         Integrated Expected Improvement
diff --git a/GPyOpt/acquisitions/LCB.py b/GPyOpt/acquisitions/LCB.py
index f13047a..9721233 100644
--- a/GPyOpt/acquisitions/LCB.py
+++ b/GPyOpt/acquisitions/LCB.py
@@ -32,6 +32,10 @@ class AcquisitionLCB(AcquisitionBase):
         if cost_withGradients is not None:
             print('The set cost function is ignored! LCB acquisition does not make sense with cost.')  
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionLCB(model, space, optimizer, cost_withGradients, exploration_weight=config.get('exploration_weight', 2))
+
     def _compute_acq(self, x):
         """
         Computes the GP-Lower Confidence Bound 
diff --git a/GPyOpt/acquisitions/LCB_mcmc.py b/GPyOpt/acquisitions/LCB_mcmc.py
index 18cecb4..7505012 100644
--- a/GPyOpt/acquisitions/LCB_mcmc.py
+++ b/GPyOpt/acquisitions/LCB_mcmc.py
@@ -23,6 +23,10 @@ class AcquisitionLCB_MCMC(AcquisitionLCB):
         super(AcquisitionLCB_MCMC, self).__init__(model, space, optimizer,cost_withGradients,exploration_weight)
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated GP-LCB'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionLCB_MCMC(model, space, optimizer, cost_withGradients, exploration_weight=config.get('exploration_weight', 2))
+
     def _compute_acq(self,x):
         """
         Integrated GP-Lower Confidence Bound
diff --git a/GPyOpt/acquisitions/MPI_mcmc.py b/GPyOpt/acquisitions/MPI_mcmc.py
index 6ac4898..5478e1e 100644
--- a/GPyOpt/acquisitions/MPI_mcmc.py
+++ b/GPyOpt/acquisitions/MPI_mcmc.py
@@ -26,6 +26,10 @@ class AcquisitionMPI_MCMC(AcquisitionMPI):
 
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated EI'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionMPI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+
     def _compute_acq(self,x):
         """
         Integrated Expected Improvement
-- 
2.43.0


From 87e3c3390cdce93646025648a87eb72f3a43b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 41/56] fix: configurations with the models GP_MCMC, RF and
 warpGP

---
 GPyOpt/models/gpmodel.py       | 5 +++++
 GPyOpt/models/rfmodel.py       | 5 +++++
 GPyOpt/models/warpedgpmodel.py | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 4b0569c..c99ab33 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -218,6 +218,11 @@ class GPModel_MCMC(BOModel):
         self.leapfrog_steps = leapfrog_steps
         self.model = None
 
+    @staticmethod
+    def fromConfig(config):
+        # the defaults of the configuration include an option of sparse models
+        return GPModel_MCMC(**{k: v for k, v in config.items() if k != 'num_inducing'})
+
     def _create_model(self, X, Y):
         """
         Creates the model given some input data X and Y.
diff --git a/GPyOpt/models/rfmodel.py b/GPyOpt/models/rfmodel.py
index 3a10ee9..2f21a59 100644
--- a/GPyOpt/models/rfmodel.py
+++ b/GPyOpt/models/rfmodel.py
@@ -39,6 +39,11 @@ class RFModel(BOModel):
 
         self.model = None
 
+    @staticmethod
+    def fromConfig(config):
+        # the defaults of the configuration include an option of sparse models
+        return RFModel(**{k: v for k, v in config.items() if k != 'num_inducing'})
+
     def _create_model(self, X, Y):
         """
         Creates the model given some input data X and Y.
diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index ec81e37..da72aaa 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -30,6 +30,11 @@ class WarpedGPModel(BOModel):
         self.warping_terms =  warping_terms
         self.model = None
 
+    @staticmethod
+    def fromConfig(config):
+        # the defaults of the configuration include an option of sparse models
+        return WarpedGPModel(**{k: v for k, v in config.items() if k != 'num_inducing'})
+
     def _create_model(self, X, Y):
         # --- define kernel
         self.input_dim = X.shape[1]
-- 
2.43.0


From b6c911b58c5cc6593bfba4912d4fb14766d7af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 42/56] fix: noisy evaluations of alpine1

The noise was not a column, so that n evaluations returned an n x n matrix in
which every point got the noise of every other point.
---
 GPyOpt/objective_examples/experimentsNd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 2d34b25..5904d56 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -32,7 +32,7 @@ class alpine1:
         if self.sd ==0:
             noise = np.zeros(n).reshape(n,1)
         else:
-            noise = np.random.normal(0,self.sd,n)
+            noise = np.random.normal(0,self.sd,n).reshape(n,1)
         return fval.reshape(n,1) + noise
 
 
-- 
2.43.0


From f929687cc743f448c290d229e0e414d28da6ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 43/56] fix: minimizer of the Ackley function

The point at which the minimum is attained has one coordinate per dimension.
---
 GPyOpt/objective_examples/experimentsNd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 5904d56..ac6de31 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -112,7 +112,7 @@ class ackley:
         else: 
             self.bounds = bounds
 
-        self.min = [(0.)*self.input_dim]
+        self.min = [(0.)]*self.input_dim
         self.fmin = 0
         
         if sd==None: 
-- 
2.43.0


From 5e6a65c0c21d336fd4c2a340e222dd87a26316f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 44/56] fix: the Beale function

The class evaluated the negative of the Rosenbrock function, which is unbounded
below and does not have the documented minimum.
---
 GPyOpt/objective_examples/experiments2d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index 8264afb..91d5f2d 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -85,9 +85,9 @@ class beale(function2d):
     '''
     def __init__(self,bounds=None,sd=None):
         self.input_dim = 2
-        if bounds is  None: self.bounds = [(-1,1),(-1,1)]
+        if bounds is  None: self.bounds = [(-4.5,4.5),(-4.5,4.5)]
         else: self.bounds = bounds
-        self.min = [(0, 0)]
+        self.min = [(3, 0.5)]
         self.fmin = 0
         if sd==None: self.sd = 0
         else: self.sd=sd
@@ -99,12 +99,14 @@ class beale(function2d):
         if X.shape[1] != self.input_dim:
             return 'Wrong input dimension'
         else:
-            fval = 100*(X[:,1]-X[:,0]**2)**2 + (X[:,0]-1)**2
+            x1 = X[:,0]
+            x2 = X[:,1]
+            fval = (1.5-x1+x1*x2)**2 + (2.25-x1+x1*x2**2)**2 + (2.625-x1+x1*x2**3)**2
             if self.sd ==0:
                 noise = np.zeros(n).reshape(n,1)
             else:
                 noise = np.random.normal(0,self.sd,n).reshape(n,1)
-            return -fval.reshape(n,1) + noise
+            return fval.reshape(n,1) + noise
 
 
 class dropwave(function2d):
-- 
2.43.0


From e05fd7aeea66bb409331a9945485c00b27d87439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 45/56] fix: sign and minimum of the drop-wave function

The function was negated twice: the documented minimizer was its maximizer.
---
 GPyOpt/objective_examples/experiments2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index 91d5f2d..2b8ea9e 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -121,7 +121,7 @@ class dropwave(function2d):
         if bounds is  None: self.bounds = [(-1,1),(-1,1)]
         else: self.bounds = bounds
         self.min = [(0, 0)]
-        self.fmin = 0
+        self.fmin = -1
         if sd==None: self.sd = 0
         else: self.sd=sd
         self.name = 'dropwave'
@@ -137,7 +137,7 @@ class dropwave(function2d):
                 noise = np.zeros(n).reshape(n,1)
             else:
                 noise = np.random.normal(0,self.sd,n).reshape(n,1)
-            return -fval.reshape(n,1) + noise
+            return fval.reshape(n,1) + noise
 
 
 class cosines(function2d):
-- 
2.43.0


From 52c684e1d1aa7e2e403073f44cb5e9222a3c4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 46/56] fix: minimum of the cosines function

The documented minimum -1.5962 is not the minimum: the function is -1.6 at (0.3125, 0.3125).
---
 GPyOpt/objective_examples/experiments2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index 2b8ea9e..e6b6651 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -151,8 +151,8 @@ class cosines(function2d):
         self.input_dim = 2
         if bounds is  None: self.bounds = [(0,1),(0,1)]
         else: self.bounds = bounds
-        self.min = [(0.31426205,  0.30249864)]
-        self.fmin = -1.59622468
+        self.min = [(0.3125, 0.3125)]
+        self.fmin = -1.6
         if sd==None: self.sd = 0
         else: self.sd=sd
         self.name = 'Cosines'
-- 
2.43.0


From 2b5eb300f4a2153bd6ab3a6817b5aed99b0b9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 47/56] fix: minimum of the Forrester function

The function is -5.73 at the documented minimizer and goes below the documented minimum.
---
 GPyOpt/objective_examples/experiments1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments1d.py b/GPyOpt/objective_examples/experiments1d.py
index a6c0772..34d7e47 100644
--- a/GPyOpt/objective_examples/experiments1d.py
+++ b/GPyOpt/objective_examples/experiments1d.py
@@ -29,8 +29,8 @@ class forrester(function1d):
 		self.input_dim = 1		
 		if sd==None: self.sd = 0
 		else: self.sd=sd
-		self.min = 0.78 		## approx
-		self.fmin = -6 			## approx
+		self.min = 0.757249 	## approx
+		self.fmin = -6.02074 	## approx
 		self.bounds = [(0,1)]
 
 	def f(self,X):
-- 
2.43.0


From 8f935bd7702c26dde9d28cdd7df9ecb3fa53d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:20 +0000
Subject: [PATCH 48/56] fix: zip_inputs accepts a single point (Thompson
 evaluator used without a context)

---
 GPyOpt/core/task/space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index f8bef43..5f5b063 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -228,6 +228,7 @@ class Design_space(object):
         return np.atleast_2d(Z)
 
     def zip_inputs(self,X):
+        X = np.atleast_2d(X)
         if self._has_bandit():
             Z = X
         else:
-- 
2.43.0


From 683d303007023abce0a6f5fbd7cf492af33b2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 49/56] fix: second derivatives of the entropy search beliefs
 subtract the outer product of the mean gradients

---
 GPyOpt/util/epmgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/util/epmgp.py b/GPyOpt/util/epmgp.py
index e9514a4..6d2659d 100644
--- a/GPyOpt/util/epmgp.py
+++ b/GPyOpt/util/epmgp.py
@@ -113,7 +113,7 @@ def joint_min(mu, var, with_derivatives=False, **kwargs):
 
     ff = np.einsum('ki,kj->kij', dlogPdMuold, dlogPdMuold)
     gg = np.einsum('kij,k->ij', dlogPdMudMuold + ff, np.exp(logPold)) / Z
-    Zij = Zm.T * Zm
+    Zij = np.outer(Zm, Zm)
     adds = np.reshape(-gg + Zij, (1, D, D))
     dlogPdMudMu = dlogPdMudMuold + adds
     return logP, dlogPdMu, dlogPdSigma, dlogPdMudMu
-- 
2.43.0


From dc900bad334e4d00ae4d501c1af7ecc58681e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:46 +0000
Subject: [PATCH 50/56] fix: entropy search uses the beliefs of the current
 model

---
 GPyOpt/acquisitions/ES.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/GPyOpt/acquisitions/ES.py b/GPyOpt/acquisitions/ES.py
index a0378c6..89e8759 100644
--- a/GPyOpt/acquisitions/ES.py
+++ b/GPyOpt/acquisitions/ES.py
@@ -82,6 +82,15 @@ class AcquisitionEntropySearch(AcquisitionBase):
         self.repr_points_log = None
         self.logP = None
 
+    def optimize(self, duplicate_manager=None):
+        """
+        Optimizes the acquisition under the beliefs of the current model: those of an earlier one are dropped.
+        """
+        self.repr_points = None
+        self.repr_points_log = None
+        self.logP = None
+        return super(AcquisitionEntropySearch, self).optimize(duplicate_manager)
+
     def _update_parameters(self):
         """
         Update parameters of the acquisition required to evaluate the function. In particular:
-- 
2.43.0


From c412ebf56326e3658fda7bc8aff341b0196d8888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 51/56] fix: covariance between two sets of points does not
 include the observation noise (failed for sets of different sizes)

---
 GPyOpt/models/gpmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index c99ab33..52ca2ad 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -182,7 +182,7 @@ class GPModel(BOModel):
         """
         Given the current posterior, computes the covariance between two sets of points.
         """
-        return self.model.posterior_covariance_between_points(x1, x2)
+        return self.model.posterior_covariance_between_points(x1, x2, include_likelihood=False)
 
 
 class GPModel_MCMC(BOModel):
-- 
2.43.0


From 65a40ddd3bfcd44e8f82946a985f2d9e99bb78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 52/56] fix: random designs of spaces with several bandit
 variables fill each variable's own columns

---
 GPyOpt/experiment_design/random_design.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/experiment_design/random_design.py b/GPyOpt/experiment_design/random_design.py
index 1b6f8e6..ba3056d 100644
--- a/GPyOpt/experiment_design/random_design.py
+++ b/GPyOpt/experiment_design/random_design.py
@@ -40,7 +40,8 @@ class RandomDesign(ExperimentDesign):
         """
         init_points_count = samples.shape[0]
 
-        for (idx, var) in enumerate(self.space.space_expanded):
+        idx = 0
+        for var in self.space.space_expanded:
             if isinstance(var, DiscreteVariable) or isinstance(var, CategoricalVariable) :
                 sample_var = np.atleast_2d(np.random.choice(var.domain, init_points_count))
                 samples[:,idx] = sample_var.flatten()
@@ -52,6 +53,8 @@ class RandomDesign(ExperimentDesign):
                 bandit_idx = np.arange(idx, idx + var.domain.shape[1])
                 samples[:, bandit_idx] = var.domain[idx_samples,:]
 
+            # index of the first column of the next variable
+            idx += var.domain.shape[1] if isinstance(var, BanditVariable) else 1
 
     def get_samples_without_constraints(self, init_points_count):
         samples = np.empty((init_points_count, self.space.dimensionality))
-- 
2.43.0


From 788e45facf036b69cf8557e275aa702070a918c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 53/56] fix: report of spaces whose bandit variables have arms
 of different lengths

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 5c80820..abec129 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -341,7 +341,7 @@ class BO(object):
             file.write('Problem dimension:           ' + str(self.space.dimensionality) +'\n')
             file.write('Number continuous variables  ' + str(len(self.space.get_continuous_dims()) ) +'\n')
             file.write('Number discrete variables    ' + str(len(self.space.get_discrete_dims())) +'\n')
-            file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
+            file.write('Number bandits               ' + str(sum(len(d.domain) for d in self.space.space if d.is_bandit())) +'\n')
             file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
             file.write('Constraints:                  ' + str(self.constraints is not None) +'\n')
-- 
2.43.0


From 709f2f0979b67f7a7fe235823819687880246693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 54/56] fix: rounding in spaces with several bandit variables
 returns one point

---
 GPyOpt/core/task/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 2681f2c..11ae6db 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -156,7 +156,7 @@ class BanditVariable(Variable):
         """
         distances = np.linalg.norm(np.array(self.domain) - value_array, axis=1)
         idx = np.argmin(distances)
-        return [self.domain[idx]]
+        return list(self.domain[idx])
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From c050c9b6b0ffc00914559536be669da4fa61c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:09 +0000
Subject: [PATCH 55/56] fix: bandit domains given as a list of arms, as
 documented

---
 GPyOpt/core/task/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 11ae6db..a0edb15 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -125,7 +125,7 @@ class BanditVariable(Variable):
         if dimensionality is None:
             dimensionality = len(domain[0])
 
-        super(BanditVariable, self).__init__(name, 'bandit', domain, dimensionality)
+        super(BanditVariable, self).__init__(name, 'bandit', np.array(domain), dimensionality)
 
     def objective_to_model(self, x_objective):
         return x_objective
-- 
2.43.0


From b341bcd033786f5c4489152a480776209a8a839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:39 +0000
Subject: [PATCH 56/56] fix: accept the documented name of the input warped
 model and reject unknown models

---
 GPyOpt/util/arguments_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 73fba29..d7682cb 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -132,7 +132,7 @@ class ArgumentsManager(object):
         # --------
         # --- Initialize WapedGP in the inputs
         # --------
-        elif model_type == 'input_warped_GP':
+        elif model_type in ('input_warped_GP', 'InputWarpedGP'):
             if 'input_warping_function_type' in self.kwargs:
                 if self.kwargs['input_warping_function_type'] != "kumar_warping":
                     print("Only support kumar_warping for input!")
@@ -143,3 +143,6 @@ class ArgumentsManager(object):
             return InputWarpedGPModel(space, input_warping_function, kernel, noise_var,
                                       exact_feval, model_optimizer_type, max_iters,
                                       optimize_restarts, verbosity_model, ARD)
+
+        else:
+            raise InvalidConfigError('Invalid model selected.')
-- 
2.43.0

