From 93539a59e3e6e02bde72b7e4a1c378cbee5e7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:12 +0000
Subject: [PATCH 01/14] fix: seeded mixed logit draws use a private generator

Passing `seed` reset the caller's global numpy random state and left the
draws exposed to any other user of that state between seeding and drawing.
The numbers drawn for a given seed are unchanged.
---
 src/pylogit/mixed_logit_calcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/mixed_logit_calcs.py b/src/pylogit/mixed_logit_calcs.py
index 1973eba..4f259dd 100755
--- a/src/pylogit/mixed_logit_calcs.py
+++ b/src/pylogit/mixed_logit_calcs.py
@@ -80,10 +80,12 @@ def get_normal_draws(num_mixers,
 
     normal_dist = scipy.stats.norm(loc=0.0, scale=1.0)
     all_draws = []
-    if seed:
-        np.random.seed(seed)
+    # Use a private generator when a seed is given, so that the draws do not
+    # depend on, and do not reset, the global numpy random state.
+    random_state = np.random.RandomState(seed) if seed else None
     for i in xrange(num_vars):
-        all_draws.append(normal_dist.rvs(size=(num_mixers, num_draws)))
+        all_draws.append(normal_dist.rvs(size=(num_mixers, num_draws),
+                                         random_state=random_state))
     return all_draws
 
 
-- 
2.43.0


From 3859b37df491d7ee295a7b2c223516d35f4c6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:12 +0000
Subject: [PATCH 02/14] fix: seeded bootstrap sampling uses a private generator

Passing `seed` reset the caller's global numpy random state and left the
samples exposed to any other user of that state.  The samples drawn for a
given seed are unchanged.
---
 src/pylogit/bootstrap_sampler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pylogit/bootstrap_sampler.py b/src/pylogit/bootstrap_sampler.py
index d1db4d1..aef1a99 100644
--- a/src/pylogit/bootstrap_sampler.py
+++ b/src/pylogit/bootstrap_sampler.py
@@ -148,14 +148,16 @@ def create_cross_sectional_bootstrap_samples(obs_id_array,
     # Initialize the array that will store the observation ids for each sample
     ids_per_sample = np.empty((num_samples, tot_num_obs), dtype=float)
 
+    # By default, draw from the global numpy random state.
+    random_source = np.random
     if seed is not None:
         # Check the validity of the seed argument.
         if not isinstance(seed, int):
             msg = "`boot_seed` MUST be an int."
             raise ValueError(msg)
 
-        # If desiring reproducibility, set the random seed within numpy
-        np.random.seed(seed)
+        # If desiring reproducibility, draw from a private, seeded generator
+        random_source = np.random.RandomState(seed)
 
     # Initialize a variable to keep track of what column we're on.
     col_idx = 0
@@ -165,10 +167,10 @@ def create_cross_sectional_bootstrap_samples(obs_id_array,
         # Determine the number of needed resampled ids.
         resample_size = num_obs_per_group[alt_id]
         # Resample, with replacement, observations who chose this alternative.
-        current_ids = (np.random.choice(relevant_ids,
-                                        size=resample_size * num_samples,
-                                        replace=True)
-                                .reshape((num_samples, resample_size)))
+        current_ids = (random_source.choice(relevant_ids,
+                                            size=resample_size * num_samples,
+                                            replace=True)
+                                    .reshape((num_samples, resample_size)))
         # Determine the last column index to use when storing the resampled ids
         end_col = col_idx + resample_size
         # Assign the sampled ids to the correct columns of ids_per_sample
-- 
2.43.0


From 135d632e51539fe9fc6658c3410b48eefdada7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:12 +0000
Subject: [PATCH 03/14] fix: to_pickle never leaves a truncated model file

The target was truncated before pickling started, so an error, interrupt,
full disk or crash while saving destroyed the previously saved model.
---
 src/pylogit/base_multinomial_cm_v2.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..24222da 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -14,7 +14,9 @@ Created on Tues Feb 22 09:30:44 2016
 """
 from __future__ import absolute_import
 
+import os
 import pickle
+import uuid
 from copy import deepcopy
 from functools import reduce
 from numbers import Number
@@ -1989,8 +1991,21 @@ class MNDC_Model(object):
         if not filepath.endswith(".pkl"):
             filepath = filepath + ".pkl"
 
-        with open(filepath, "wb") as f:
-            pickle.dump(self, f)
+        # Write to a temporary file beside the target and rename it into place
+        # once it is complete, so that a failure part way through never damages
+        # a model that was already saved at this location.
+        target = os.path.realpath(filepath)
+        temp_path = "{}.{}.tmp".format(target, uuid.uuid4().hex)
+        try:
+            with open(temp_path, "wb") as f:
+                pickle.dump(self, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(temp_path, target)
+        except BaseException:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+            raise
 
         print("Model saved to {}".format(filepath))
 
-- 
2.43.0


From 36094aaa306dba4b995da30ef79bb1ea59112a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:03 +0000
Subject: [PATCH 04/14] fix: nested logit models can be saved

The utility transform was a lambda stored on the instance, so to_pickle
always failed for nested logit models.
---
 src/pylogit/nested_logit.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..0bb3de0 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -336,6 +336,17 @@ class NestedEstimator(EstimationObj):
         return placeholder_bhhh
 
 
+# Use a module level function as the utility transform, as opposed to a lambda,
+# so that nested logit models can be pickled.
+def _identity_utility_transform(sys_utilities, *args, **kwargs):
+    """
+    Returns
+    -------
+    `sys_utilities[:, None]`
+    """
+    return sys_utilities[:, None]
+
+
 # Define the nested logit model class
 class NestedLogit(base_mcm.MNDC_Model):
     """
@@ -433,7 +444,7 @@ class NestedLogit(base_mcm.MNDC_Model):
         ##########
         # Store the utility transform function
         ##########
-        self.utility_transform = lambda x, *args, **kwargs: x[:, None]
+        self.utility_transform = _identity_utility_transform
 
         return None
 
-- 
2.43.0


From 91d12da487b60d982492be7ab75636478ecab7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:03 +0000
Subject: [PATCH 05/14] fix: storing estimation results is all or nothing

An error or interruption while the results of a second fit_mle were being
stored left a model with some attributes from each of the two estimations.
---
 src/pylogit/base_multinomial_cm_v2.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 24222da..b9a4482 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -17,7 +17,7 @@ from __future__ import absolute_import
 import os
 import pickle
 import uuid
-from copy import deepcopy
+from copy import copy, deepcopy
 from functools import reduce
 from numbers import Number
 
@@ -1403,7 +1403,7 @@ class MNDC_Model(object):
 
         if self.mixing_vars is not None and not already_included:
             new_ind_var_names = ["Sigma " + x for x in self.mixing_vars]
-            self.ind_var_names += new_ind_var_names
+            self.ind_var_names = self.ind_var_names + new_ind_var_names
         return None
 
     def store_fit_results(self, results_dict):
@@ -1429,6 +1429,20 @@ class MNDC_Model(object):
         # Check to make sure the results_dict has all the needed keys.
         self._check_result_dict_for_needed_keys(results_dict)
 
+        # Calculate everything on a staging copy of this model, and transfer
+        # the results in one step, so that an error or interruption part way
+        # through leaves the results of the previous estimation intact.
+        staged_model = copy(self)
+        staged_model._calc_and_store_fit_results(results_dict)
+        self.__dict__.update(staged_model.__dict__)
+
+        return None
+
+    def _calc_and_store_fit_results(self, results_dict):
+        """
+        Performs the calculations for, and takes the same arguments as,
+        `store_fit_results`.
+        """
         # Store the basic estimation results that simply need to be transferred
         # from the results_dict to the model instance.
         self._store_basic_estimation_results(results_dict)
-- 
2.43.0


From b639660aeed6031888062d093fdcce3eb6f94dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:57 +0000
Subject: [PATCH 06/14] fix: bootstrapping no longer alters the caller's
 mnl_fit_kwargs

"just_point" and "method" were written into the dictionary the user passed.
---
 src/pylogit/bootstrap_mle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 7556ef7..b8debf0 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -202,6 +202,8 @@ def get_mnl_point_est(orig_model_obj,
         if mnl_fit_kwargs is None:
             mnl_fit_kwargs = {}
 
+    # Copy the keyword arguments so the caller's dictionary is left untouched.
+    mnl_fit_kwargs = dict(mnl_fit_kwargs)
     # Alter the mnl_fit_kwargs to ensure that we only perform point estimation
     mnl_fit_kwargs["just_point"] = True
     # Use BFGS by default to estimate the MNL since it works well for the MNL.
-- 
2.43.0


From 215ab262ea4c83478e74bc986d9840ab33796fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:57 +0000
Subject: [PATCH 07/14] fix: second order methods respect constrained_pos

Only the gradient was masked, so Newton-CG and trust-ncg moved parameters
that the user had asked to be held at their initial values.
---
 src/pylogit/estimation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/estimation.py b/src/pylogit/estimation.py
index c899fc7..887604f 100644
--- a/src/pylogit/estimation.py
+++ b/src/pylogit/estimation.py
@@ -224,7 +224,16 @@ class EstimationObj(object):
         Calculate and return the negative of the hessian for this model and
         dataset.
         """
-        return -1 * self.convenience_calc_hessian(params)
+        neg_hessian = -1 * self.convenience_calc_hessian(params)
+
+        if self.constrained_pos is not None:
+            # Separate the constrained parameters from all the others, so that
+            # second order methods never move the constrained parameters.
+            neg_hessian[self.constrained_pos, :] = 0
+            neg_hessian[:, self.constrained_pos] = 0
+            neg_hessian[self.constrained_pos, self.constrained_pos] = 1
+
+        return neg_hessian
 
 
 class LogitTypeEstimator(EstimationObj):
-- 
2.43.0


From 70b9c9de10153620ace9a20a2b43b8ca5290082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:57 +0000
Subject: [PATCH 08/14] fix: all_intervals is only stored once it is complete

An interruption between the concatenation and the labelling left an
unlabelled dataframe on the Boot object.
---
 src/pylogit/bootstrap.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 0dab7ae..ea2a26c 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -867,14 +867,16 @@ class Boot(object):
                 list(itertools.product(interval_type_names, endpoint_names))
             df_column_index = pd.MultiIndex.from_tuples(multi_index_names)
             # Create the dataframe containing all confidence intervals
-            self.all_intervals = pd.concat([self.percentile_interval,
-                                            self.bca_interval,
-                                            self.abc_interval],
-                                           axis=1,
-                                           ignore_index=True)
+            all_intervals = pd.concat([self.percentile_interval,
+                                       self.bca_interval,
+                                       self.abc_interval],
+                                      axis=1,
+                                      ignore_index=True)
             # Store the column names for the combined confidence intervals
-            self.all_intervals.columns = df_column_index
-            self.all_intervals.index = self.mle_params.index
+            all_intervals.columns = df_column_index
+            all_intervals.index = self.mle_params.index
+            # Only store the dataframe once it is complete.
+            self.all_intervals = all_intervals
         else:
             msg =\
                 "interval_type MUST be in `['pi', 'bca', 'abc', 'all']`"
-- 
2.43.0


From 03222b8a5b3d2cd3d325684a84b71d83048274f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:57 +0000
Subject: [PATCH 09/14] fix: nest gradient when a nest is unavailable to an
 observation

For an observation with no available alternatives in a nest, the guard
value times the (floored) nest probability added one to that observation's
derivative instead of zero.
---
 src/pylogit/nested_choice_calcs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index c949a38..d6830f4 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -593,8 +593,10 @@ def calc_nested_gradient(orig_nest_coefs,
     ##########
     # Calculate the term that onlny depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # Nests without any available alternatives contribute nothing. Note such
+    # nests are the only ones with sums of zero since the exponentiated indices
+    # are bounded away from zero.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters
@@ -770,8 +772,10 @@ def calc_bhhh_hessian_approximation(orig_nest_coefs,
     ##########
     # Calculate the term that only depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # Nests without any available alternatives contribute nothing. Note such
+    # nests are the only ones with sums of zero since the exponentiated indices
+    # are bounded away from zero.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters. Note we do not sum this object since
-- 
2.43.0


From 867d75d4bc380a9c9eb998751fbe90ee0fb23b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 10/14] fix: match past choices with the same individual's
 draws in panel_predict

The draws follow the order of individuals in the new data, the past choices
that of the estimation data; when the two differ, the weights of one
individual's draws were computed from another's.
---
 src/pylogit/mixed_logit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..26972ee 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -869,7 +869,12 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # The draws are ordered as the individuals are in the new data, so look
+        # up each individual in the order used by the estimation dataset.
+        past_ids = orig_order_unique_ids_old[old_unique_mix_id_repeats]
+        past_draw_rows = [np.where(orig_order_unique_ids_new == x)[0][0]
+                          for x in past_ids]
+        past_draw_list = [x[past_draw_rows, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
-- 
2.43.0


From bb41bdbc48b49e870c404076ae350f331c0803e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 11/14] fix: scobit predictions for several parameter vectors
 without outside intercepts

The vector of zero intercepts did not broadcast against utilities with one
column per parameter vector, so predict and calc_log_likes_for_replicates
raised a ValueError.
---
 src/pylogit/scobit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..fb66697 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -173,8 +173,9 @@ def _scobit_utility_transform(systematic_utilities,
             all_intercepts[needed_idxs] = intercept_params
     else:
         # Create a full set of intercept parameters including the intercept
-        # constrained to zero
-        all_intercepts = np.zeros(rows_to_alts.shape[1])
+        # constrained to zero, for each column of systematic utilities
+        all_intercepts = np.zeros((rows_to_alts.shape[1],) +
+                                  systematic_utilities.shape[1:])
 
     # Figure out what intercept values correspond to each row of the
     # systematic utilities
-- 
2.43.0


From 9005998d8c4e1eae75363bde8fc85d1f5af25037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 12/14] fix: quadratic coefficient of ABC intervals when some
 parameters do not move

The numerator was restricted to the parameters that moved, the standard errors
were not, so calc_abc_interval raised a ValueError.
---
 src/pylogit/bootstrap_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..b773d68 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From 68b4aa6ef2bf66d243da3874179ec6b777eb4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:03 +0000
Subject: [PATCH 13/14] fix: mixed logit with a single draw

---
 src/pylogit/choice_calcs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 5e24be5..14a9027 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -156,7 +156,11 @@ def calc_probabilities(beta,
     individual_denominators = np.asarray(rows_to_obs.transpose().dot(
                                                     long_exponentials))
     long_denominators = np.asarray(rows_to_obs.dot(individual_denominators))
-    if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+    # With a 3D design matrix there is one column per draw, also when there is
+    # only a single draw.
+    keep_columns = (len(long_exponentials.shape) > 1 and
+                    (long_exponentials.shape[1] > 1 or len(design.shape) > 2))
+    if keep_columns:
         long_probs = (long_exponentials / long_denominators)
     else:
         long_probs = (long_exponentials / long_denominators).ravel()
@@ -170,7 +174,7 @@ def calc_probabilities(beta,
         # chosen_probs will be of shape (num_observations,)
         chosen_exponentials = np.asarray(
                          chosen_row_to_obs.transpose().dot(long_exponentials))
-        if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+        if keep_columns:
             chosen_probs = chosen_exponentials / individual_denominators
         else:
             chosen_probs = (chosen_exponentials /
-- 
2.43.0


From 7b527090c2b886fafea4fedf5e194179f0ec81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:03 +0000
Subject: [PATCH 14/14] fix: predictions at a single column of parameters with
 shapes or outside intercepts

---
 src/pylogit/asym_logit.py   | 4 ++--
 src/pylogit/clog_log.py     | 2 +-
 src/pylogit/scobit.py       | 2 +-
 src/pylogit/uneven_logit.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..e0da3d5 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -160,7 +160,7 @@ def _convert_eta_to_c(eta, ref_position):
     replace_list.remove(ref_position)
 
     # Initialize an array for the vector of shape parameters, c
-    if len(eta.shape) > 1 and eta.shape[1] > 1:
+    if len(eta.shape) > 1:
         # Get an array of zeros with shape
         # (num_possible_alternatives, num_parameter_samples). This is used when
         # working with samples from a Bayesian posterior distribution
@@ -318,7 +318,7 @@ def _asym_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..f89fdaf 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -183,7 +183,7 @@ def _cloglog_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index fb66697..69471af 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -157,7 +157,7 @@ def _scobit_utility_transform(systematic_utilities,
         needed_idxs = range(intercept_params.shape[0] + 1)
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..57ad1ca 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -213,7 +213,7 @@ def _uneven_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
-- 
2.43.0

