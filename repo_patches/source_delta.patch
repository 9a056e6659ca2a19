From 93a276df8795cf2cc342fd732a3dcad03d56ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:03 +0000
Subject: [PATCH 01/27] fix: check contiguity of observation rows, not that ids
 ascend

Contiguous rows whose ids do not ascend were refused as 'not contiguous', and
with unsigned ids (differences wrap around) non-contiguous rows were accepted.
---
 src/pylogit/choice_tools.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c9653d7..bb58769 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1449,11 +1449,15 @@ def ensure_contiguity_in_observation_rows(obs_id_vector):
     -------
     None.
     """
-    # Check that the choice situation id for each row is larger than or equal
-    # to the choice situation id of the preceding row.
-    contiguity_check_array = (obs_id_vector[1:] - obs_id_vector[:-1]) >= 0
-    if not contiguity_check_array.all():
-        problem_ids = obs_id_vector[np.where(~contiguity_check_array)]
+    # Determine where each block of consecutive, identical ids begins. An id's
+    # rows are contiguous if and only if the id begins exactly one such block.
+    obs_id_vector = np.asarray(obs_id_vector)
+    block_starts = np.ones(obs_id_vector.shape[0], dtype=bool)
+    block_starts[1:] = obs_id_vector[1:] != obs_id_vector[:-1]
+    unique_ids, num_blocks = np.unique(obs_id_vector[block_starts],
+                                       return_counts=True)
+    if (num_blocks > 1).any():
+        problem_ids = unique_ids[num_blocks > 1]
         msg_1 = "All rows pertaining to a given choice situation must be "
         msg_2 = "contiguous. \nRows pertaining to the following observation "
         msg_3 = "id's are not contiguous: \n{}"
-- 
2.43.0


From 76a35f3df97cd15a5266fc9886fd3c93a40835a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:37 +0000
Subject: [PATCH 02/27] fix: nests with no available alternative add nothing to
 the nested logit gradient

Such a nest contributed (0 - 1e-300) * -1e300 = +1 per observation to the
gradient (and to the per-observation scores of the BHHH matrix).
---
 src/pylogit/nested_choice_calcs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index c949a38..3513a51 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -593,8 +593,9 @@ def calc_nested_gradient(orig_nest_coefs,
     ##########
     # Calculate the term that onlny depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # Nests without any available alternative in an observation do not
+    # contribute to that observation's derivatives
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters
@@ -770,8 +771,9 @@ def calc_bhhh_hessian_approximation(orig_nest_coefs,
     ##########
     # Calculate the term that only depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # Nests without any available alternative in an observation do not
+    # contribute to that observation's derivatives
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters. Note we do not sum this object since
-- 
2.43.0


From 7eb745f214216f702bcdec6b8bf43e4075dd4afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:04 +0000
Subject: [PATCH 03/27] fix: label design matrix columns by variable, not by
 the order of names

names was only required to have the same keys as the specification; with its
keys in another order every label was attached to another variable's column.
---
 src/pylogit/choice_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index bb58769..d312054 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -706,7 +706,8 @@ def create_design_matrix(long_form,
     # Use the list of names passed by the user, if the user passed such a list
     if names is not None:
         var_names = []
-        for value in names.values():
+        for variable in specification_dict:
+            value = names[variable]
             if isinstance(value, str):
                 var_names.append(value)
             else:
-- 
2.43.0


From 0218249245f2ce2f0a4def5e73304f046ed0f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:33 +0000
Subject: [PATCH 04/27] fix: convert_wide_to_long uses availability columns in
 sorted alternative order

The availability columns were taken in the order of availability_vars while the
alternatives are sorted, so with another dict order rows were kept or dropped,
and ids attached, for the wrong alternatives.
---
 src/pylogit/choice_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index d312054..2124e32 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1634,8 +1634,7 @@ def convert_wide_to_long(wide_data,
     # Create the observation id column,
     #####
     # Determine the various availability values for each observation
-    wide_availability_values = wide_data[list(
-        availability_vars.values())].values
+    wide_availability_values = wide_data[sorted_availability_cols].values
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From 17b0bf172d66ae8be9e58356cf0f4443c31dbe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 05/27] fix: convert_long_to_wide matches choices to
 observations by id

The chosen alternatives were assigned in row order, which attaches them to the
wrong observations when the rows of observations are interleaved.
---
 src/pylogit/choice_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 2124e32..86c242c 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1143,8 +1143,9 @@ def convert_long_to_wide(long_data,
     #####
     # Create the choice column in the wide data format
     #####
-    new_df[choice_col] = long_data.loc[long_data[choice_col] == 1,
-                                       alt_id_col].values
+    chosen_alts = (long_data.loc[long_data[choice_col] == 1]
+                            .set_index(obs_id_col)[alt_id_col])
+    new_df[choice_col] = chosen_alts.loc[new_df[obs_id_col].values].values
 
     #####
     # Create the availability columns
-- 
2.43.0


From 59bc1a3d8884726a23b64cd38a93bf680f18062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:09 +0000
Subject: [PATCH 06/27] fix: convert_long_to_wide accepts data without
 alternative specific variables

---
 src/pylogit/choice_tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 86c242c..f9eaeb5 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1231,17 +1231,13 @@ def convert_long_to_wide(long_data,
         # Store the current alternative specific variable columns/dataframe
         alt_specific_dfs.append(obs_to_var_df)
 
-    # Combine all of the various alternative specific variable dataframes
-    final_alt_specific_df = pd.concat(alt_specific_dfs, axis=1)
-
     ##########
     # Construct the final wide format dataframe to be returned
     ##########
     final_wide_df = pd.concat([new_df[[obs_id_col]],
                                new_df[[choice_col]],
                                availability_df,
-                               new_df[ind_vars],
-                               final_alt_specific_df],
+                               new_df[ind_vars]] + alt_specific_dfs,
                               axis=1)
 
     # Make sure one has the correct number of rows and columns in
-- 
2.43.0


From 0a5b466d0b551c41e58e47a19d36afd1eaaca67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:03 +0000
Subject: [PATCH 07/27] fix: predict returns chosen and long probabilities for
 nested and mixed logit

---
 src/pylogit/base_multinomial_cm_v2.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..02c367b 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1913,7 +1913,9 @@ class MNDC_Model(object):
             # Get the 'natural' nest coefficients for prediction
             new_natural_nests = naturalize_nest_coefs(new_nest_coefs)
             # Determine the return string for the nested logit model
-            if return_long_probs:
+            if return_long_probs and choice_col is not None:
+                return_string = "long_and_chosen_probs"
+            elif return_long_probs:
                 return_string = "long_probs"
             else:
                 return_string = "chosen_probs"
@@ -1956,8 +1958,11 @@ class MNDC_Model(object):
                            "shape_params": new_shape_params,
                            "chosen_row_to_obs": new_chosen_to_obs,
                            "return_long_probs": return_long_probs}
-            prob_array = calc_probabilities(*prob_args, **prob_kwargs)
-            return prob_array.mean(axis=1)
+            prob_res = calc_probabilities(*prob_args, **prob_kwargs)
+            if isinstance(prob_res, tuple):
+                # Average both the chosen and the long format probabilities
+                return tuple(probs.mean(axis=1) for probs in prob_res)
+            return prob_res.mean(axis=1)
 
         else:
             return calc_probabilities(new_index_coefs,
-- 
2.43.0


From f00478afd7bb11fd4f0afa018a6d7316ed098df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:16 +0000
Subject: [PATCH 08/27] fix: scobit predictions with a matrix of parameters and
 no outside intercepts

---
 src/pylogit/scobit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..d68b621 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -201,6 +201,9 @@ def _scobit_utility_transform(systematic_utilities,
     term_2[too_big_idx] = (-1 * long_natural_shapes[too_big_idx] *
                            systematic_utilities[too_big_idx])
 
+    # Account for matrices of parameter columns that have no outside intercepts
+    if len(term_2.shape) > len(long_intercepts.shape):
+        long_intercepts = long_intercepts[:, np.newaxis]
     transformations = long_intercepts - term_2
     # Guard against overflow
     transformations[np.isposinf(transformations)] = max_comp_value
-- 
2.43.0


From 2eff7238d6d2c7fe3f77fcfe3ba86d36e99d6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 09/27] fix: predict with parameter matrices that have a single
 column

---
 src/pylogit/base_multinomial_cm_v2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 02c367b..bbfd35e 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1902,6 +1902,9 @@ class MNDC_Model(object):
             new_nest_coefs = (self.nests.values if self.nests
                               is not None else None)
         else:
+            # Treat matrices with a single column of parameters as 1D arrays
+            param_list = [x.ravel() if x is not None and x.shape[1:] == (1,)
+                          else x for x in param_list]
             new_index_coefs = param_list[0]
             new_intercepts = param_list[1]
             new_shape_params = param_list[2]
-- 
2.43.0


From ccfcc8db23763617edd262c050cc0de075ed49c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:38 +0000
Subject: [PATCH 10/27] fix: constrained parameters stay put under optimizers
 that use the hessian

---
 src/pylogit/estimation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/estimation.py b/src/pylogit/estimation.py
index c899fc7..9f385c6 100644
--- a/src/pylogit/estimation.py
+++ b/src/pylogit/estimation.py
@@ -224,7 +224,15 @@ class EstimationObj(object):
         Calculate and return the negative of the hessian for this model and
         dataset.
         """
-        return -1 * self.convenience_calc_hessian(params)
+        neg_hessian = -1 * self.convenience_calc_hessian(params)
+
+        if self.constrained_pos is not None:
+            # Keep the optimizers from moving the constrained parameters
+            neg_hessian[self.constrained_pos, :] = 0
+            neg_hessian[:, self.constrained_pos] = 0
+            neg_hessian[self.constrained_pos, self.constrained_pos] = 1
+
+        return neg_hessian
 
 
 class LogitTypeEstimator(EstimationObj):
-- 
2.43.0


From e1afa4821b98dbe58b6e60080d86ba36d10267a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:31 +0000
Subject: [PATCH 11/27] fix: fit_mle uses the weights it is given

---
 src/pylogit/asym_logit.py        | 9 ++++++++-
 src/pylogit/clog_log.py          | 9 ++++++++-
 src/pylogit/conditional_logit.py | 9 ++++++++-
 src/pylogit/mixed_logit.py       | 9 ++++++++-
 src/pylogit/nested_logit.py      | 9 ++++++++-
 src/pylogit/scobit.py            | 9 ++++++++-
 src/pylogit/uneven_logit.py      | 9 ++++++++-
 7 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..6cfa288 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -927,6 +927,7 @@ class MNAL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -989,6 +990,11 @@ class MNAL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Denotes the weight of each row's observation in the log-likelihood.
+            There should be one element per row of the long format data, and
+            the elements should be non-negative. If None, all observations are
+            weighted equally. Default == None.
 
         Returns
         -------
@@ -1073,7 +1079,8 @@ class MNAL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         asym_estimator.set_derivatives()
 
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..a2a950c 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -621,6 +621,7 @@ class MNCL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -677,6 +678,11 @@ class MNCL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Denotes the weight of each row's observation in the log-likelihood.
+            There should be one element per row of the long format data, and
+            the elements should be non-negative. If None, all observations are
+            weighted equally. Default == None.
 
         Returns
         -------
@@ -738,7 +744,8 @@ class MNCL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         clog_estimator.set_derivatives()
 
diff --git a/src/pylogit/conditional_logit.py b/src/pylogit/conditional_logit.py
index 9688b26..e2ed471 100644
--- a/src/pylogit/conditional_logit.py
+++ b/src/pylogit/conditional_logit.py
@@ -312,6 +312,7 @@ class MNL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -348,6 +349,11 @@ class MNL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Denotes the weight of each row's observation in the log-likelihood.
+            There should be one element per row of the long format data, and
+            the elements should be non-negative. If None, all observations are
+            weighted equally. Default == None.
 
         Returns
         -------
@@ -383,7 +389,8 @@ class MNL(base_mcm.MNDC_Model):
                                      ridge,
                                      zero_vector,
                                      split_param_vec,
-                                     constrained_pos=constrained_pos)
+                                     constrained_pos=constrained_pos,
+                                     weights=weights)
         # Set the derivative functions for estimation
         mnl_estimator.set_derivatives()
 
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..2b3358d 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -500,6 +500,7 @@ class MixedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -548,6 +549,11 @@ class MixedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Denotes the weight of each row's observation in the log-likelihood.
+            There should be one element per row of the long format data, and
+            the elements should be non-negative. If None, all observations are
+            weighted equally. Default == None.
 
         Returns
         -------
@@ -594,7 +600,8 @@ class MixedLogit(base_mcm.MNDC_Model):
                                         ridge,
                                         zero_vector,
                                         split_param_vec,
-                                        constrained_pos=constrained_pos)
+                                        constrained_pos=constrained_pos,
+                                        weights=weights)
 
         # Perform one final check on the length of the initial values
         mixl_estimator.check_length_of_initial_values(init_vals)
diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..bbac3bb 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -447,6 +447,7 @@ class NestedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -486,6 +487,11 @@ class NestedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Denotes the weight of each row's observation in the log-likelihood.
+            There should be one element per row of the long format data, and
+            the elements should be non-negative. If None, all observations are
+            weighted equally. Default == None.
 
         Returns
         -------
@@ -529,7 +535,8 @@ class NestedLogit(base_mcm.MNDC_Model):
                           ridge,
                           zero_vector,
                           split_param_vec]
-        estimator_kwargs = {"constrained_pos": final_constrained_pos}
+        estimator_kwargs = {"constrained_pos": final_constrained_pos,
+                            "weights": weights}
         nested_estimator = NestedEstimator(*estimator_args,
                                            **estimator_kwargs)
 
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index d68b621..b68ff07 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -740,6 +740,7 @@ class MNSL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -801,6 +802,11 @@ class MNSL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Denotes the weight of each row's observation in the log-likelihood.
+            There should be one element per row of the long format data, and
+            the elements should be non-negative. If None, all observations are
+            weighted equally. Default == None.
 
         Returns
         -------
@@ -883,7 +889,8 @@ class MNSL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         scobit_estimator.set_derivatives()
 
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..6c37058 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -737,6 +737,7 @@ class MNUL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -798,6 +799,11 @@ class MNUL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Denotes the weight of each row's observation in the log-likelihood.
+            There should be one element per row of the long format data, and
+            the elements should be non-negative. If None, all observations are
+            weighted equally. Default == None.
 
         Returns
         -------
@@ -881,7 +887,8 @@ class MNUL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         uneven_estimator.set_derivatives()
 
-- 
2.43.0


From 003525da6d34f0294a7ea813ded9f52bf531f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:56 +0000
Subject: [PATCH 12/27] fix: calc_conf_intervals uses the working epsilon of
 the ABC intervals by default

---
 src/pylogit/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 0dab7ae..bc1737b 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -794,7 +794,7 @@ class Boot(object):
                             conf_percentage,
                             interval_type='all',
                             init_vals=None,
-                            epsilon=abc.EPSILON,
+                            epsilon=0.001,
                             **fit_kwargs):
         """
         Calculates percentile, bias-corrected and accelerated, and approximate
@@ -817,7 +817,7 @@ class Boot(object):
             Should denote the 'very small' value being used to calculate the
             desired finite difference approximations to the various influence
             functions for the 'abc' intervals. Should be close to zero.
-            Default == sys.float_info.epsilon.
+            Default == 0.001.
         fit_kwargs : additional keyword arguments, optional.
             Should contain any additional kwargs used to alter the default
             behavior of `model_obj.fit_mle` and thereby enforce conformity with
-- 
2.43.0


From dd659af50fde1d71447707d60c88838062f7fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:15 +0000
Subject: [PATCH 13/27] fix: bootstrap estimation leaves the caller's
 mnl_fit_kwargs unchanged

---
 src/pylogit/bootstrap_mle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 7556ef7..6180304 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -201,6 +201,8 @@ def get_mnl_point_est(orig_model_obj,
             mnl_init_vals = np.zeros(num_params)
         if mnl_fit_kwargs is None:
             mnl_fit_kwargs = {}
+    # Do not alter the dictionary that was passed by the user
+    mnl_fit_kwargs = mnl_fit_kwargs.copy()
 
     # Alter the mnl_fit_kwargs to ensure that we only perform point estimation
     mnl_fit_kwargs["just_point"] = True
-- 
2.43.0


From a1a23d29a099d9b01a452031c199d1eba704d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:43 +0000
Subject: [PATCH 14/27] fix: bootstrap and jackknife replicates of MNL models
 respect the fit options

---
 src/pylogit/bootstrap_mle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 6180304..397fe7c 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -291,6 +291,10 @@ def retrieve_point_est(orig_model_obj,
         The dictionary returned by `scipy.optimize` after estimating the
         desired choice model.
     """
+    # If the MNL model is the final model, then it should be estimated with the
+    # options that were passed for the final model (e.g. ridge, constraints).
+    if orig_model_obj.model_type == model_type_to_display_name["MNL"]:
+        mnl_fit_kwargs = dict(fit_kwargs, **(mnl_fit_kwargs or {}))
     # Get the MNL point estimate for the parameters of this bootstrap sample.
     mnl_point, mnl_obj = get_mnl_point_est(orig_model_obj,
                                            new_df,
-- 
2.43.0


From 9ece495f9938a5b1271af6123ffec5665cf902d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:17 +0000
Subject: [PATCH 15/27] fix: panel_predict pairs past choices with the draws of
 the same individual

---
 src/pylogit/mixed_logit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 2b3358d..421ffa0 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -876,7 +876,13 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # Note the draws should be in the order of the past individuals.
+        new_id_to_pos = {x: pos for pos, x in
+                         enumerate(orig_order_unique_ids_new)}
+        past_draw_pos =\
+            [new_id_to_pos[x] for x in
+             orig_order_unique_ids_old[old_unique_mix_id_repeats]]
+        past_draw_list = [x[past_draw_pos, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
-- 
2.43.0


From 37547d8fb0163157cbe5e5f9be598dee61501fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:33 +0000
Subject: [PATCH 16/27] fix: mixed logit spreads are named when a coefficient's
 name contains 'Sigma '

---
 src/pylogit/base_multinomial_cm_v2.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index bbfd35e..1cd946e 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1397,11 +1397,13 @@ class MNDC_Model(object):
         # an error will be raised when creating the coefs series because we
         # will have added the mixing variables twice. The condition below
         # should prevent this error.
-        already_included = any(["Sigma " in x for x in self.ind_var_names])
-
-        if self.mixing_vars is not None and not already_included:
+        if self.mixing_vars is not None:
             new_ind_var_names = ["Sigma " + x for x in self.mixing_vars]
-            self.ind_var_names += new_ind_var_names
+            already_included =\
+                (self.ind_var_names[-len(new_ind_var_names):] ==
+                 new_ind_var_names)
+            if not already_included:
+                self.ind_var_names += new_ind_var_names
         return None
 
     def store_fit_results(self, results_dict):
-- 
2.43.0


From e77fb8ba30d83543df5c02711756f75ef0cf8836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 17/27] fix: nested logit models can be pickled (module-level
 utility transform)

---
 src/pylogit/nested_logit.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index bbac3bb..e3e57bb 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -32,6 +32,14 @@ _msg_5 = "***WILL BE INCORRECT***."
 _ridge_warning_msg = _msg_3 + _msg_4 + _msg_5
 
 
+# Create the (module-level, hence picklable) utility transform function
+def nested_utility_transform(sys_utility_array, *args, **kwargs):
+    """
+    Returns the index values as a 2D array with one column.
+    """
+    return sys_utility_array[:, None]
+
+
 # Create a function that will identify degenerate nests
 def identify_degenerate_nests(nest_spec):
     """
@@ -433,7 +441,7 @@ class NestedLogit(base_mcm.MNDC_Model):
         ##########
         # Store the utility transform function
         ##########
-        self.utility_transform = lambda x, *args, **kwargs: x[:, None]
+        self.utility_transform = nested_utility_transform
 
         return None
 
-- 
2.43.0


From ed69ca23fb102d4a37afc6a5d3ef16071a4c621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:03 +0000
Subject: [PATCH 18/27] fix: ABC quadratic coefficients when some of them
 vanish

---
 src/pylogit/bootstrap_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..b773d68 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From ae29cfe05109bb03a7137229a7718a4587294b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:07 +0000
Subject: [PATCH 19/27] fix: mixed logit accepts all-integer design columns

The expanded design matrix kept the integer dtype of the user's columns, so
multiplying the mixed columns by the draws raised a casting error.
---
 src/pylogit/mixed_logit_calcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit_calcs.py b/src/pylogit/mixed_logit_calcs.py
index 1973eba..95cb447 100755
--- a/src/pylogit/mixed_logit_calcs.py
+++ b/src/pylogit/mixed_logit_calcs.py
@@ -150,8 +150,10 @@ def create_expanded_design_for_mixing(design,
     # Initialize the expanded design matrix that replicates the columns of the
     # variables that are being mixed over.
     arrays_for_mixing = design[:, mixing_pos]
+    # Use floats since the columns of an integer design matrix could not hold
+    # the products of the variables and the draws
     expanded_design = np.concatenate((design, arrays_for_mixing),
-                                     axis=1).copy()
+                                     axis=1).astype(float)
     design_3d = np.repeat(expanded_design[:, None, :],
                           repeats=num_draws,
                           axis=1)
-- 
2.43.0


From f67c4ce4af8708043cea18a4ff22c554b9b25cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:07 +0000
Subject: [PATCH 20/27] fix: bootstrap replicates respect the documented
 weights argument

generate_bootstrap_replicates documents that weights are passed to the fitting
routine of every sample, but silently dropped them. Each row of a sample now
keeps the weight of its original row.
---
 src/pylogit/bootstrap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index bc1737b..c72495a 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -333,6 +333,13 @@ class Boot(object):
                                               dfs_by_obs_id,
                                               boot_id_col=boot_id_col)
 
+            # Give each row of the bootstrap sample the weight that it has in
+            # the original dataset
+            if weights is not None:
+                fit_kwargs["weights"] =\
+                    np.concatenate([weights[obs_id_array == obs_id]
+                                    for obs_id in obs_id_per_sample[row, :]])
+
             # Go through the necessary estimation routine to bootstrap the MLE.
             current_results =\
                 retrieve_point_est(self.model_obj,
-- 
2.43.0


From bbf320c9fa98bc99a9c762707f92f3c3d0a94dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 21/27] fix: constraining a parameter leaves the inference of a
 like-named one alone

---
 src/pylogit/base_multinomial_cm_v2.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 1cd946e..249c6c5 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1366,11 +1366,9 @@ class MNDC_Model(object):
             assert all([hasattr(self, x) for x in inferential_attributes])
             assert hasattr(self, "params")
 
-            all_names = self.params.index.tolist()
-
             for series in [getattr(self, x) for x in inferential_attributes]:
                 for pos in constraints:
-                    series.loc[all_names[pos]] = np.nan
+                    series.iloc[pos] = np.nan
 
         return None
 
-- 
2.43.0


From 7eaaed76b54e81dec699f9d9875f62f11356b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 22/27] fix: mixed logit probabilities with a single draw

---
 src/pylogit/choice_calcs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 5e24be5..1c83687 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -156,7 +156,12 @@ def calc_probabilities(beta,
     individual_denominators = np.asarray(rows_to_obs.transpose().dot(
                                                     long_exponentials))
     long_denominators = np.asarray(rows_to_obs.dot(individual_denominators))
-    if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+    # A 3D design matrix has one column of probabilities per draw, even if
+    # there is only a single draw.
+    multiple_cols = (len(design.shape) >= 3 or
+                     (len(long_exponentials.shape) > 1 and
+                      long_exponentials.shape[1] > 1))
+    if multiple_cols:
         long_probs = (long_exponentials / long_denominators)
     else:
         long_probs = (long_exponentials / long_denominators).ravel()
@@ -170,7 +175,7 @@ def calc_probabilities(beta,
         # chosen_probs will be of shape (num_observations,)
         chosen_exponentials = np.asarray(
                          chosen_row_to_obs.transpose().dot(long_exponentials))
-        if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+        if multiple_cols:
             chosen_probs = chosen_exponentials / individual_denominators
         else:
             chosen_probs = (chosen_exponentials /
-- 
2.43.0


From 9e1a1952d9c6b71464ed82a5deca01da9c85f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:05 +0000
Subject: [PATCH 23/27] fix: probabilities of the chosen alternatives do not
 underflow to zero

---
 src/pylogit/choice_calcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 1c83687..71d278f 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -180,6 +180,8 @@ def calc_probabilities(beta,
         else:
             chosen_probs = (chosen_exponentials /
                             individual_denominators).ravel()
+        # Guard against underflow
+        chosen_probs[chosen_probs == 0] = min_comp_value
 
     # Return the long form and chosen probabilities if desired
     if return_long_probs and chosen_probs is not None:
-- 
2.43.0


From 91d243f89a26b8b96162838fbfd7d92a1a707715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:26 +0000
Subject: [PATCH 24/27] fix: bootstrap samples keep the observation ids' own
 type

Ids went through a float array, in which distinct integer ids above 2**53
are the same number: an observation's rows were then missing from every
bootstrap sample, or its id was no longer found in the data.
---
 src/pylogit/bootstrap_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_sampler.py b/src/pylogit/bootstrap_sampler.py
index d1db4d1..08fe37c 100644
--- a/src/pylogit/bootstrap_sampler.py
+++ b/src/pylogit/bootstrap_sampler.py
@@ -146,7 +146,8 @@ def create_cross_sectional_bootstrap_samples(obs_id_array,
         get_num_obs_choosing_each_alternative(chosen_alts_to_obs_ids)
 
     # Initialize the array that will store the observation ids for each sample
-    ids_per_sample = np.empty((num_samples, tot_num_obs), dtype=float)
+    ids_per_sample = np.empty((num_samples, tot_num_obs),
+                              dtype=obs_id_array.dtype)
 
     if seed is not None:
         # Check the validity of the seed argument.
-- 
2.43.0


From fd04c1fdb4c381da2a3192a263a9cf8172cb8f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:05 +0000
Subject: [PATCH 25/27] fix: clog-log transformation and derivative lose their
 digits at low utilities

exp(exp(V)) - 1 and 1 - exp(-exp(V)) cancel for V well below zero: the
transformed utility was off by up to .5 and the derivative by 15 percent near
V = -36.  Use expm1.
---
 src/pylogit/clog_log.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index a2a950c..06095b4 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -167,6 +167,9 @@ def _cloglog_utility_transform(systematic_utilities,
 
     # Calculate the transformed systematic utilities
     transformations = np.log(exp_exp_v - 1)
+    # Recover the digits lost to the subtraction when exp_exp_v is close to 1
+    close_idx = (exp_exp_v > 1) & (exp_exp_v < 2)
+    transformations[close_idx] = np.log(np.expm1(exp_v[close_idx]))
     # Guard against underflow
     transformations[np.isneginf(transformations)] = -1 * max_comp_value
     # Guard against overflow when systematic utilities are moderately large
@@ -250,7 +253,7 @@ def _cloglog_transform_deriv_v(systematic_utilities,
     """
     exp_neg_v = np.exp(-1 * systematic_utilities)
     exp_v = np.exp(systematic_utilities)
-    denom_part_1 = 1 - np.exp(-1 * exp_v)
+    denom_part_1 = -1 * np.expm1(-1 * exp_v)
 
     ##########
     # Guard against numeric overflow and underflow
-- 
2.43.0


From 496752836845e8264e984e305662cff54447f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:05 +0000
Subject: [PATCH 26/27] fix: scobit transformation and derivatives lose their
 digits at high utilities

(1 + exp(-V))**shape - 1 cancels for large V: the transformed utility and its
derivatives were off by several percent near V = 33.  Use expm1.
---
 src/pylogit/scobit.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index b68ff07..0b1f493 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -196,6 +196,10 @@ def _scobit_utility_transform(systematic_utilities,
     powered_term[np.isposinf(powered_term)] = max_comp_value
 
     term_2 = np.log(powered_term - 1)
+    # Recover the digits lost to the subtraction when powered_term is close to 1
+    close_idx = (powered_term > 1) & (powered_term < 2)
+    term_2[close_idx] = np.log(np.expm1(
+        (long_natural_shapes * np.log1p(exp_neg_v))[close_idx]))
     # Guard against overvlow
     too_big_idx = np.isposinf(powered_term)
     term_2[too_big_idx] = (-1 * long_natural_shapes[too_big_idx] *
@@ -274,7 +278,7 @@ def _scobit_transform_deriv_v(systematic_utilities,
     derivs = (long_curve_shapes *
               exp_neg_v *
               small_powered_term /
-              (powered_term - 1))
+              np.expm1(long_curve_shapes * np.log1p(exp_neg_v)))
     # Use L'Hopitals rule to deal with overflow from v --> -inf
     # From plots, the assignment below may also correctly handle cases where we
     # have overflow from moderate v (say |v| <= 10) and large shape parameters.
@@ -284,7 +288,7 @@ def _scobit_transform_deriv_v(systematic_utilities,
                    np.isposinf(small_powered_term)).astype(bool)
     derivs[too_big_idx] = long_curve_shapes[too_big_idx]
     # Use L'Hopitals rule to deal with underflow from v --> inf
-    too_small_idx = np.where((exp_neg_v == 0) | (powered_term - 1 == 0))
+    too_small_idx = np.where(exp_neg_v == 0)
     derivs[too_small_idx] = 1.0
 
     # Assign the calculated derivatives to the output array
@@ -355,12 +359,14 @@ def _scobit_transform_deriv_shape(systematic_utilities,
     # shape param is simply exp(shape_param) = natural shape param. The
     # multipication comes from the chain rule.
     curve_derivs = (-1 * np.log1p(exp_neg_v) *
-                    powered_term / (powered_term - 1)) * long_curve_shapes
+                    powered_term /
+                    np.expm1(long_curve_shapes * np.log1p(exp_neg_v)) *
+                    long_curve_shapes)
     # Note that all of the following overflow and underflow guards are based
     # on L'Hopital's rule.
     # Guard against underflow from v --> inf. Note we end up with '-1' after
     # accounting for the jacobian.
-    too_big_idx = np.where((powered_term - 1) == 0)
+    too_big_idx = np.where(exp_neg_v == 0)
     curve_derivs[too_big_idx] = -1
     # Guard against overflow from v --> -inf.
     too_small_idx = np.isposinf(exp_neg_v)
-- 
2.43.0


From 0834aa261485bcd74edd8c14fb0d90a36fbbaf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:05 +0000
Subject: [PATCH 27/27] fix: scobit shape derivative when the powered term
 overflows

It lacked the factor of the natural shape for |V| <= 10, and was NaN for lower
V, which made the whole gradient NaN.
---
 src/pylogit/scobit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 0b1f493..550a0ef 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -372,10 +372,10 @@ def _scobit_transform_deriv_shape(systematic_utilities,
     too_small_idx = np.isposinf(exp_neg_v)
     curve_derivs[too_small_idx] = max_comp_value
     # Guard against overflow from moderate v but shape --> inf.
-    shape_too_big_idx = np.where((np.abs(systematic_utilities) <= 10) &
-                                 np.isposinf(powered_term))
+    shape_too_big_idx = np.where(np.isposinf(powered_term) &
+                                 ~np.isposinf(exp_neg_v))
     curve_derivs[shape_too_big_idx] =\
-        (-1 * np.log1p(exp_neg_v))[shape_too_big_idx]
+        (-1 * np.log1p(exp_neg_v) * long_curve_shapes)[shape_too_big_idx]
 
     # Assign the calculated derivatives to the output array
     output_array.data = curve_derivs
-- 
2.43.0

