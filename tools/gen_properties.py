#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
S = "src/pylogit/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Design matrix columns and labels mean what the specification says",
  "For every long-format table and specification, the design matrix has one column per specified coefficient, in specification order, whose value in a row is that row's variable value if the row's alternative belongs to the coefficient's group of alternatives and zero otherwise. Each column's label is the default label or the user's name for exactly that variable and group, whatever the order in which names were supplied.",
  ["inputs", "configurations"], "all tables (row orders, alternative ids, partial choice sets) and all specifications mixing shared, per-alternative and grouped coefficients, with and without names",
  "tests use one 3-alternative table and one specification per form with names in matching order",
  ["choice_tools.py", "base_multinomial_cm_v2.py"], [("design construction", "choice_tools.py:create_design_matrix"), ("name checks", "choice_tools.py:check_keys_and_values_of_name_dictionary")],
  "return value of the design constructor; model.design / model.ind_var_names")
p("P02", "Row mappings assign every row to its observation, alternative, nest, person",
  "For every long-format table, each row is mapped to exactly one observation, alternative, nest and individual, namely its own; observation and individual columns follow first appearance, alternative columns follow sorted ids and nest columns follow the nest specification. The chosen-row mapping marks exactly the chosen row of each observation.",
  ["inputs"], "all tables with arbitrary ids, partial choice sets and row orders; all nest specifications; sparse and dense output",
  "tests use one fixed table with ids already sorted",
  ["choice_tools.py"], [("mappings", "choice_tools.py:create_long_form_mappings"), ("sparse map", "choice_tools.py:create_sparse_mapping")],
  "mapping dictionary returned for a table / by a model")
p("P03", "Long-to-wide conversion preserves every observation",
  "For every valid long-format table, the wide table has exactly one row per observation, holding that observation's own id, its chosen alternative, its availability of each alternative, its observation-level variables, and for each alternative-specific variable the value of that alternative's row (or the null value where unavailable), under the documented column names.",
  ["inputs"], "all valid long tables incl. unbalanced choice sets, unsorted ids, interleaved rows, subset-specific variables, alternative names and null values",
  "tests convert one small balanced-order table",
  ["choice_tools.py"], [("conversion", "choice_tools.py:convert_long_to_wide")], "returned data frame")
p("P04", "Wide-to-long conversion preserves every observation",
  "For every valid wide-format table, the long table has exactly one row per available observation-alternative pair, grouped by observation and sorted by alternative, carrying that observation's id, variables and choice indicator and that alternative's own variable values (zero where the variable does not exist for the alternative), regardless of the order in which alternatives were listed in the arguments.",
  ["inputs", "configurations"], "all valid wide tables and all argument orders of the availability and variable maps",
  "tests convert one table whose maps are listed in sorted order",
  ["choice_tools.py"], [("conversion", "choice_tools.py:convert_wide_to_long")], "returned data frame")
p("P05", "Converting between long and wide formats and back loses nothing",
  "For every valid long-format table whose alternatives are all chosen at least once, converting to wide format and back yields the same set of records: same observations, alternatives, choices and variable values. Likewise converting wide to long and back to wide restores every available cell.",
  ["inputs", "histories"], "all valid tables, compositions of the two conversions",
  "no test composes the two conversions",
  ["choice_tools.py"], [("conversions", "choice_tools.py:convert_long_to_wide"), ("conversions", "choice_tools.py:convert_wide_to_long")], "returned data frames")
p("P06", "Format conversions refuse malformed choice data and accept valid data",
  "The long/wide conversions raise an error, instead of returning a table, whenever an observation-alternative pair is duplicated, some observation has no or several chosen alternatives, a referenced column is missing, wide observation ids repeat, a wide choice is blank, unknown or unavailable, or a listed alternative is never chosen. On every table free of such faults they return a result.",
  ["inputs"], "all tables obtained by injecting one or several faults at arbitrary positions into valid tables",
  "each fault is tested once at one position",
  ["choice_tools.py"], [("long checks", "choice_tools.py:convert_long_to_wide"), ("wide checks", "choice_tools.py:convert_wide_to_long")], "exception or result")
p("P07", "Invalid model definitions and arguments are refused, valid ones accepted",
  "Creating a model of any type raises an error for unknown model types, missing or non-numeric or non-finite specification columns, specifications naming unknown alternatives, wrong name structures, incomplete, overlapping, empty or unknown-alternative nests and unknown mixing variables; creating or at the latest fitting it raises an error for invalid reference positions or name counts, wrong numbers of initial values, negative or mis-sized weights, non-scalar ridge penalties and observations whose rows are not contiguous. Definitions free of these faults are accepted.",
  ["inputs", "configurations"], "all seven model types crossed with every fault kind at arbitrary positions, and fault-free definitions",
  "each validator is tested with one or two bad values, mostly in isolation from model creation",
  ["base_multinomial_cm_v2.py", "pylogit.py", "choice_tools.py", "estimation.py", "nested_logit.py", "asym_logit.py"], [("constructor checks", "base_multinomial_cm_v2.py:MNDC_Model.__init__"), ("type dispatch", "pylogit.py:create_choice_model"), ("estimation checks", "estimation.py:EstimationObj.__init__")], "exception or constructed/fitted object")
p("P08", "Choice probabilities equal the model's formula for every choice set",
  "For the conditional logit, asymmetric, clog-log, scobit and uneven models, each alternative's predicted probability equals the model's published formula evaluated on that observation's available alternatives only, with shape, intercept and index parameters applied to the right alternatives and reference positions normalised. Probabilities of one observation sum to one and do not depend on other observations.",
  ["inputs", "configurations"], "all parameter vectors of moderate size, reference positions, unbalanced choice sets, any number of alternatives",
  "tests check one to three fixed parameter vectors with the first or last alternative as reference",
  ["choice_calcs.py", "conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py"], [("probabilities", "choice_calcs.py:calc_probabilities"), ("transforms", "asym_logit.py:_asym_utility_transform"), ("transforms", "clog_log.py:_cloglog_utility_transform"), ("transforms", "scobit.py:_scobit_utility_transform"), ("transforms", "uneven_logit.py:_uneven_utility_transform")], "model.predict, fitted probabilities")
p("P09", "Nested logit probabilities equal the nested formula",
  "For every nest specification and choice set, predicted nested logit probabilities equal the two-level nested logit formula with each nest's dissimilarity parameter being the logistic transform of its estimated parameter, restricted to available alternatives. They sum to one per observation, and equal conditional logit probabilities when all dissimilarity parameters equal one.",
  ["inputs", "configurations"], "all nest specifications (orders, singletons, nests with no available member), parameters and choice sets",
  "tests use one three-alternative two-nest example",
  ["nested_choice_calcs.py", "nested_logit.py"], [("probabilities", "nested_choice_calcs.py:calc_nested_probs"), ("naturalisation", "nested_choice_calcs.py:naturalize_nest_coefs")], "model.predict, fitted probabilities")
p("P10", "Mixed logit probabilities average over each individual's own draws",
  "For every set of draws, the mixed logit probability of an alternative is the average over draws of the conditional logit probability with each random coefficient equal to its mean plus its spread times the draw of the row's own individual; an individual's rows share the same draws, while different individuals and different random coefficients have separate standard normal draws. The same positive seed always reproduces the same draws and results.",
  ["inputs", "configurations"], "all panels (individuals with several, interleaved observations), several random coefficients, numbers of draws, seeds",
  "tests use one tiny panel with one random coefficient",
  ["mixed_logit.py", "mixed_logit_calcs.py", "base_multinomial_cm_v2.py"], [("expanded design", "mixed_logit_calcs.py:create_expanded_design_for_mixing"), ("draws", "mixed_logit_calcs.py:get_normal_draws"), ("predict", "base_multinomial_cm_v2.py:MNDC_Model.predict")], "model.predict, model fit results")
p("P11", "Probabilities stay a proper distribution at any utility magnitude",
  "For every model and every finite parameter vector and data set, however extreme the resulting utilities, all predicted probabilities are finite, strictly positive, at most one and sum to one within each observation, and the log-likelihood is finite. An alternative whose utility is driven arbitrarily high while those of the others stay moderate is predicted with probability approaching one.",
  ["inputs"], "all finite inputs including utilities far outside the range of floating-point exponentials",
  "tests probe a handful of overflow inputs per function",
  ["choice_calcs.py", "nested_choice_calcs.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py"], [("clipping", "choice_calcs.py:calc_probabilities"), ("guards", "nested_choice_calcs.py:calc_nested_probs")], "model.predict, log-likelihood")
p("P12", "Log-likelihood is the weighted log-probability of the observed choices",
  "For every model, data set and parameter vector, the reported log-likelihood equals the sum over observations of weight times the log of the chosen alternative's probability, minus the ridge coefficient times the squared distance of the parameters from the model's null values. For mixed logit, the term of an individual is the log of the draw-average of the product of its chosen probabilities over all of its observations.",
  ["inputs", "configurations"], "all seven models, parameters, weights, ridge values, choice sets and panels",
  "tests check one data set and parameter vector per model",
  ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "estimation.py"], [("log-likelihood", "choice_calcs.py:calc_log_likelihood"), ("log-likelihood", "nested_choice_calcs.py:calc_nested_log_likelihood"), ("log-likelihood", "mixed_logit_calcs.py:calc_mixed_log_likelihood")], "model.log_likelihood, estimation object")
p("P13", "The gradient is the derivative of the log-likelihood",
  "For every model, data set and parameter vector, each element of the reported gradient equals the partial derivative of the reported log-likelihood, including weights and ridge penalty, with respect to the parameter at that position of the parameter vector.",
  ["inputs", "configurations"], "all seven models, all parameter kinds (nest, shape, outside intercept, index, spread), weights, ridge values",
  "tests compare one parameter vector per model, partly against the same formula as the code",
  ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py"], [("gradient", "choice_calcs.py:calc_gradient"), ("gradient", "nested_choice_calcs.py:calc_nested_gradient"), ("gradient", "mixed_logit_calcs.py:calc_mixed_logit_gradient"), ("transform derivatives", "asym_logit.py:_asym_transform_deriv_shape")], "model.gradient, estimation object")
p("P14", "Hessian and information matrices equal their definitions",
  "For every model, data set and parameter vector, the reported second-derivative matrix equals its documented definition (exact for conditional logit, expected second derivatives for the other transformed-utility models, negative outer product of per-observation or per-individual scores for nested and mixed logit, minus twice the ridge on the diagonal), and the information matrix of the transformed-utility models is the weighted outer product of per-observation scores, likewise less twice the ridge. Both are symmetric and indexed like the parameter vector.",
  ["inputs", "configurations"], "all models, parameters, weights, choice sets, intercept and shape configurations",
  "tests compare one parameter vector per model with a re-implementation of the same algebra",
  ["choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py"], [("hessian", "choice_calcs.py:calc_hessian"), ("block product", "choice_calcs.py:quadratic_prod_wrt_dp_ds"), ("information", "choice_calcs.py:calc_fisher_info_matrix"), ("BHHH", "nested_choice_calcs.py:calc_bhhh_hessian_approximation"), ("BHHH", "mixed_logit_calcs.py:calc_bhhh_hessian_approximation_mixed_logit")], "model.hessian, model.fisher_information, estimation object")
p("P15", "Weights act exactly like replicating or dropping observations",
  "For every model, giving an observation (an individual, for mixed logit) integer weight k yields the same log-likelihood, gradient, second-derivative matrix and estimates as k copies of it, weight zero the same as removing it, and multiplying all weights by a constant multiplies these objects by that constant. Unit weights give the unweighted results.",
  ["inputs", "configurations"], "all models, data sets and non-negative weight vectors that are constant within an observation",
  "tests only check that a constant weight of two doubles a result",
  ["choice_calcs.py", "estimation.py", "nested_choice_calcs.py", "mixed_logit_calcs.py", "conditional_logit.py"], [("weights", "choice_calcs.py:calc_log_likelihood"), ("weights", "estimation.py:EstimationObj.__init__"), ("fit", "conditional_logit.py:MNL.fit_mle")], "estimation object, fit_mle with weights")
p("P16", "Every parameter keeps its position, label and meaning end to end",
  "For every model configuration, the parameter vector is ordered nests, shapes, outside intercepts, index coefficients (then spreads), the reported parameters carry the user's or default names in that order, and changing the initial value at a position changes exactly the parameter reported under that position's name. The grouped results (coefficients, intercepts, shapes, nests) contain the same values under the same names.",
  ["configurations", "inputs"], "all models, reference positions, presence or absence of outside intercepts, names, separate or joint initial values",
  "tests check splitting on one configuration per model",
  ["base_multinomial_cm_v2.py", "asym_logit.py", "scobit.py", "uneven_logit.py", "clog_log.py", "nested_logit.py", "mixed_logit.py"], [("storage", "base_multinomial_cm_v2.py:MNDC_Model.store_fit_results"), ("splitting", "scobit.py:split_param_vec")], "model.params, model.coefs, model.intercepts, model.shapes, model.nests")
p("P17", "Reported inference and fit statistics are mutually consistent",
  "After every fit, covariance is the negative inverse of the reported second-derivative matrix, the robust covariance its sandwich with the information matrix, standard errors their root diagonals, t and p statistics and confidence intervals follow from estimates and standard errors under the normal distribution, and AIC, BIC, rho-squared statistics, degrees of freedom, residuals and chi-squares follow from their definitions. All reported tables agree with the individual attributes.",
  ["inputs", "configurations"], "all models, data sets, parameter points, confidence levels and subsets of coefficients",
  "tests check stored attributes against mocked result dictionaries",
  ["base_multinomial_cm_v2.py", "estimation.py", "choice_calcs.py"], [("inference", "base_multinomial_cm_v2.py:MNDC_Model._store_generic_inference_results"), ("intervals", "base_multinomial_cm_v2.py:MNDC_Model.conf_int"), ("post-estimation", "estimation.py:calc_and_store_post_estimation_results"), ("sandwich", "choice_calcs.py:calc_asymptotic_covariance")], "attributes of a fitted model")
p("P18", "Constrained parameters never move and carry no inference",
  "For every model, set of constrained positions and gradient-based estimation method, constrained parameters (and the dissimilarity parameters of single-alternative nests) are reported exactly at their initial values, with undefined standard errors, t and p statistics, robust ones included. The remaining parameters are still estimated to a constrained optimum and keep their inference.",
  ["inputs", "configurations"], "all models, subsets of positions, initial values and optimisation methods",
  "tests never run a constrained fit with a curvature-using optimiser",
  ["estimation.py", "base_multinomial_cm_v2.py", "nested_logit.py", "mixed_logit.py"], [("gradient masking", "estimation.py:EstimationObj.calc_neg_log_likelihood_and_neg_gradient"), ("inference masking", "base_multinomial_cm_v2.py:MNDC_Model._adjust_inferential_results_for_parameter_constraints"), ("degenerate nests", "nested_logit.py:identify_degenerate_nests")], "model.params and inferential attributes after fit")
p("P19", "Estimation climbs to a stationary point of the stated objective",
  "For every model and data set, the fitted objective is never below the objective at the initial values unless the optimiser reports failure, and a fit reporting success ends where the gradient over unconstrained parameters is negligible; for conditional logit this is the unique maximum whatever the initial values and optimiser. The reported likelihood, probabilities and gradient are those of the reported parameters, and the null likelihood is the objective at the all-zero parameter vector.",
  ["inputs", "configurations"], "all models, initial values, optimisers, ridge values and data sets",
  "tests never check optimality of a fitted model",
  ["estimation.py", "conditional_logit.py"], [("optimiser call", "estimation.py:estimate"), ("results", "estimation.py:calc_and_store_post_estimation_results")], "fit results")
p("P20", "Prediction reproduces the fit and applies the parameters to any data",
  "For every fitted model, predicting on the estimation data returns the fitted probabilities, and predicting on any other data returns the model's probabilities for that data in its own row order. Long-form, chosen-only and combined outputs are mutually consistent, and a matrix of parameter columns returns column by column what each single column returns.",
  ["inputs", "configurations"], "all models, new data sets (subsets, permutations, new choice sets), requested outputs, parameter lists",
  "tests predict on the estimation data with one or two parameter lists; nested and mixed combined outputs are never requested",
  ["base_multinomial_cm_v2.py", "choice_calcs.py", "nested_choice_calcs.py"], [("predict", "base_multinomial_cm_v2.py:MNDC_Model.predict"), ("parameter lists", "base_multinomial_cm_v2.py:MNDC_Model.check_param_list_validity")], "model.predict")
p("P21", "Results depend on arguments only, never on the history of calls",
  "For every interleaving of creating, fitting, refitting, predicting, bootstrapping, computing intervals, saving and reloading any number of models, each call returns what the same call returns on a freshly built model with the same data and last fit. A fit fully replaces the previous fit's results, point-only fits and predictions leave stored results untouched, and a reloaded model behaves like the saved one.",
  ["histories"], "all sequences of public operations over several models",
  "tests build a fresh object for every call",
  ["base_multinomial_cm_v2.py", "estimation.py", "asym_logit.py", "mixed_logit.py", "bootstrap.py"], [("stored results", "base_multinomial_cm_v2.py:MNDC_Model.store_fit_results"), ("shared derivative buffers", "asym_logit.py:create_calc_dh_d_shape"), ("pickling", "base_multinomial_cm_v2.py:MNDC_Model.to_pickle")], "return values and attributes along operation sequences", [{"name": "fitted results of each model", "meaning": "replaced by fits only"}])
p("P22", "Callers' data, specifications and arrays are never modified",
  "No public operation changes the contents, row order, index or columns of the caller's tables (other than adding the documented constant intercept column when a specification asks for it), or the caller's specification, names, nest specification, initial values, weights, parameter lists or option dictionaries.",
  ["inputs", "histories"], "all public operations with all argument kinds",
  "tests never compare inputs before and after",
  ["choice_tools.py", "base_multinomial_cm_v2.py", "estimation.py", "bootstrap_mle.py"], [("intercept column", "base_multinomial_cm_v2.py:add_intercept_to_dataframe"), ("options", "bootstrap_mle.py:get_mnl_point_est")], "arguments before and after each call")
p("P23", "Panel prediction conditions on each individual's own past choices",
  "For every fitted mixed logit and new data set, an individual present in the estimation data is predicted with draws weighted by the likelihood of that individual's own past choices under those same draws, and an unseen individual with equal weights, whatever the order of individuals and rows in either data set. Probabilities sum to one per observation.",
  ["inputs"], "all old and new panels: new, repeated and reordered individuals, several observations each",
  "tests predict for one fixed overlapping panel in the same order",
  ["mixed_logit.py", "mixed_logit_calcs.py"], [("panel prediction", "mixed_logit.py:MixedLogit.panel_predict")], "model.panel_predict")
p("P24", "Bootstrap samples preserve choice shares and whole choice situations",
  "Every bootstrap sample contains as many observations as the original data, the same number choosing each alternative, each drawn with replacement from the observations that chose that alternative; in its table every drawn observation appears with all of its rows and values unchanged under a fresh id from one upwards, repeated draws getting distinct ids. The same seed gives the same samples.",
  ["inputs"], "all data sets (unequal choice sets, unsorted or arbitrary ids), numbers of samples and seeds",
  "tests check one fixed small data set",
  ["bootstrap_sampler.py"], [("resampling", "bootstrap_sampler.py:create_cross_sectional_bootstrap_samples"), ("sample table", "bootstrap_sampler.py:create_bootstrap_dataframe"), ("grouping", "bootstrap_sampler.py:create_deepcopied_groupby_dict")], "returned id arrays and data frames")
p("P25", "Bootstrap and jackknife replicates are the estimates from their samples",
  "Every bootstrap replicate equals the estimate obtained by refitting the same model definition on its sample, every jackknife replicate the estimate with exactly one observation left out, in order of observation id, with columns labelled and ordered like the parameters and constraints, ridge and observation weights respected. Log-likelihoods and gradient norms of replicates are those of the original data at each replicate.",
  ["inputs", "configurations"], "all supported models, data sets, seeds, constraints, ridge values and weights",
  "tests check one fixed MNL-type data set for shape and one value",
  ["bootstrap.py", "bootstrap_mle.py", "construct_estimator.py"], [("replicates", "bootstrap.py:Boot.generate_bootstrap_replicates"), ("jackknife", "bootstrap.py:Boot.generate_jackknife_replicates"), ("refit", "bootstrap_mle.py:retrieve_point_est")], "Boot attributes")
p("P26", "Percentile and BCa intervals equal their definitions",
  "For every replicate table and confidence level, percentile endpoints are the replicates just outside the nominal tail percentages, and bias-corrected accelerated endpoints those at the percentages given by the bias correction and jackknife acceleration formulas, each parameter using only its own column. Endpoints are labelled with the right parameter and percentage; invalid levels are refused.",
  ["inputs"], "all replicate tables (ties, skew, any size), estimates and confidence levels",
  "tests check one table and level",
  ["bootstrap_calcs.py", "bootstrap.py", "bootstrap_utils.py"], [("percentile", "bootstrap_calcs.py:calc_percentile_interval"), ("BCa", "bootstrap_calcs.py:calc_bca_interval"), ("labels", "bootstrap.py:Boot.calc_conf_intervals")], "interval tables")
p("P27", "Approximate bootstrap confidence intervals equal Efron's ABC definition",
  "For every model and data set, the ABC interval endpoints follow Efron's definition: influence values from refitting with one observation's weight perturbed, standard error, acceleration, bias and curvature from those values, and endpoints from refitting at the resulting weights. Per-observation weights are spread to that observation's rows only.",
  ["inputs", "configurations"], "all models as functions of observation weights, perturbation sizes, confidence levels",
  "tests replace the model by a stub or check single formulas",
  ["bootstrap_abc.py", "bootstrap.py"], [("interval", "bootstrap_abc.py:calc_abc_interval"), ("influence", "bootstrap_abc.py:calc_finite_diff_terms_for_abc"), ("weights", "bootstrap_abc.py:create_long_form_weights")], "interval tables and intermediate quantities")
p("P28", "Results do not depend on row order, id values or table index",
  "Permuting the rows of an observation, permuting whole observations, relabelling observation or individual ids order-preservingly, relabelling alternatives order-preservingly, or changing the table's index leaves log-likelihoods, gradients, second derivatives and estimates unchanged, and permutes predicted probabilities with their rows.",
  ["inputs"], "all models, data sets and such rearrangements",
  "tests use one fixed ordering and a default index",
  ["choice_tools.py", "choice_calcs.py", "nested_choice_calcs.py", "mixed_logit_calcs.py"], [("mappings", "choice_tools.py:create_long_form_mappings"), ("probabilities", "choice_calcs.py:calc_probabilities")], "fit results and predictions")
p("P29", "Invalid requests to models and bootstraps are refused, valid ones answered",
  "Fitting, predicting, panel predicting, asking for intervals, saving, and bootstrapping raise an error whenever the request is invalid: parameter lists of wrong type, length, number of rows or unequal columns or lacking needed parts; predictions from unfitted models without parameters, for data lacking needed columns, or of chosen probabilities without a choice column; draw numbers or seeds that are not positive integers; separate initial values of wrong length or missing; unknown optimisers, out-of-range constraints, unknown parameter names; confidence levels outside (0, 100), unknown interval or replicate kinds, missing replicates or companion models, resampled ids not in the data. All other requests are answered, and a refused one leaves stored estimates and intervals unchanged.",
  ["inputs", "configurations"], "all requests of all seven model types with any combination of faults, at arbitrary positions",
  "each validator is tested with one or two bad values, in isolation from the request it guards",
  ["base_multinomial_cm_v2.py", "bootstrap.py", "bootstrap_sampler.py", "bootstrap_utils.py", "mixed_logit.py", "mixed_logit_calcs.py", "asym_logit.py", "scobit.py", "uneven_logit.py", "clog_log.py"], [("prediction checks", "base_multinomial_cm_v2.py:MNDC_Model.check_param_list_validity"), ("sampling checks", "bootstrap_sampler.py:create_bootstrap_dataframe"), ("level checks", "bootstrap_utils.py:check_conf_percentage_validity"), ("draw checks", "mixed_logit_calcs.py:get_normal_draws")], "exception or result, and the stored results")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
