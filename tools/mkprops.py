import json
B="src/pylogit/"
F=lambda *a:[B+x for x in a]
ALLM=F("base_multinomial_cm_v2.py","estimation.py","conditional_logit.py","nested_logit.py","mixed_logit.py","asym_logit.py","scobit.py","uneven_logit.py","clog_log.py")
P=[]
def p(i,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=[obs]
    assert len(title)<=80,(i,len(title))
    P.append({"id":i,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("C01","An explicit seed fully determines simulated draws and bootstrap samples",
"Whenever a seed is given to mixed logit estimation, mixed logit prediction or bootstrap replicate generation, the result depends only on the inputs and that seed: not on what ran before, on the surrounding random state, on other threads, or on the process it runs in. Such a call also leaves the caller's own random streams exactly as they were.",
["histories","schedules","inputs"],"every history of calls and of caller use of the global random state, every interleaving with other caller threads, every process (string-hash seed)",
"tests call each seeded routine once, from one thread, in one process, and never look at the caller's random stream",
F("mixed_logit_calcs.py","mixed_logit.py","bootstrap_sampler.py","bootstrap.py","bootstrap_abc.py"),
[("normal draws","mixed_logit_calcs.get_normal_draws"),("bootstrap samples","bootstrap_sampler.create_cross_sectional_bootstrap_samples")])
p("C02","Unseeded work uses the caller's random stream; nothing else touches it",
"Without a seed, mixed logit estimation, mixed logit prediction and bootstrap replicate generation are a function of the caller's global numpy random state, and advance it so that repeated calls draw anew. Every other operation of the library leaves the caller's random streams untouched.",
["histories","inputs"],"every history of operations interleaved with the caller's own draws and every clock behaviour",
"tests fix the global seed right before one call; none checks which operations consume or reset the caller's stream",
F("mixed_logit_calcs.py","bootstrap_sampler.py","bootstrap.py","base_multinomial_cm_v2.py"),
[("normal draws","mixed_logit_calcs.get_normal_draws"),("bootstrap samples","bootstrap_sampler.create_cross_sectional_bootstrap_samples")])
p("C03","Estimation is all-or-nothing",
"If estimation of a model does not complete, because of an interruption, an exhausted resource, a failing console, a singular matrix or invalid arguments, the model reports exactly what it reported before the attempt. If it completes, every reported result belongs to that estimation; a failure is never swallowed into a half-updated model.",
["fault_sequences","crash_points","histories"],"every point inside an estimation at which an error or interruption can arise, for every model type and after every history of earlier estimations",
"tests only check that errors are raised by argument validation; none fails an estimation midway and then inspects the model",
ALLM,[("storing results","MNDC_Model.store_fit_results"),("estimation driver","estimation.estimate"),("per model fit_mle","*.fit_mle")],"result attributes of the model object")
p("C04","The library recovers fully once faults stop",
"After any sequence of operations that failed or were interrupted at arbitrary points, later operations on the same or on other objects complete and return exactly what they would have returned had the failed attempts never been made. Nothing stays locked, cached or half-registered.",
["fault_sequences","histories"],"every sequence of estimations, predictions, bootstraps and conversions with faults at arbitrary points, followed by fault-free operations",
"tests never continue using objects after a failure",
ALLM+F("bootstrap.py","bootstrap_mle.py","choice_tools.py"),[("estimation driver","estimation.estimate"),("bootstrap driver","Boot.generate_bootstrap_replicates"),("storing results","MNDC_Model.store_fit_results")])
p("C05","Results depend on the inputs of the call, not on what ran before",
"What an estimation, prediction, summary, interval or resampling returns depends only on the model's declaration, its last completed estimation and the arguments of the call. Any number of other operations performed earlier in the process, on the same model, on other models or on the same data, does not change it.",
["histories","inputs"],"every sequence of create, estimate, re-estimate, point-estimate-only, predict, bootstrap and conversion calls over one or several models sharing data",
"tests use each object once, freshly built; re-estimation and use of several models on one data set are not exercised",
ALLM+F("bootstrap.py","bootstrap_calcs.py","bootstrap_mle.py","construct_estimator.py","choice_tools.py"),[("model state","MNDC_Model attributes"),("bootstrap state","Boot attributes"),("mixing names","_add_mixing_variable_names_to_individual_vars")])
p("C06","Separate models can be used from separate threads",
"Threads that each create, estimate, predict with and bootstrap their own models, even from the same data frame and specification, obtain exactly the results they would obtain running alone. No interleaving deadlocks or makes an operation fail.",
["schedules","inputs"],"every interleaving, at source-line granularity, of operations on distinct model objects that may share their inputs",
"tests are single threaded",
ALLM+F("choice_calcs.py","nested_choice_calcs.py","mixed_logit_calcs.py","choice_tools.py"),[("per-model state","MNDC_Model attributes"),("calculation modules hold no mutable state","choice_calcs, nested_choice_calcs, mixed_logit_calcs")])
p("C07","An estimated model can be read by several threads at once",
"Concurrent predictions, summaries, confidence intervals and bootstraps (each with its own bootstrap object) based on one estimated model each return what they return when run alone, and leave the model unchanged.",
["schedules","inputs"],"every interleaving, at source-line granularity, of read-only uses of one estimated model",
"tests are single threaded",
F("base_multinomial_cm_v2.py","mixed_logit.py","bootstrap.py","bootstrap_mle.py","mixed_logit_calcs.py"),[("prediction","MNDC_Model.predict"),("bootstrap","Boot")])
p("C08","Saving a model never destroys or corrupts a saved model",
"At every moment while a model is being saved, whatever error, interruption, process death or power loss strikes, the target file holds either exactly what it held before or the complete newly saved model, and a save that reports success survives the death of the process. Other files are not touched, nothing is left behind by a save that returns or raises, and every kind of model, estimated or not, can be saved.",
["crash_points","fault_sequences","schedules","inputs"],"every disk step and source line of a save as crash or error point, every loss of unsynced data after a power failure, concurrent savers and readers of one path",
"the test saves one model to a healthy disk and checks that a file exists",
F("base_multinomial_cm_v2.py","nested_logit.py"),[("saving","MNDC_Model.to_pickle")],"contents of the target path, directory listing")
p("C09","A reloaded model behaves like the one that was saved",
"A model of any kind that is saved, and loaded in a new process, reports the same results as before and answers every later operation (predict, summarise, re-estimate, bootstrap) exactly as the original would have.",
["histories","crash_points","inputs"],"every history of operations with process restarts at arbitrary points, all model types, estimated or not",
"the test only checks that a file appears; nothing is ever loaded and used again",
F("base_multinomial_cm_v2.py","nested_logit.py","mixed_logit.py"),[("saving","MNDC_Model.to_pickle"),("instance attributes","model constructors")])
p("C10","Objects the caller passes in are never modified",
"Data frames, specifications, name dictionaries, nest specifications, starting values, constraint lists, parameter lists and keyword dictionaries passed to the library keep their contents, whether the call succeeds or fails. The only exception is the documented one: a column of ones named intercept may be added to a data frame whose specification uses an intercept.",
["histories","fault_sequences","inputs"],"every history of operations, including failing and interrupted ones",
"tests build fresh inputs for each call and rarely compare them afterwards",
ALLM+F("choice_tools.py","bootstrap.py","bootstrap_mle.py","bootstrap_sampler.py"),[("model construction","MNDC_Model.__init__"),("start values","estimation.estimate"),("MNL fit kwargs","bootstrap_mle.get_mnl_point_est")])
p("C11","Every resample is one stratified draw, every replicate its estimate",
"Each bootstrap replicate is the estimate on one sample drawn with replacement from the choice situations, holding exactly as many situations per chosen alternative as the data do, each drawn situation kept whole; each jackknife replicate is the estimate on the data without exactly one situation. Replicates appear in order, one per requested sample or per situation, labelled with the model's parameter names.",
["inputs","histories"],"every data set (ids in any order or with gaps, varying availability), model type, seed or ambient random state",
"tests check the sampler's pieces on one tiny fixed data set and mock the estimation",
F("bootstrap_sampler.py","bootstrap.py","bootstrap_mle.py","bootstrap_utils.py"),[("sampling","bootstrap_sampler.create_cross_sectional_bootstrap_samples"),("resampled data","bootstrap_sampler.create_bootstrap_dataframe"),("replicates","Boot.generate_bootstrap_replicates, generate_jackknife_replicates")])
p("C12","Bootstrap results and intervals are all-or-nothing",
"If generating replicates or computing intervals fails or is interrupted at any point, the replicates, the intervals of each type and the log-likelihoods stored on the bootstrap object are each either exactly the earlier value or the complete new one, never a mixture or an unlabelled intermediate. After a call that succeeds, each of them is the complete new one.",
["fault_sequences","crash_points","histories"],"every point inside replicate generation and interval calculation, after any history on the same object",
"tests never interrupt a bootstrap",
F("bootstrap.py","bootstrap_calcs.py","bootstrap_abc.py","bootstrap_mle.py"),[("replicates","Boot.generate_bootstrap_replicates, generate_jackknife_replicates"),("intervals","Boot.calc_conf_intervals")])
p("C13","What a fitted model reports is consistent at the point the search returned",
"Whatever the optimiser does (converges, stops early, fails, jumps, evaluates other points before or after, reuses its buffers), every stored result (parameters, log-likelihoods, fitted probabilities, residuals, gradient, Hessian, Fisher information, covariances, standard errors, tests, fit statistics, success flag and message) is the one defined by the model at the parameters the optimiser returned. The function and gradient handed to the optimiser are the penalised negative log-likelihood of the declared model and its derivative at every point it asks for.",
["inputs","configurations","fault_sequences"],"every optimiser behaviour permitted by its interface, every model type, ridge penalty, constraint set, data set and starting point",
"tests compare single calculations on one tiny data set and mock the optimiser's result",
ALLM+F("choice_calcs.py","nested_choice_calcs.py","mixed_logit_calcs.py"),[("estimation driver","estimation.estimate"),("storing results","MNDC_Model.store_fit_results"),("objective","EstimationObj.calc_neg_log_likelihood_and_neg_gradient")])
p("C14","Constrained parameters stay put and carry no inference",
"Parameters the caller constrains keep their starting values under every gradient-based search method and however the search ends, and are reported without standard errors, test statistics or p-values. All other parameters remain free to move.",
["inputs","configurations"],"every set of constrained positions, model type, gradient-based method, starting point, and early or failed termination",
"tests check one constrained fit with one method",
F("estimation.py","base_multinomial_cm_v2.py","nested_logit.py","mixed_logit.py"),[("gradient masking","EstimationObj.calc_neg_log_likelihood_and_neg_gradient"),("curvature masking","EstimationObj.calc_neg_hessian"),("inference masking","_adjust_inferential_results_for_parameter_constraints")])
p("C15","Neither the clock nor printing influences results",
"Results are the same whether progress and results are printed or not, and whatever the system clock does while the library works: stalls, jumps forward, runs backward.",
["schedules","histories","configurations"],"every clock behaviour and every print setting, for every operation",
"tests run with a normal clock",
F("estimation.py","bootstrap.py","bootstrap_abc.py","base_multinomial_cm_v2.py"),[("timing and printing","estimation.estimate"),("progress bars","Boot, bootstrap_abc")])
p("C16","The search runs as requested",
"Each estimation starts exactly one search, from exactly the caller's starting values (also when they are given per block of parameters), with the requested method, iteration limit and tolerances, and a request for the point estimate only returns that search's result unaltered without changing what the model reports.",
["inputs","configurations"],"every model type, starting values, method, iteration limit, tolerances, and way of passing the starting values",
"tests mock the estimation or use default settings",
ALLM,[("estimation driver","estimation.estimate"),("per model fit_mle","*.fit_mle")])
p("C17","Predictions are the declared model's probabilities at its parameters",
"Whatever was estimated, predicted, interrupted, saved and reloaded before, and whatever other threads do, a prediction returns the probabilities that the declared model assigns to the given data at its latest parameters or at the parameters passed in. Mixed logit predictions average over the requested draws, and panel predictions weight each individual's draws by that individual's own past choices. Rows come back in the order of the data, whatever the order and labels of its choice situations, alternatives, individuals and index.",
["histories","schedules","fault_sequences","inputs"],"every history of estimations, failures, restarts and predictions, every interleaving of readers, every model type and prediction data set of ordinary magnitude",
"tests predict once, on the data used for building the model, with a handful of rows and a fixed order",
F("base_multinomial_cm_v2.py","mixed_logit.py","mixed_logit_calcs.py","choice_calcs.py","nested_choice_calcs.py","asym_logit.py","scobit.py","uneven_logit.py","clog_log.py"),[("prediction","MNDC_Model.predict"),("panel prediction","MixedLogit.panel_predict"),("probabilities","choice_calcs.calc_probabilities, nested_choice_calcs.calc_nested_probs, mixed_logit_calcs")],"return value of predict and panel_predict")
p("C18","Bootstrap statistics describe the replicates currently stored",
"Percentile and BCa interval endpoints, the log-likelihoods of the replicates and their gradient norms are functions of the replicates currently stored, the data and the arguments of the call (confidence level, ridge penalty, weights), whatever was generated, computed or interrupted before. They are labelled with the parameters and confidence limits they belong to.",
["histories","fault_sequences","inputs"],"every sequence of replicate generations, interval, log-likelihood and gradient-norm calculations on one bootstrap object, with failures at arbitrary points",
"tests compute each statistic once from hand-made replicates",
F("bootstrap.py","bootstrap_calcs.py","bootstrap_abc.py","bootstrap_utils.py","bootstrap_mle.py"),[("intervals","Boot.calc_percentile_interval, calc_bca_interval, calc_abc_interval, calc_conf_intervals"),("log-likelihoods","Boot.calc_log_likes_for_replicates"),("gradient norms","Boot.calc_gradient_norm_for_replicates")],"attributes of the bootstrap object, return values")
# not applicable: pure functions of their inputs
def na(i,title,st,files,mech,why):
    p(i,title,st,["inputs"],"every input",why,files,mech)
na("N01","Predicted probabilities are valid for extreme utilities",
"For every finite data set and parameter vector, however extreme, predicted probabilities lie in [0, 1] and sum to one over each choice situation.",
F("choice_calcs.py","nested_choice_calcs.py","mixed_logit_calcs.py"),[("probabilities","choice_calcs.calc_probabilities")],"tests sample a handful of utilities")
na("N02","Wide and long data conversions are inverse to each other",
"Converting data from long to wide format and back, or from wide to long and back, reproduces the original rows and values for every valid data set.",
F("choice_tools.py"),[("conversion","choice_tools.convert_long_to_wide, convert_wide_to_long")],"tests convert one small data set")
na("N03","The design matrix follows the specification",
"For every valid specification and data set, the design matrix has one column per named parameter, holding the variable's value in the rows of the alternatives the specification lists and zero elsewhere.",
F("choice_tools.py"),[("design","choice_tools.create_design_matrix")],"tests check a few specifications")
na("N04","Invalid declarations are rejected with an informative error",
"Every invalid data set, specification, name dictionary, nest specification or argument combination is rejected before any estimation work starts.",
F("base_multinomial_cm_v2.py","choice_tools.py"),[("validation","MNDC_Model.__init__")],"tests try a handful of invalid inputs")
na("N05","Interval endpoints are ordered and nested for every array of replicates",
"For every array of replicates, however degenerate, percentile, BCa and ABC interval endpoints are finite and ordered, shrink as the confidence level falls, and ABC endpoints equal their textbook definition.",
F("bootstrap_calcs.py","bootstrap_abc.py"),[("intervals","bootstrap_calcs.calc_percentile_interval")],"tests compare a few published values")
na("N06","Observation weights enter the likelihood and its derivatives alike",
"For every vector of positive weights, the weighted log-likelihood, gradient and Hessian are those of the data set in which each situation is repeated by its weight.",
F("choice_calcs.py","nested_choice_calcs.py","mixed_logit_calcs.py"),[("weights","calc_log_likelihood, calc_gradient")],"tests use unit weights")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
