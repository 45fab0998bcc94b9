add("C01", "A fit, bootstrap or question depends only on its arguments, not on history",
    "Fitting a causal discovery estimator, bootstrapping it, or asking a fitted one for effects or error-independence p-values gives the same "
    "result as the same operation on a newly constructed estimator with the same settings and the same random stream. "
    "Nothing that happened to the object before (other fits, other data, failed or interrupted fits, bootstraps, questions, "
    "pickling or copying) may show in the result, and no operation changes the estimator's settings or results handed out earlier.",
    ["histories", "fault_sequences", "inputs", "configurations"],
    "for every estimator, settings, sequence of earlier operations (including failing ones at any point) and data set",
    "Tests build a new estimator per call, fit once and look at the result; they never compare a reused object with a new one, nor fit after a failure.",
    ALL_EST, [W("fit / bootstrap / estimate_total_effect / get_error_independence_p_values of every estimator", "lingam/*.py"),
              W("VAR settings kept apart from fitted values", "lingam/var_lingam.py:fit, bootstrap"),
              W("VARMA settings kept apart from fitted values", "lingam/varma_lingam.py:fit, bootstrap")],
    technique="seeded operation histories with failing calls against a fresh-object reference",
    note="Seeded search over histories of 2-6 operations on small data; every operation's result compared with a pristine process/object to 1e-7. Trusts that small instances exercise the same state handling as large ones.",
    observe=["adjacency matrices, orders, residuals and every other public result attribute", "values returned by bootstrap and questions"])
add("C02", "A failed or interrupted fit never exposes a mixture of two fits",
    "When a fit fails or is interrupted at any point, the results the estimator then exposes all belong to one and the same fit (the earlier "
    "successful one or the new one), the rest being absent. A user who catches the error never reads, for example, a causal order of one data set "
    "next to the adjacency matrix of another.",
    ["crash_points", "fault_sequences", "histories"],
    "for every call inside every estimator's fit at which an interrupt, memory or numerical failure can surface, and for every earlier fit",
    "No test makes a fit fail half way and reads the object afterwards.",
    ALL_EST, [W("assignment of result attributes in fit", "lingam/*.py:fit"),
              W("order and adjacency published by the shared adjacency estimation", "lingam/base.py:_estimate_adjacency_matrix")],
    technique="failing call injected at every kind of call site of a fit, exposed results attributed to fits",
    note="Fault points are sampled over all dynamic calls of lingam code (distinct site first); three fault kinds; exposed results compared with those of complete reference fits.",
    observe=["public result attributes after the exception"])
add("C03", "Caller's data is never modified, not even temporarily, and never aliased",
    "No operation modifies the arrays, frames, lists, dictionaries or matrices the caller passed in: not when it returns, not when it fails, and not at "
    "any moment in between. Results handed out, and settings an estimator or causal-effect object was built with, do not change when the caller "
    "later overwrites those inputs.",
    ["schedules", "crash_points", "inputs"],
    "for every public operation, input form (array, Fortran order, read-only, view, frame, list), moment of observation and failure point",
    "Tests pass fresh arrays and never look at them again, let alone while the call runs or after a failure.",
    ALL_EST + ["lingam/bootstrap.py", "lingam/tools/__init__.py", "lingam/utils/__init__.py", "lingam/causal_effect.py",
               "lingam/causal_based_simulator.py", "lingam/experimental/cdg.py", "lingam/experimental/oct.py"],
    [W("input validation and copying at each public entry point", "lingam/**/*.py")],
    technique="inputs inspected at every line of lingam code, after injected failures, and overwritten afterwards",
    note="Catalogue of public operations (fits, bootstraps, effects, simulation, generation, summaries, utilities); byte comparison of inputs. Caller-supplied estimator objects are excluded.")
add("C04", "Independent objects used from several threads do not disturb each other",
    "Operations on different objects running at the same time in different threads, even when they read the same input data and even when one of them "
    "fails, each give exactly the result they give alone.",
    ["schedules", "fault_sequences", "inputs"],
    "for every set of 2-3 public operations in flight and every interleaving of their steps",
    "Tests are single threaded.",
    ALL_EST + ["lingam/bootstrap.py", "lingam/hsic.py", "lingam/utils/__init__.py", "lingam/utils/_f_correlation.py", "lingam/tools/__init__.py",
               "lingam/causal_effect.py", "lingam/causal_based_simulator.py"],
    [W("no module- or class-level mutable state", "lingam/**/*.py")],
    technique="seeded thread scheduler preempting at every line and call of lingam code, results against solo runs",
    note="Preemption at line/call boundaries of lingam code only; per-thread view of the global random stream.")
add("C05", "Asking questions of a fitted object is read-only, repeatable and thread-safe",
    "Asking a fitted estimator, bootstrap result, causal-effect or similar object any question does not change the object. The same question gives the same answer however "
    "often, in whatever order, after whatever failed question, and from however many threads it is asked, overwriting a returned "
    "answer does not change later answers, and later questions do not change answers already returned.",
    ["schedules", "histories", "fault_sequences"],
    "for every object kind, sequence and interleaving of questions, failing question and caller that overwrites answers",
    "Tests ask each question once, on a new object, from one thread.",
    ["lingam/bootstrap.py", "lingam/base.py", "lingam/causal_effect.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py",
     "lingam/multi_group_rcd.py", "lingam/rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/causal_based_simulator.py", "lingam/tools/__init__.py"],
    [W("summaries of bootstrap results", "lingam/bootstrap.py"), W("lazy initialisation on first question", "lingam/causal_effect.py:_check_init_params"),
     W("effects and p-values of fitted models", "lingam/*.py:estimate_total_effect, get_error_independence_p_values")],
    technique="seeded question histories and interleavings against an untouched copy",
    note="3-12 questions per run, one to three threads, failing calls, overwritten answers.")
add("C06", "Every bootstrap record is exactly the fit of one genuine resample",
    "A bootstrap with n draws records exactly n adjacency matrices, sets of total effects and resampling indices where it reports them; each record is what fitting the "
    "estimator to a resample of the given data (rows drawn with replacement, per group; for time series, a series rebuilt "
    "from the fitted coefficients and resampled residuals of the given data) gives. Recorded total effects are those of the recorded fit, no draw depends on another, and a bootstrap "
    "in which a draw fails returns no result and leaves settings as they were.",
    ["inputs", "histories", "fault_sequences", "configurations"],
    "for every estimator with a bootstrap, data set, settings, number of draws, history of the object and failing draw",
    "Tests only check the number and shape of records, on one data set.",
    ["lingam/base.py", "lingam/bootstrap.py", "lingam/multi_group_direct_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py",
     "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
    [W("draw loop", "lingam/*.py:bootstrap"), W("total effects of a draw", "lingam/*.py:estimate_total_effect, estimate_total_effect2")],
    technique="every draw observed, possibly failed, and refitted by a fresh estimator under the same random position",
    note="1-4 draws per run (25 in coverage runs that check that all rows can be drawn); total effects recomputed by path sums / regressions.")
add("C07", "Every summary of a bootstrap equals a recount of its recorded draws",
    "Causal direction counts, directed acyclic graph counts, edge probabilities, total effects, and path summaries returned by a "
    "bootstrap result (including the time-series and longitudinal ones) equal a plain recount of the recorded draws under the requested thresholds, sign splitting and limits, "
    "most frequent first. This holds whatever summaries were asked before, failed before, or are being asked in another thread.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "for every ledger of draws (ties, opposite signs, undetermined pairs, empty draws), every summary with every parameter, and every sequence or interleaving of requests",
    "Tests call each summary once on one bootstrap and mostly check that it does not raise.",
    ["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/base.py", "lingam/tools/__init__.py", "lingam/utils/__init__.py"],
    [W("summary methods", "lingam/bootstrap.py:BootstrapResult"), W("time-series summaries", "lingam/var_lingam.py:VARBootstrapResult"),
     W("longitudinal summaries", "lingam/longitudinal_lingam.py:LongitudinalBootstrapResult")],
    technique="fabricated and real ledgers, seeded request histories and interleavings against a reference recount",
    note="Reference recount is an independent plain-Python model; order among equally frequent items unspecified.")
add("C08", "Same seed, same result; no operation disturbs process-global state",
    "An operation given the same arguments and seed (or, where it draws from the global random stream by design, the same stream position) gives the same result "
    "whatever ran before in the process and in every interpreter. Seeded and deterministic operations neither read nor move the global random stream, and no operation, "
    "succeeding or failing, leaves process-wide settings (warning filters, numerical error handling, options, random stream type) changed.",
    ["histories", "fault_sequences", "configurations"],
    "for every public operation, every position of the global random stream, every sequence of earlier (possibly failing) operations and every interpreter hash seed",
    "Tests run each operation once in one process and look at shapes; they cannot see dependence on what ran before or on the interpreter.",
    ALL_EST + ["lingam/bootstrap.py", "lingam/causal_based_simulator.py", "lingam/causal_effect.py", "lingam/experimental/cdg.py", "lingam/experimental/oct.py",
               "lingam/tools/__init__.py", "lingam/utils/__init__.py", "lingam/hsic.py"],
    [W("use of random_state / check_random_state", "lingam/**/*.py"), W("warning and error-handling contexts", "lingam/**/*.py")],
    technique="operations replayed under other stream positions, preceding (failing) operations and interpreter hash seeds",
    note="Global streams (numpy, stdlib), warning filters, numpy error state and print options, pandas options and environment are observed; 0-3 preceding operations per run.")
add("C09", "The imputation bootstrap follows its protocol and records faithfully",
    "The bootstrap with imputation shows the imputer only genuine resamples of the given data with missing values intact, hands the discovery model exactly the imputed data of that draw, and "
    "returns per draw the resampling indices, imputed values, causal order and adjacency matrices of that draw, observed values untouched by imputation being the resampled ones. "
    "Parties that work in place, reuse their buffers, answer malformed or fail never corrupt another draw's record or the caller's data: malformed answers and failures surface as errors.",
    ["inputs", "fault_sequences", "histories"],
    "for every imputer/model behaviour (in place, buffer reuse, malformed, failing at any draw), data set with missing values and number of draws",
    "Tests use one well-behaved imputer and model and check shapes.",
    ["lingam/tools/__init__.py"], [W("bootstrap_with_imputation and its two plug-in parties", "lingam/tools/__init__.py")],
    technique="simulated imputer and model parties with faults, call history checked against the protocol",
    note="1-3 draws, 1-3 repeats; built-in parties run for real in part of the runs.")
add("C10", "Simulated data obey the trained equations; interventions act only locally",
    "Data returned by a simulation satisfy, variable by variable and row by row, the equation trained from the last successful training (prediction from the simulated parents plus that variable's training residual); "
    "with no intervention the training data come back. An intervention replaces the noise or the equation of the named variable and nothing else, shuffling applies one common permutation of rows to the residuals, "
    "and failed or rejected trainings or simulations leave the simulator as it was.",
    ["inputs", "histories", "fault_sequences", "configurations"],
    "for every causal graph, data form, mix of discrete and continuous variables, interventions, and history of trainings, simulations and failures",
    "Tests check that a simulation runs and has the right shape on one graph.",
    ["lingam/causal_based_simulator.py"], [W("train / run", "lingam/causal_based_simulator.py:CausalBasedSimulator")],
    technique="seeded histories of trainings, simulations and failures against an independently trained reference",
    note="Reference equations trained with scikit-learn on the same data; 2-6 operations per run.")
add("C11", "Intervention answers solve the structural equations",
    "The optimal intervention returned for a wanted prediction, when put back into the linear structural equations with the given observation means and prediction model, yields that prediction; "
    "reported effects on a prediction are those the equations give when each variable in turn is held at its mean and one standard deviation above or below it. "
    "Answers do not depend on how variables are numbered, on the form of the model or data, on the random stream, on earlier or failed or concurrent questions, and arrive in a bounded number of steps.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "for every acyclic graph and numbering (including exactly cancelling coefficients), observation data, prediction model, question sequence and interleaving",
    "Tests ask one graph two questions and check that a value comes back.",
    ["lingam/causal_effect.py"], [W("interventional propagation", "lingam/causal_effect.py:CausalEffect")],
    technique="seeded question histories, interleavings and failures; each answer put back into a reference structural-equation solver; step budget",
    note="Graphs of 2-6 variables; linear, logistic, tree and kernel prediction models; undefined questions (no effect on the prediction) are not asked.")
add("C12", "Every model exposed is well formed and obeys prior knowledge",
    "Whatever data, settings and history, every causal order an estimator exposes lists each variable exactly once (undetermined groups where the method has them), every edge of the adjacency matrix runs along that order, "
    "no variable causes itself instantaneously, undetermined pairs are marked alike in both directions, and matrices have the shape of the data. "
    "Given prior knowledge, no forbidden edge or path appears in the order or the matrix, neither of a fit nor of any bootstrap draw, also after failed fits.",
    ["inputs", "histories", "configurations", "fault_sequences"],
    "for every estimator, data set on which the fit succeeds (ties, near-collinear columns, few samples, extreme scales), consistent prior knowledge, history and failing call",
    "Tests check shapes, and prior knowledge on one data set with a fixed matrix.",
    ["lingam/base.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/resit.py", "lingam/multi_group_direct_lingam.py",
     "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/var_lingam.py",
     "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/utils/__init__.py"],
    [W("search for the next variable and its candidates", "lingam/direct_lingam.py:_search_candidate, _search_causal_order"),
     W("adjacency estimation along the order", "lingam/base.py:_estimate_adjacency_matrix"),
     W("acyclic permutation of ICA estimates", "lingam/ica_lingam.py:_estimate_causal_order")],
    technique="seeded histories of fits, bootstraps and failures; everything exposed checked as an invariant after each operation",
    note="2-6 variables; prior knowledge drawn from a random acyclic order; invariants checked after every operation and on every recorded draw.")
add("C13", "Generated data follow the last fitted models; only replaced parts change",
    "A frame produced by the causal data generator holds, for cause and effect, the fitted model's prediction from the generated parents plus the fitted errors, and the fitted values for the adjustments, with rows and labels of the fitted data; "
    "replaced values, errors or model functions take effect for the named variable (and what follows from it) and nothing else. "
    "Failed fits or generations, in-place or failing model functions and the caller overwriting its data leave the generator and other generations as they were.",
    ["inputs", "histories", "fault_sequences", "configurations"],
    "for every data frame (categorical and numerical columns, any index), roles, estimators, replacements and history of fits, generations and failures",
    "Tests generate once from one frame and check that no error is raised.",
    ["lingam/experimental/cdg.py"], [W("fit / generate", "lingam/experimental/cdg.py:CausalDataGenerator")],
    technique="seeded histories with simulated model-function parties and failures against an independent reference generator",
    note="25-60 rows, 0-2 adjustments; reference trained with scikit-learn independently.")
add("C14", "Tuning judges all configurations on the same folds and picks as documented",
    "Out-of-sample tuning builds each configuration's discovery method with the given arguments, shows it every training part of one common set of folds of the given data and nothing else, "
    "scores each variable by predicting it, on the held-out part, from the Markov blanket of the graph that came back (or from all others, where asked), and picks the best average performance or, with the sparsity penalty, "
    "the configuration with the smallest Markov blankets among those whose performance is not significantly worse. The reported scores are those of the pick. "
    "Failing methods surface as errors and leave the tuner as it was; nothing depends on earlier, failed or concurrent tunings.",
    ["inputs", "histories", "fault_sequences", "schedules", "configurations"],
    "for every list of configurations, fold scheme (also unseeded shuffling ones), data form, behaviour of the discovery methods, history and failing call",
    "Tests tune two fixed methods on one data set and check that an index comes back.",
    ["lingam/experimental/oct.py"], [W("evaluation loop and choice", "lingam/experimental/oct.py:OutOfSampleCausalTuning.fit")],
    technique="seeded histories with simulated discovery-method parties (recording, failing, malformed) against a reference of folds, scores and choice",
    note="Random forest replaced by least squares behind the same class so that scores can be recomputed; permutation p-values checked with a tolerance, near-ties not judged.")
add("C15", "Reported effects and p-values are those of the model exposed at that moment",
    "Every total effect and every error-independence p-value a fitted estimator reports follows from the model it exposes at that moment and the data asked about: the regression on the source and its exposed "
    "parents, the sum over exposed directed paths of the products of coefficients (lagged and longitudinal ones included), and the independence test of the residuals of the exposed coefficients, undetermined "
    "variables being reported as such. This holds after any history of fits, failed fits, bootstraps, rejected input, failed questions and restarts, and from several threads.",
    ["inputs", "histories", "fault_sequences", "schedules", "configurations"],
    "for every estimator with these questions, settings, data set (the fitted one or another), pair of variables and lag, and history",
    "Tests check that the calls return; a wrong covariate set, a stale matrix or a swapped lag passes them.",
    ["lingam/base.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/multi_group_direct_lingam.py", "lingam/var_lingam.py", "lingam/varma_lingam.py",
     "lingam/longitudinal_lingam.py", "lingam/hsic.py", "lingam/utils/__init__.py"],
    [W("total effects by regression and by paths", "lingam/*.py:estimate_total_effect, estimate_total_effect2"), W("residuals and independence tests", "lingam/*.py:get_error_independence_p_values"),
     W("path effects of a matrix", "lingam/utils/__init__.py:calculate_total_effect")],
    technique="seeded histories with failing operations and interleaved questions; every answer recomputed independently from the exposed model",
    note="Reference: least squares, plain path enumeration and a plain HSIC gamma test; data sets with too few samples or equal values (where rounding decides) are not judged.",
    observe=["values returned by estimate_total_effect, estimate_total_effect2 and get_error_independence_p_values next to the public result attributes"])
add("C16", "Exposed coefficients are the documented regressions of the fitted data",
    "The coefficients an estimator exposes after a fit are those of its documented regressions of the data it was fitted to, given the order (or ancestors) it exposes: each variable regressed on its predecessors with superfluous ones removed by the "
    "adaptive lasso, per group on that group's own data, forbidden predecessors left out; for RCD, parents and confounded pairs as its correlation tests say; for time series and longitudinal data, lagged coefficients, residuals and the number of lags "
    "chosen that fit together with the instantaneous ones. A refitted, restarted, concurrently fitted or previously failed estimator never exposes coefficients of other data.",
    ["inputs", "histories", "fault_sequences", "schedules", "configurations"],
    "for every estimator, settings, data set and form, and history of fits, failures, refilled buffers and restarts",
    "Tests check shapes or compare strong coefficients of one data set with a wide tolerance.",
    ["lingam/base.py", "lingam/utils/__init__.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/bottom_up_parce_lingam.py",
     "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/resit.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
    [W("adjacency estimation along the order", "lingam/base.py:_estimate_adjacency_matrix"), W("adaptive lasso", "lingam/utils/__init__.py:predict_adaptive_lasso"),
     W("lagged coefficients and pruning", "lingam/var_lingam.py, lingam/varma_lingam.py, lingam/longitudinal_lingam.py:fit"), W("parents and confounded pairs", "lingam/rcd.py, lingam/multi_group_rcd.py:fit")],
    technique="seeded histories of fits with failing calls, refilled buffers, restarts and interleaved threads; everything exposed recomputed by independent regressions",
    note="The order itself is taken as exposed (its statistical quality is N01). Decisions that rounding of the data could turn are accepted either way.",
    observe=["causal orders, ancestors, adjacency matrices and residuals exposed after each operation"])
add("C17", "The exposed order is what the documented search selects in the fitted data",
    "Every step of the causal order (or of the ancestor sets) an estimator exposes after a fit is the choice its documented search makes on the data it was fitted to: DirectLiNGAM and its group, time-series and longitudinal relatives take, among the "
    "variables prior knowledge leaves (strongly or softly applied), one with the best pairwise-likelihood or kernel measure, groups weighted by their sample sizes, and remove its effect from the others before the next step; seeded ICA orders by the largest acyclic part "
    "of its estimate; RESIT takes the variable whose residual depends least on the others for the last; bottom-up ParceLiNGAM does so while the test does not reject and leaves the rest undetermined; RCD extends ancestors exactly where its tests, "
    "in all groups, say so. This holds after any history of fits on other data, failed fits, refilled buffers, restarts and concurrent fits.",
    ["inputs", "histories", "fault_sequences", "schedules", "configurations"],
    "for every such estimator, settings, prior knowledge, data set and form, and history of fits, failures, refilled buffers, restarts and interleaved fits",
    "Tests check that the order has the right length or, at best, recover one strong generating order.",
    ["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/ica_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/resit.py", "lingam/var_lingam.py", "lingam/varma_lingam.py",
     "lingam/longitudinal_lingam.py", "lingam/hsic.py"],
    [W("choice of the next variable and removal of its effect", "lingam/direct_lingam.py:_search_causal_order, _search_candidate, _residual"), W("group weights", "lingam/multi_group_direct_lingam.py:_search_causal_order"),
     W("sink search and rejection", "lingam/bottom_up_parce_lingam.py:_find_exo_vec, _is_reject; lingam/resit.py:_estimate_order"), W("ancestor extraction", "lingam/rcd.py, lingam/multi_group_rcd.py:_extract_ancestors"),
     W("permutation and acyclic part", "lingam/ica_lingam.py:_estimate_causal_order"), W("HSIC test", "lingam/hsic.py:hsic_test_gamma")],
    technique="seeded histories of fits with failing calls, refilled buffers, restarts and interleaved threads; every step of the exposed order judged by an independent computation of the documented measure",
    note="Steps at which candidates differ by rounding only are accepted either way; unseeded ICA, HighDimDirectLiNGAM, CAM-UV, LiM and LiNA orders are not judged here (their state handling is C01-C08, C12).",
    observe=["causal orders and ancestor lists exposed after each operation"])
add("N01", "Discovery recovers the generating causal structure when its assumptions hold",
    "Given enough data generated by a model that meets an estimator's assumptions, the estimated order and coefficients approach the generating ones.",
    ["inputs"], "for every generating model within the assumptions, as the sample grows",
    "Tests sample one generated data set.", ALL_EST, [W("independence measures and search", "lingam/*.py:fit")],
    na="Statistical statement about a pure function of the data and its distribution: no schedule, fault, outside party or history enters, so simulation with fault injection has nothing to decide; "
       "the state handling around these functions is covered by C01-C08 and C12.")
add("N02", "Reported p-values are calibrated",
    "Under independence the p-values of the independence tests are approximately uniform.",
    ["inputs"], "for every pair of independent distributions", "Tests compute a few values.",
    ["lingam/hsic.py", "lingam/base.py"], [W("gamma approximation of HSIC", "lingam/hsic.py:hsic_test_gamma")],
    na="Statistical statement about pure numerical functions without concurrency, time, I/O or parties; their purity, repeatability and thread safety are covered by C03, C04 and C08.")
add("N03", "Drawings show the given graph",
    "Graph drawings contain exactly the edges of the given matrix above the limit, with labels.",
    ["inputs"], "for every matrix and drawing option", "Tests only check that no error is raised.",
    ["lingam/utils/__init__.py"], [W("graphviz source", "lingam/utils/__init__.py:make_dot")],
    na="Pure formatting of a matrix into text, with no state, schedule, fault or party for the property to depend on; side effects on inputs and globals are covered by C03 and C08.")
