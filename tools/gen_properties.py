"""Writes properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
L = "mizarlabs/transformers/targets/labeling.py"
T = "mizarlabs/transformers/targets/trend_scanning.py"
B = "mizarlabs/transformers/trading/bet_sizing.py"
SA, SD, CS = ("mizarlabs/structural_breaks/" + n for n in ("sadf.py", "sdfc.py", "cusum_chu_stinchcome_white.py"))
BAG = "mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py"
BOOT = "mizarlabs/model/bootstrapping.py"
CV = "mizarlabs/model/model_selection.py"
P = "mizarlabs/model/pipeline.py"
TECH = "mizarlabs/transformers/technical/"
MIC = "mizarlabs/transformers/microstructural_features/"

def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=None))

PROPS = [
prop("C01", "Triple-barrier labels are the first touch, on any schedule, and never repaint",
 "For every bar, the label row (event end, volatility, return, label) is the one of the first of the three barriers to be touched: a profit-taking or stop-loss barrier is touched when the side-adjusted return since the bar is strictly beyond factor times volatility at a bar before the expiration bar (before the last bar, while the expiration bar has not arrived), a factor of zero disables that barrier, the label is the sign of the return to the event end (with meta-labeling 1, 0 or missing for a profit, a loss or a zero return; with expiration labels 0 when neither barrier is touched), and the row is empty while nothing is decided or the volatility is unknown. This holds for every number of worker threads, chunking and execution order of the labelling work and whatever the memory it is given contains. Once a row is decided on the bars seen so far it stays the same when later bars arrive.",
 ["schedules", "histories", "inputs"],
 "Every bar series with a unique, increasing, naive, millisecond-resolution index and positive closes; every barrier configuration; every assignment of bars to workers and every order of execution; every arrival history of the bars.",
 "The tests label one fixed bar file once, with the thread pool of the machine, and compare against a few hand-computed rows; they never vary the schedule and never extend the series.",
 [L], [("parallel first-touch search over bars", L + ": parallel kernel that looks for horizontal barrier hits"), ("first of the three barriers wins", L + ": minimum over the barrier columns"), ("labels from the return to the event end", L + ": label computation"), ("volatility uses only earlier closes", L + ": daily volatility")],
 ["TripleBarrierMethodLabeling.transform result"]),
prop("C02", "Trend-scanning labels pick the strongest trend, on any schedule and call history",
 "For every event whose whole look-forward window is available, the reported t-value is the slope t-value of largest magnitude among the forward windows of min_sample_length, min_sample_length+step, ... observations (fewer than look_forward_window), the event end is the last bar of that window, the return is the one from the event to that bar and the label is the sign of the t-value; every other event gets an empty row. This holds for every number of worker threads, chunking and execution order and whatever uninitialised memory contains. A labeler keeps nothing from one call to the next: each result depends only on the configuration and the series of that call, and rows with a complete window do not change as later bars arrive.",
 ["schedules", "histories", "inputs"],
 "Every price series, event subset, window, minimum length and step; every assignment of events to workers, every order of execution, every content of fresh memory; every sequence of calls on one labeler.",
 "The tests use step 1 on one series, one call per labeler, under the default thread pool.",
 [T, SD], [("parallel scan over events", T + ": parallel kernel over event positions"), ("window search", T + ": loop over forward windows and largest absolute t-value"), ("optional events", T + ": events default to the index of the series of the call")],
 ["TrendScannerLabeling.transform result"]),
prop("C03", "Averaged bet sizes are the mean of the bets open at each instant",
 "With active averaging, at every instant at which a bet opens or closes the size is the magnitude of the mean signal of exactly the bets that have opened at or before that instant and close strictly after it or have no known close (0 when there is none), where a bet's signal is prediction x (2*Phi(z)-1) with z=(p-1/n)/sqrt(p(1-p)), times the side when meta-labeling; without averaging it is the magnitude of each bet's own signal, and discretised sizes are the signal rounded to the nearest multiple of the step and capped at 1. The result does not depend on the number of worker threads, on chunking or on execution order. As bets open, close or have their close announced over time, the sizes at instants that are already past do not change.",
 ["schedules", "histories", "inputs"],
 "Every history of bets with unique opening times and any closing times, known, unknown or announced later; every number of workers, chunking and execution order.",
 "The tests check a fixed set of bets once against a loop with the same formula, on the default thread pool, and never replay a history.",
 [B], [("parallel average over instants", B + ": parallel kernel over opening and closing times"), ("unknown closing times stay open", B + ": negative timestamps"), ("signal from probabilities", B + ": z statistic and normal CDF")],
 ["BetSizingFromProbabilities.transform result", "avg_active_signals result"]),
prop("C04", "Structural-break statistics are exact and contain nothing but statistics",
 "At every time point where the regressions involved are well posed, the SADF (all model specifications, with phi), the Chow-type Dickey-Fuller and the Chu-Stinchcombe-White statistics and critical values are the ones of their definitions: the supremum over backward-expanding windows of at least min_length observations, the t-value of the break regression, and the supremum and its critical value over all reference levels. This holds for every number of worker threads, chunking, execution order and content of fresh memory, and when the computation inside a worker fails (a singular regression) only the time points whose own regressions are singular become NaN while all the others keep their exact value. The SADF and Chu-Stinchcombe-White statistics of a time point do not change when later observations arrive.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "Every series, including flat and repeated stretches; every model specification and window; every assignment of time points to workers and order of execution; worker failures at any position; any content of fresh memory.",
 "The tests use one noisy price series in which no regression is singular, with the default threads, and compare with a few stored numbers.",
 [SA, SD, CS], [("parallel loop over end points", SA + ", " + SD + ", " + CS + ": parallel kernels"), ("least squares helper", SD + ": OLS coefficients and variances"), ("failing inversions give NaN", SD + ": guarded inverse")],
 ["run() results of the three test classes"]),
prop("C05", "A fixed seed gives one ensemble, whatever the parallel execution",
 "With an integer random_state, training the sequentially bootstrapped ensemble gives the same members in the same order (drawn samples, drawn features, fitted predictions, class probabilities and out-of-bag scores) for every number of jobs, partition of members into tasks, task order and interleaving, thread- or process-based worker, hash seed of the interpreter, earlier training, and use of global random generators by others in the meantime. Growing the ensemble with warm starts in any increments gives the members of training it in one go. Distinct members get different random streams.",
 ["schedules", "configurations", "histories"],
 "Every data set, estimator, ensemble size, job count, partition, order and interleaving of the training tasks, worker kind and sequence of warm-start increments.",
 "The tests train with one or a few job counts on one data set under real joblib backends whose scheduling they do not control, and do not compare members between backends, partitions or increments.",
 [BAG, BOOT], [("seeds drawn before the parallel section", BAG + ": seeds from random_state, sliced per task"), ("per-member random state", BAG + ": one generator per member"), ("warm-start advances the generator", BAG + ": skips the seeds of existing members"), ("results collected in task order", BAG + ": reduce step")],
 ["fit, predict, predict_proba, estimators_, estimators_features_, sequentially_bootstrapped_samples_, oob_decision_function_"]),
prop("C06", "Sequential bootstrap draws follow average uniqueness given what is drawn",
 "Every draw of the sequential bootstrap is made with probabilities proportional to each sample's average uniqueness, over the bars it spans, given the samples already drawn in this bootstrap (all equal before the first draw, drawn repeats counted), with the probabilities refreshed exactly once before each batch of update_probs_every draws. Exactly the requested number of samples is drawn, whatever outcomes the random source produces. In ensemble training the samples, their spans and the data rows stay matched for any subset and order of the training rows, and each member is fitted on precisely the rows drawn for it, weighted by how often they were drawn times their sample weight.",
 ["histories", "schedules", "inputs"],
 "Every set of sample spans, every sequence of random outcomes (including improbable and adversarial ones), every batch size and length, every row subset and order used for training.",
 "The tests compare a mean uniqueness over a few hundred random bootstraps of a tiny example; the law of each draw after an arbitrary history of outcomes is never observed.",
 [BOOT, BAG], [("incremental update of impacted samples", BOOT + ": recomputes uniqueness only for samples that share a bar with the last draws"), ("batched refresh", BOOT + ": update_probs_every"), ("columns matched to rows", BAG + ": indicator matrix subset by the index of the training rows"), ("draw counts as weights", BAG + ": bincount of the drawn rows")],
 ["random_state.choice arguments", "seq_bootstrap result", "member fit arguments"]),
prop("C07", "Failed or interrupted ensemble training never leaves a half-built ensemble",
 "If any training task fails (out of memory, a failing member fit, a lost worker), the error reaches the caller, the ensemble keeps the members it had when warm-starting (none otherwise) with members, drawn features and drawn samples in equal number and matching one to one, and the caller's data, weights and sample spans are unmodified. Training again with the same seed then gives exactly the ensemble of an undisturbed training. After every successful training predictions and out-of-bag estimates are the ones recomputed from the members, their drawn features and their drawn samples, also after the ensemble is saved and restored in another process.",
 ["fault_sequences", "crash_points", "schedules", "histories"],
 "Every position and kind of task failure, every worker kind and schedule, every sequence of trainings, warm-start increments, failures, retries and save/restore steps.",
 "The tests never fail a task, never retry, and never save and restore an ensemble.",
 [BAG], [("results are appended after the whole parallel section", BAG + ": reduce step"), ("reset unless warm start", BAG + ": estimator lists"), ("out-of-bag from the drawn samples", BAG + ": out-of-bag score")],
 ["fit errors", "estimators_, estimators_features_, estimators_samples_, oob_decision_function_, predict_proba"]),
prop("C08", "Purged cross-validation never leaks and never drops more than it must",
 "Every combination of test groups is produced exactly once, the groups being the contiguous, near-equal parts of the time-ordered samples, and the train set of a split consists of exactly those other samples that (for every contiguous test block) do not come before the block with an evaluation time at or after its first prediction time, and do not come after it with a prediction time at or before the block's latest evaluation time plus the embargo. This holds for each of any number of consumers that iterate over the same cross-validator lazily, in any interleaving, abandoning and restarting iterations at any point. Producing splits modifies neither the data nor the times.",
 ["schedules", "histories", "inputs"],
 "Every set of samples with non-decreasing prediction times (ties allowed) and evaluation times not before them; every number of groups and test groups; every embargo; every interleaving, abandonment and restart of consumers.",
 "The tests check a handful of constructed data sets, one consumer and one complete iteration each.",
 [CV], [("purge", CV + ": train samples whose label is not known before the block"), ("embargo", CV + ": train samples too close after the block"), ("block merging", CV + ": adjacent test groups"), ("lazy split generator over shared state", CV + ": split")],
 ["split() output"],
 [("positions", "row positions cached on the cross-validator while splitting", CV)]),
prop("C09", "Backtest paths use every out-of-sample prediction once, whatever the shuffle",
 "Combinatorial cross-validation of G groups with k tested per split yields C(G-1,k-1) backtest paths; every path contains every sample exactly once with its own label information, each sample's prediction and probability come from a model trained on the train set of one split that tests that sample, and every (split, tested group) prediction is used in exactly one path. This holds for every outcome of the random choices, for other users of the random generator, and for several path computations interleaved with each other. If a model fails in the middle the error reaches the caller, and a repeated computation is complete and unaffected.",
 ["schedules", "fault_sequences", "inputs", "histories"],
 "Every data set and group configuration, every outcome of every shuffle, every position of a model failure, every interleaving of path computations.",
 "The existing tests only check the closed formula for the number of paths.",
 [CV], [("predictions collected per tested group", CV + ": dictionary keyed by group start"), ("random selection without replacement", CV + ": shuffle and pop"), ("number of paths", CV + ": closed formula")],
 ["combinatorial_cross_validation_paths output", "fit/predict calls on the supplied model"]),
prop("C10", "Features and indicator signals never look ahead and never repaint",
 "For the bar features and rule-based signals (microstructural estimators, VPIN, rolling z-scores, moving-average and MACD crossovers, EWMA difference, buy/sell imbalance, mean-reversion, RSI strategies, local-max ratio, daily volatility), the value a live process computes for a bar from the bars received up to it equals the value computed for that bar from any longer history, however the bars are batched, delayed, re-sent or gapped on the way. A process that restarts with a truncated history produces again, once a feature's look-back window is filled, the values of a process that never stopped (features with finite windows). The output has exactly one row per input bar, in order (the daily volatility only for bars with a close more than a day earlier).",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "Every bar history, every delivery schedule (batching, delay, duplication, loss with backfill), every restart point, every window configuration.",
 "The tests compare a whole-file result against a vectorised re-computation; none compares what was known at a bar with what is computed later, and none restarts.",
 [MIC + "first_generation.py", MIC + "second_generation.py", MIC + "vpin.py", "mizarlabs/transformers/features/rolling_z_score.py", "mizarlabs/transformers/features/custom.py", TECH + "moving_average.py", TECH + "macd.py", TECH + "mean_reversion.py", TECH + "rsi.py", TECH + "volume.py", L],
 [("trailing windows", "rolling, shift and ewm computations in the listed files"), ("forward fill of crossovers", TECH + "moving_average.py"), ("previous-day lookup", L + ": daily volatility")],
 ["transform / predict / predict_proba outputs on growing histories"]),
prop("C11", "Feeds are aligned to the leading feed without look-ahead or loss",
 "In a data set with several feeds, each bar of the leading feed sees, for every other feed, the aggregate (the configured mean, minimum or maximum; the row itself if there is one) of exactly that feed's rows stamped after the previous leading bar and up to and including this one (from the beginning, for the first bar), or, when there is none, the value of the previous leading bar; rows stamped after a leading bar never influence it and every row up to the last leading bar is used exactly once. This holds for every arrival pattern of the feeds: late, early, bursty, stalled, duplicated in time with the leading bars, or starting late. Re-aligning after more data arrives leaves the rows of leading bars whose feeds were complete unchanged, and the caller's frames are never modified.",
 ["histories", "fault_sequences", "inputs"],
 "Every pair or triple of feeds with unique increasing stamps, every aggregation, every delivery schedule and every moment at which the data set is built.",
 "The tests align two or three fixed feeds once; gaps, stalls, late starts and growing data sets are not covered.",
 [P], [("window between consecutive leading stamps", P + ": alignment loop"), ("forward fill", P + ": end of the alignment"), ("aggregation methods", P + ": mean, min, max")],
 ["create_dataset_primary / create_dataset_metalabeling / predict outputs"]),
prop("C12", "The trading signal is what the models and the sizing rule say, bar by bar",
 "For each bar with complete features the side is the primary model's prediction and the size follows the configured rule: the primary model's highest class probability, or the meta-model's probability of class 1 when there is a meta-model, or with a bet sizer the sizer applied to the highest probability and most probable class of the deciding model (and the primary side when meta-labeling); the meta-model sees the meta features followed by the primary prediction and the primary class probabilities, each only when enabled, of the same bar. Training data sets for the models contain exactly the labelled bars with complete features (meta-labels: whether the primary prediction was right). Signals of past bars do not change as bars arrive, and a call that fails (a model or transformer raises, a feed is missing) leaves no trace in later calls.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "Every combination of feeds, models, class sets, enabled meta-features and bet sizers; every bar history with gaps; every position of a model or transformer failure in a sequence of calls.",
 "The tests compare a few model combinations on one bar file with the same library calls; no failing call, no growing history.",
 [P, B], [("side from the primary model", P + ": predict"), ("size rule", P + ": side and size"), ("meta features", P + ": features for the meta-model"), ("training sets", P + ": data set creation")],
 ["predict, predict_proba, get_side_and_size, create_dataset_primary, create_dataset_metalabeling"]),
prop("C13", "A live strategy's positions and exits are right after any restart and history",
 "Each position table row carries the bar's side and size (empty where the strategy gives no signal), stop-loss and profit-taking equal to their factor times the bar's volatility (times one when not volatility-adjusted, none without a factor) and the configured expiration, for exactly the bars received; frames with duplicated times are rejected; the validity flag tells whether the last signal was within bounds (side within [-1,1], size within [0,1]). The exit decision is exactly the one of the configured closing model (none without one), and a decision outside all/long/short/none is an error. Calls never modify the caller's data, and a process saved and restored at any point, including saves from versions without the volatility-adjustment setting or the closing model, continues exactly like one that never stopped.",
 ["histories", "crash_points", "fault_sequences", "configurations"],
 "Every sequence of bar arrivals, signal, position and exit calls, failures and save/restore points; every strategy configuration.",
 "The tests build one table for one bar file; no sequence of calls, no restart, no closing model.",
 [P, L], [("strategy bars from volatility", P + ": strategy bar creation"), ("signal validation", P + ": validity flag"), ("compatibility with older saves", P + ": attribute checks"), ("closing model", P + ": closing decision")],
 ["create_position, create_signal, create_strategy_bars, determine_positions_to_close, strategy_valid"]),
prop("C14", "Transformers can be shared by concurrent callers and survive failing calls",
 "Any number of callers may use one transformer, labeler, weight calculator, statistic, signal or cross-validation object at the same time, each with its own data, in any interleaving: every call returns what a fresh object would return for that caller's data alone. A call that is interrupted or fails at any point (out of memory, interruption) has no effect on other or later calls. No call modifies the data it is given or the configuration of the object.",
 ["schedules", "fault_sequences", "histories"],
 "Every interleaving of the callers at statement granularity, every point of failure, every mix of objects, inputs and call orders.",
 "The tests use each object from one thread for one call.",
 ["mizarlabs/transformers", "mizarlabs/structural_breaks", P, CV],
 [("no call writes object state", "transform methods in mizarlabs/transformers and run methods in mizarlabs/structural_breaks"), ("work on copies or new objects", "transform methods")],
 ["results of concurrent transform/run/predict/split calls"]),
prop("C15", "CUSUM event sampling is an online filter",
 "An event is emitted at exactly the bars where the cumulated upward or downward move (each reset to zero whenever it would change sign, and after its own event) first exceeds the threshold, the downward side taking precedence. Running the filter on a growing history emits, after each bar, the same events for the past and at most one new event at the new bar, however the bars are batched or re-sent. Restarting the filter at a bar where both sums are zero gives the same later events as never stopping.",
 ["histories", "crash_points", "inputs"],
 "Every series with unique times and finite values, every threshold, every batching of the arrivals and every restart at a point of zero sums.",
 "The test compares one file with a fixed number of events.",
 ["mizarlabs/transformers/sampling/down_sampling.py"], [("two one-sided sums with reset", "mizarlabs/transformers/sampling/down_sampling.py: transform")],
 ["CUSUMFilter.transform result"]),
prop("C16", "Transformers made by one TA factory stay independent of each other",
 "Every transformer created by a TA factory returns, for each frame, the columns of the requested TA-lib function applied to the requested columns with the requested parameters (two-dimensional, one row per bar), whatever other transformers, valid or rejected, were created before or after it or at the same time by other threads. A request with missing or unknown columns, mappings or parameters is rejected when the transformer is created or used and has no effect on any other transformer. Neither the factory nor the caller's arguments nor the frames are modified.",
 ["histories", "schedules", "fault_sequences"],
 "Every sequence and interleaving of creations (valid and invalid), uses and failing uses over all functions of the library.",
 "The tests create each transformer once, in isolation, and look at the shape of its result.",
 [TECH + "factory.py"], [("per-transformer closure", TECH + "factory.py: create_transformer"), ("argument resolution on fresh lists", TECH + "factory.py: argument checks")],
 ["create_transformer result, transform outputs, raised errors"]),
prop("C17", "Weights of a live book of samples follow concurrency, returns and decay",
 "At any moment, for the samples a process holds, each with a start and a known end: the average uniqueness of a sample is the mean, over the time points (starts and ends of the samples) it spans, of one over the number of samples open there; its weight by returns is the magnitude of the sum, over the bars it spans, of the bar's log return since the previous bar divided by the number of samples open at it (the first bar has no return); its weight by time decay is the piecewise-linear decay over the cumulated uniqueness in time order, 1 for the newest, c for the oldest end of a non-negative decay c, and zero below the cut-off of a negative one. Values belong to the sample, not to the position of its row: they do not depend on the order in which samples were learned (uniqueness, decay). The uniqueness of a sample is final once every sample that starts up to its end is held. Samples without an end and (for uniqueness and decay) repeated samples are refused; the samples given are not modified, and calls that failed before have no effect.",
 ["histories", "fault_sequences", "inputs"],
 "Every set of samples with unique starts and ends at or after them, every order and lateness of the closes, every truncation of old samples, every failing call in between; decay -1 < c <= 1.",
 "The tests compute a few rows on one fixed set of samples that are all known and in time order.",
 ["mizarlabs/transformers/sample_weights/__init__.py", "mizarlabs/transformers/sampling/average_uniqueness.py", BOOT],
 [("indicator matrix over starts, ends and bars", BOOT + ": get_ind_matrix"), ("average uniqueness", BOOT + ": calc_average_uniqueness"), ("weights from concurrency", "mizarlabs/transformers/sample_weights/__init__.py")],
 ["transform results of AverageUniqueness, SampleWeightsByReturns, SampleWeightsByTimeDecay"]),
prop("C18", "Live features and signals are the online estimators they are named after",
 "On every bar received so far, each feature and rule-based signal has the value of its estimator fed with the same bars one at a time: Roll measure (2 sqrt|cov| of successive price changes) and impact, Parkinson's mean of ln(H/L)^2/(4 ln 2), Corwin-Schultz spread and Beckers-Parkinson volatility with negative estimates set to 0, Kyle, Amihud and Hasbrouck lambdas, VPIN (0 after the warm-up when nothing was traded in the window), rolling z-scores, moving-average crossovers (a crossing is the first bar strictly on the other side; kept until the next one when filled, 0 before the first), differences of exponential averages, MACD histogram crossings, mean-reversion and RSI rules, buy/sell imbalance, local maximum to close, and the exponentially weighted deviation of the returns since the last close more than a day earlier. The rule-based signals give probability one to the class they predict and zero to the others of their classes. There is no value before the window is full. This holds for any column names the feature is configured with, after any arrival pattern, restart with a truncated history, failing call and use for other instruments.",
 ["histories", "fault_sequences", "inputs"],
 "Every bar series with increasing times, positive prices and non-negative volumes, including flat prices, silent stretches and histories shorter than the window; every window and threshold; every arrival history, restart and interrupted call.",
 "The tests re-compute the same vectorised expression on one bar file, all of it at once.",
 [MIC + "first_generation.py", MIC + "second_generation.py", MIC + "vpin.py", TECH, "mizarlabs/transformers/features/rolling_z_score.py", "mizarlabs/transformers/features/custom.py", L],
 [("rolling estimators", MIC), ("crossings and rules", TECH), ("daily volatility", L + ": get_daily_vol")], ["transform / predict results"]),
prop("C19", "Random searches over log-uniform variables are lawful and reproducible",
 "Values drawn from a log-uniform variable on [a, b] with a given random source are log-uniform quantiles a*(b/a)^u of that source's uniform numbers, one per value, all within [a, b]; its distribution function is log(x/a)/log(b/a) inside the range, 0 below and 1 above. Only the given source is used (numpy's global generator is neither read nor advanced), so a seed gives the same values in any process, whatever other callers draw from the same variable in between or at the same time and after draws that failed.",
 ["schedules", "fault_sequences", "inputs"],
 "Every 0 < a < b, every sequence of uniform numbers including the ends of the unit interval, every interleaving of callers and failing sources.",
 "No test covers it.",
 [CV], [("distribution function", CV + ": LogUniformGen"), ("range of the variable", CV + ": log_uniform")], ["cdf, rvs, ParameterSampler results"]),
prop("C20", "Feature unions and pipelines are their parts side by side, however executed",
 "The output of a feature union has one row per input bar, with the index of the bars, and consists of the columns of its parts in the configured order (dropped parts left out, weighted parts times their weight), each computed as if the part were used alone after being trained on exactly the bars and targets given to the training (fit or fit_transform) of the union, also for unions and pipelines inside unions; every bar feature can be trained in a union. This holds for every number of jobs, partition, order and interleaving of the parts, thread- or process-based workers, several callers at the same time, and in another process. A pipeline hands the sample weights to its final model and to nothing else, matched row by row with the features and targets, and predicts from the features of the bars it is given. A failing part or model and a lost worker reach the caller, and the next successful training is as if it had been the first. Bars, targets and weights are not modified.",
 ["schedules", "fault_sequences", "histories"],
 "Every composition of features, weights and workers, every failing part, every history of trainings and transformations.",
 "The tests transform once with one pool and never train a union with targets, with failing parts or lost workers.",
 [P, MIC + "vpin.py", "mizarlabs/transformers/features/rolling_z_score.py", "mizarlabs/transformers/features/custom.py"], [("feature union", P + ": MizarFeatureUnion"), ("pipeline with weights", P + ": MizarPipeline.fit")], ["fit, transform, fit_transform, predict results"]),
prop("C21", "Searches over pipelines and ensembles are trainings done alone",
 "In a cross-validation, grid search or random search (scikit-learn's, with the purged cross-validator) over the ensemble, a pipeline of bar features with a model, or a pipeline with the ensemble, the score of every candidate on every split is the one of a model built from scratch with the candidate's parameters (windows, columns and other parameters of the features, parameters of the ensemble and of its members, values of log-uniform variables), trained alone on exactly that split's train rows, targets and weights; a random search with a seed tries the same candidates each time; out-of-sample predictions come from the model trained on their split; and the model kept at the end is the one trained alone on everything with the best parameters, also in another process. This holds for every number of jobs, kind of worker, order and interleaving of the trainings. A training that fails or a lost worker reaches the caller (or, with an error score, leaves out its own score only), and a repeated search is complete and unaffected. The model and cross-validator given to the search, the data and the weights are not modified.",
 ["schedules", "fault_sequences", "histories"],
 "Every pipeline, search space, split and weighting, every execution and failure of the trainings, every order of searches with the same objects.",
 "No test clones a feature, changes its parameters, or runs a search.",
 [P, BAG, CV, "mizarlabs/transformers/microstructural_features", "mizarlabs/transformers/technical", "mizarlabs/transformers/features"],
 [("parameters of the ensemble", BAG + ": SequentiallyBootstrappedBaggingClassifier.__init__"), ("parameters of features", "constructors of the bar features"),
  ("splits", CV + ": CombPurgedKFoldCV.split, get_n_splits"), ("pipeline with weights", P + ": MizarPipeline.fit")],
 ["cv_results_, best_estimator_, cross_val_score and cross_val_predict results"]),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
