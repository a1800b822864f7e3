#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one place so that ids, statements and anchors stay reviewable)."""
import json, os
P = []
CORE = "reductionml-core/src/"
CLI = "reductionml-cli/src/"

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Parallel-parse training equals sequential training",
 "Training a data file with any number of parse threads and any queue size yields, under every thread interleaving, exactly the predictions, metrics and saved model that training sequentially on the same file yields. Every example of the file is learned exactly once, in file order, and no thread reads memory another is writing.",
 ["schedules", "configurations"],
 "All interleavings of the input, parse and learner threads; all worker counts and queue sizes; all data files.",
 "The existing CLI test runs one tiny file under whatever schedule the OS picks; ordering, hand-off and recycling errors need a particular interleaving.",
 [CLI+"train.rs", CORE+"object_pool.rs", CORE+"parsers/vw_text_parser.rs"],
 [("ParseResult hand-off (atomic flag + futex wait/wake)", CLI+"train.rs: ParseResult"),
  ("two bounded channels filled in file order by one input thread", CLI+"train.rs: TrainCommand::execute")],
 ["predictions file", "metrics table", "saved model bytes"],
 [("ready/result/input", "per-example hand-off cell", CLI+"train.rs"), ("string_pool, features_pool", "recycled buffers shared by threads", CLI+"train.rs")])

prop("C02", "Training always terminates; a bad example fails the run",
 "Under every thread interleaving, worker count and queue size a training run ends: it never deadlocks, and no wake-up is lost. If some example of the file is malformed, lacks a label or cannot be read, at whatever position, the run ends with a failure and writes no output model, whether parsing is sequential or parallel; otherwise it succeeds.",
 ["schedules", "fault_sequences", "configurations"],
 "All interleavings; a malformed, unlabelled or unreadable example at every position; all worker counts and queue sizes; empty files.",
 "No existing test feeds bad data or more than a few examples to the threaded trainer, and a hang needs a specific combination of a failing thread and blocked peers.",
 [CLI+"train.rs", CLI+"main.rs"],
 [("channel disconnection on thread exit", CLI+"train.rs: TrainCommand::execute"),
  ("result propagation from parse worker to learner", CLI+"train.rs: ParseResult::set_result/await_result")],
 ["process exit", "existence of the output model"],
 [("parse/learn channels", "bounded queues between the three kinds of threads", CLI+"train.rs")])

prop("C03", "Object pool hands each object to one holder and loses none",
 "Under every interleaving of threads taking objects from and returning objects to a shared pool, an object is never held by two holders at once, no returned object is lost, a new object is made only when the pool is empty, and the reported size is the number of objects returned and not yet taken.",
 ["schedules", "histories"],
 "All interleavings of concurrent get/return/len sequences up to a depth, and all sequential histories.",
 "The unit test performs one get and one return on one thread.",
 [CORE+"object_pool.rs"],
 [("mutex-protected free list", CORE+"object_pool.rs: Pool")],
 ["return values of the pool operations"],
 [("objects", "free list", CORE+"object_pool.rs")])

prop("C04", "Recycled feature containers never influence a later parse",
 "Parsing a chunk yields the same features and label whatever was parsed, cleared and recycled through the same pool before, in whatever order containers were returned. No parse fails because a recycled container was used, and predictions, metrics and learning from the result equal those from a fresh container.",
 ["histories", "inputs"],
 "All sequences of parse/return operations up to a depth over chunks with different namespaces, sizes and value kinds, in all text formats.",
 "Parser tests always use a fresh pool; recycled state only shows after a particular pair of examples.",
 [CORE+"sparse_namespaced_features.rs", CORE+"object_pool.rs", CORE+"parsers/json_parser.rs", CORE+"parsers/dsjson_parser.rs", CORE+"parsers/vw_text_parser.rs", "reductionml-python/src/features.rs"],
 [("clear-and-deactivate on return", CORE+"sparse_namespaced_features.rs: SparseFeatures::clear"),
  ("reservation in a recycled namespace", CORE+"sparse_namespaced_features.rs: SparseFeaturesNamespace::reserve")],
 ["parsed features", "prediction after parse"],
 [("namespaces with active flag", "container contents kept for reuse", CORE+"sparse_namespaced_features.rs")])

prop("C05", "Feature container behaves as a map from namespace to feature list",
 "Any history of creating, filling, setting, removing, appending, un-appending and clearing namespaces leaves the container observably equal to an ordinary map from namespace to feature list on which the same history was performed. Every view of the container (lookup, iteration, full feature listing, emptiness, approximate equality) agrees with that map, and un-appending what was last appended restores the container (namespaces left without features count as absent). Whole examples, of one container or of a shared one with one per action, compare equal exactly when all their containers do, copies are equal to and independent of what they were copied from, and returning an example to a pool puts every one of its containers there.",
 ["histories"],
 "All operation sequences up to a depth over two or three namespaces, including the default one, and small feature lists, empty ones included.",
 "Unit tests cover three fixed sequences and not the combination with cleared, removed or re-set namespaces.",
 [CORE+"sparse_namespaced_features.rs"],
 [("active flag", CORE+"sparse_namespaced_features.rs: SparseFeatures"),
  ("append/remove by truncation", CORE+"sparse_namespaced_features.rs: SparseFeatures::append/remove")],
 ["get_namespace, namespaces(), all_features(), empty(), equality"])

prop("C06", "The same example in any text format parses to the same features",
 "Any example that can be written in more than one of the supported text formats (VW text, JSON, decision-service JSON) parses to the same namespaces, feature indices, values and label in each of them. Labels without an importance weight mean weight one in every format.",
 ["inputs"],
 "All examples up to a size over an alphabet of namespaces, named, string-valued, boolean and anonymous features, labels, hash seeds and index widths.",
 "Parser tests check each format separately on a few literals.",
 [CORE+"parsers/json_parser.rs", CORE+"parsers/dsjson_parser.rs", CORE+"parsers/vw_text_parser.rs", CORE+"hash.rs", CORE+"parsers.rs"],
 [("shared feature hashing", CORE+"parsers.rs: ParsedFeature::hash"), ("namespace naming", CORE+"sparse_namespaced_features.rs: Namespace::from_name")],
 ["parse_chunk result"])

prop("C07", "Splitting input into examples is independent of read boundaries",
 "The examples read from a file are the same however the underlying reads are cut into pieces, and whether or not the last line or group ends in a newline. In VW text, runs of blank lines, whitespace-only lines, leading blank lines and Windows line endings neither create, split, merge nor drop examples, and in every format a reused buffer never leaks text from one example into another.",
 ["inputs", "fault_sequences"],
 "All short texts over an alphabet of lines and separators, with every cut of the byte stream into reads.",
 "One unit test reads one fixed multi-line text from memory, where reads are never short.",
 [CORE+"parsers/vw_text_parser.rs", CORE+"parsers/json_parser.rs", CORE+"parsers/dsjson_parser.rs"],
 [("line and group readers", CORE+"parsers/vw_text_parser.rs: read_single_line/read_multi_lines"), ("buffer clearing", "get_next_chunk")],
 ["sequence of chunks returned"])

prop("C08", "Feature names hash to the index the parser uses, always in range",
 "For every feature a parser accepts, the index it produces lies below two to the configured number of bits and equals the index computed from the feature's namespace and name for inverse lookup; the same holds for interacted features and for the names extracted from a line. No name, offset, hash seed or index width makes hashing fail.",
 ["inputs", "configurations"],
 "All features over an alphabet including the default namespace, empty and non-ASCII names, hashes next to the 32-bit limit, every index width and several seeds; interactions of order two and three.",
 "The tests hash a handful of names with seed 0; wrap-around needs a hash close to the 32-bit limit.",
 [CORE+"inverse_hash_table.rs", CORE+"parsers.rs", CORE+"hash.rs", CORE+"types.rs", CORE+"parsers/vw_text_parser.rs", CLI+"create_inv_hash_table.rs", CORE+"weights.rs"],
 [("Feature::hash", CORE+"inverse_hash_table.rs"), ("ParsedFeature::hash", CORE+"parsers.rs"), ("FeatureMask", CORE+"types.rs")],
 ["parse_chunk indices", "Feature::hash", "extract_feature_names"])

prop("C09", "Prediction is pure, and features are left as they were",
 "Predicting never changes the model: repeating a prediction gives the identical result, and the saved model is unchanged by any number of predictions. Predicting and learning, through every stack of reductions, leave the caller's features as they found them, so that reusing the same example object equals using a fresh copy.",
 ["histories", "configurations"],
 "All predict/learn histories up to a depth over a set of examples with and without shared and empty namespaces, for every valid reduction stack up to a depth.",
 "Tests check one reduction at a time on one example; the built-in check exists only in debug builds.",
 [CORE+"reduction.rs", CORE+"reductions/cb_adf.rs", CORE+"reductions/elementwise_interaction.rs", CORE+"sparse_namespaced_features.rs", CORE+"workspace.rs"],
 [("append then remove shared features", CORE+"reductions/cb_adf.rs"), ("debug-only feature comparison", CORE+"reduction.rs: ReductionWrapper")],
 ["predictions", "serialised model", "features after the call"])

prop("C10", "Predict-then-learn equals predicting and then learning",
 "For every stack of reductions, every learning history and every example, the combined predict-then-learn operation returns what a prediction made just before would return and leaves the model exactly as learning alone would leave it. Reduction layers that only observe or translate change neither.",
 ["histories", "configurations"],
 "All histories up to a depth mixing the three operations over a set of examples, for every valid reduction stack up to a depth.",
 "No test compares the combined with the separate operations beyond a single reduction.",
 [CORE+"reduction.rs", CORE+"reductions/binary.rs", CORE+"reductions/debug.rs", CORE+"reductions/elementwise_interaction.rs", CORE+"workspace.rs"],
 [("default predict_then_learn", CORE+"reduction.rs: ReductionImpl"), ("specialised predict_then_learn", "binary, debug, elementwise reductions")],
 ["predictions", "serialised model"])

prop("C11", "Interactions visit every feature combination exactly once",
 "A model with configured pair and triple interactions sees, for each example, every single feature, each combination of features from the interacted namespaces exactly once (unordered where a namespace is listed again right after itself), with the product of the values as its value, and the constant feature exactly when enabled. Missing or empty namespaces contribute no combination.",
 ["inputs", "configurations"],
 "All small feature sets over up to three namespaces, all pair and triple interactions over them (repeats included), with and without the constant feature.",
 "Tests cover two literal examples and no triple with a repeated namespace.",
 [CORE+"weights.rs", CORE+"interactions.rs", CORE+"sparse_namespaced_features.rs"],
 [("foreach_feature expansion", CORE+"weights.rs"), ("compile_interactions", CORE+"interactions.rs")],
 ["visited (index, value) pairs", "predictions"])

prop("C12", "Coin regressor follows the coin-betting update for every history",
 "After any history of weighted examples, the Coin regressor's weights, normalisation and label range equal those of the published parameter-free coin-betting update for the configured loss, and its raw prediction is the dot product of those weights with the expanded example. The reported prediction is the raw one clamped to the label range and passed through the configured link function.",
 ["histories", "configurations"],
 "All example sequences up to a depth over an alphabet of feature values (zero, negative, large, tiny), labels and importance weights, for several hyper-parameter settings, losses and links.",
 "Tests pin a handful of numeric predictions after one or two updates with default settings.",
 [CORE+"reductions/coin.rs", CORE+"loss_function/squared_loss.rs", CORE+"loss_function/logistic_loss.rs", CORE+"dense_weights.rs"],
 [("coin betting predict/update", CORE+"reductions/coin.rs"), ("running label range", CORE+"reductions/coin.rs: learn")],
 ["predictions", "exported weights"])

prop("C13", "Contextual bandit learning reduces exactly to regression",
 "Scoring a contextual bandit example gives, for each action in order, the regressor's raw prediction for the action's features joined with the shared ones. Learning feeds the regressor exactly the examples the configured estimator prescribes: for inverse propensity scoring every action with cost over probability for the chosen one and zero for the others; for importance-weighted regression only the chosen action with its cost and the running event-to-action ratio over probability as weight. Both work with and without shared features and use the same joined features as scoring.",
 ["histories", "configurations"],
 "All histories up to a depth over examples with one to several actions, with, without and with overlapping shared features, both estimators, and interactions.",
 "Tests train one or two examples that always have disjoint shared features.",
 [CORE+"reductions/cb_adf.rs"],
 [("predict/learn with appended shared features", CORE+"reductions/cb_adf.rs"), ("MtrState", CORE+"reductions/cb_adf.rs")],
 ["action scores compared with a stand-alone regressor fed the reduced examples"],
 [("action_sum, event_sum", "running counts for the importance weight", CORE+"reductions/cb_adf.rs")])

prop("C14", "Greedy and softmax exploration give the prescribed distribution",
 "For every vector of action scores, epsilon-greedy and softmax exploration report each action exactly once, in order, with probabilities that are finite, non-negative, sum to one and equal the defining formula: epsilon spread evenly plus the rest on the lowest-cost action (first of ties), respectively exponential weights of the score gap with the configured minimum probability enforced. Learning is passed to the underlying bandit unchanged.",
 ["inputs", "configurations", "histories"],
 "All score vectors over a grid of values (ties, negatives, extremes) for one to several actions and all settings of epsilon and lambda on a grid.",
 "Tests use a single score vector and default settings.",
 [CORE+"reductions/cb_explore_adf_greedy.rs", CORE+"reductions/cb_explore_adf_softmax.rs", CORE+"explore.rs"],
 [("action_scores_to_probs", CORE+"reductions/cb_explore_adf_greedy.rs"), ("softmax predict", CORE+"reductions/cb_explore_adf_softmax.rs")],
 ["action probabilities"])

prop("C15", "Enforcing a minimum probability keeps a valid distribution",
 "Given any probability vector and any mixing level between zero and one, enforcing the minimum leaves a distribution that still sums to one, gives every supported action at least the minimum, keeps actions in place and in probability order, lowers no action that was below the minimum, and touches zero-probability actions only when asked to. With level zero nothing changes; invalid levels and empty vectors are rejected.",
 ["inputs"],
 "All probability vectors on a grid for one to six actions, all orders, all levels on a grid, both treatments of zeros.",
 "Tests check five literal vectors.",
 [CORE+"explore.rs"],
 [("projection onto the clipped simplex", CORE+"explore.rs: enforce_min_prob")],
 ["output vector"])

prop("C16", "Binary reduction maps labels to plus/minus one and sign to class",
 "A binary model trained on any sequence of boolean labels behaves exactly as its regressor trained on plus one for true and minus one for false, and predicts true exactly when the regressor's prediction is positive. This holds through any intermediate layers of the stack.",
 ["histories", "configurations"],
 "All label/feature histories up to a depth, with several regressor configurations below the reduction.",
 "One test trains one example.",
 [CORE+"reductions/binary.rs"],
 [("label translation and thresholding", CORE+"reductions/binary.rs")],
 ["binary predictions", "comparison with stand-alone regressor"])

prop("C17", "Elementwise interaction multiplies aligned anonymous features",
 "For two namespaces of anonymous features, the elementwise interaction presents to the regressor one extra namespace with exactly one feature per position present in both, whose value is the product, identically when predicting and when learning, and it presents the two original namespaces only if configured to keep them. It works for every pair of namespace hashes, index width, length and gap pattern, including a namespace paired with itself, and the caller's features are restored.",
 ["inputs", "configurations"],
 "All pairs of sparse position sets up to a length, several value patterns, all index widths, namespace hashes next to the wrap-around limit, both settings of keeping originals.",
 "Tests use one pair of dense namespaces.",
 [CORE+"reductions/elementwise_interaction.rs"],
 [("elementwise_multiply merge", CORE+"reductions/elementwise_interaction.rs")],
 ["predictions compared with a regressor fed the product features", "features after the call"])

prop("C18", "Saving and loading a model at any point is unobservable",
 "At every point of every training history, a workspace saved to its binary form and loaded again has the same configuration and makes bit-identical predictions, and continuing the same history on the loaded workspace keeps it identical to one that was never saved. Saving is deterministic: equal states give equal bytes, and saving, loading and saving again reproduces them.",
 ["crash_points", "histories", "configurations"],
 "All training histories up to a depth, with a save/load inserted at every subset of points, for every valid reduction stack up to a depth.",
 "Tests round-trip a freshly trained model once for a few reductions and compare one prediction.",
 [CORE+"workspace.rs", CORE+"dense_weights.rs", CORE+"reductions/coin.rs", CORE+"reductions/cb_adf.rs", CORE+"reductions/cb_explore_adf_squarecb.rs", CORE+"reduction.rs"],
 [("flexbuffers serialisation", CORE+"workspace.rs: serialize_model/create_from_model"), ("sparse weight encoding", CORE+"dense_weights.rs")],
 ["model bytes", "predictions"])

prop("C19", "A truncated or corrupted model file is rejected, not misread",
 "Loading any proper prefix of a saved model, or bytes that are not a model, reports an error: it neither aborts the process nor yields a usable workspace. The command line tool given such a model fails cleanly and leaves existing outputs untouched.",
 ["crash_points", "fault_sequences"],
 "Every truncation point of saved models of several stacks, plus structural corruption at every byte.",
 "No test loads a damaged model.",
 [CORE+"workspace.rs", CORE+"dense_weights.rs", CLI+"train.rs", CLI+"export_model.rs", CLI+"import_model.rs"],
 [("create_from_model error handling", CORE+"workspace.rs")],
 ["Result of loading"])

prop("C20", "Configurations are accepted exactly when the stack is well-typed",
 "For every tree of reduction configurations, creating a workspace succeeds exactly when each layer's label, feature and prediction types match those of the layer below and all options are valid, and otherwise reports an error; it never aborts. An accepted workspace can learn and predict any example (with at least one action, for bandits) of the type it declares. Omitted options equal their documented defaults, and the same configuration in YAML and JSON behaves identically.",
 ["configurations", "inputs"],
 "All reduction trees up to a depth, with all single-option variations, unknown fields and types, bad interactions and index widths.",
 "Tests build a handful of valid configurations.",
 [CORE+"workspace.rs", CORE+"reduction_factory.rs", CORE+"reduction.rs", CORE+"reduction_registry.rs", CORE+"config_schema.rs", CORE+"interactions.rs", CLI+"config.rs", CLI+"gen_schema.rs"],
 [("check_and_get_reason", CORE+"reduction.rs"), ("parse_config/create_reduction", CORE+"reduction_factory.rs"), ("deny_unknown_fields", "all config structs")],
 ["Result of Workspace::new", "predictions of accepted workspaces"])

prop("C21", "Reporting options never change what a training run learns",
 "The model a training run saves does not depend on whether output is quiet, predictions are written, which metrics are shown, how often progress is reported, or how training is threaded; with predictions requested, the file holds one line per example in order, each the prediction made just before learning that example. Training a file in two runs, through a saved model, equals training it in one.",
 ["configurations", "histories", "crash_points"],
 "All combinations of the reporting options over several files, formats and stacks, with the file split at every point across runs.",
 "The CLI tests run two or three fixed option sets and check only that files exist.",
 [CLI+"train.rs", CLI+"main.rs", CORE+"workspace.rs"],
 [("process_example branches", CLI+"train.rs"), ("progress scheduling", CLI+"train.rs: TrainResultManager")],
 ["model bytes", "predictions file"])

prop("C22", "Weight storage keeps every parameter slot separate",
 "In a weight table of any size, writing one state value of one feature of one interleaved model changes that value and no other, every in-range slot is addressable, the weight is the first state value, and both serial forms restore the table exactly. ",
 ["inputs", "configurations", "histories"],
 "All small combinations of feature, model and state counts (powers of two or not), all slots, all pairs of writes.",
 "Tests touch two or three slots of one size.",
 [CORE+"dense_weights.rs", CORE+"weights.rs"],
 [("shifted index arithmetic", CORE+"dense_weights.rs: convert_index"), ("sparse and nested serial forms", CORE+"dense_weights.rs")],
 ["weight_at/state_at", "serialised forms"])

prop("C23", "Loss derivatives agree with the losses they belong to",
 "For each loss function, over all predictions, labels and label ranges, the first and second derivative are the derivatives of the reported loss wherever it is smooth, the squared gradient is the square of the gradient of the unclipped loss, the loss is never negative, and the closed-form updates move the prediction toward the label, agreeing with the gradient step for small steps.",
 ["inputs"],
 "All points of a grid of predictions, labels, label ranges and step sizes.",
 "Tests check one or two literals per function.",
 [CORE+"loss_function/squared_loss.rs", CORE+"loss_function/logistic_loss.rs", CORE+"loss_function.rs"],
 [("LossFunctionImpl", CORE+"loss_function.rs")],
 ["values of the loss interface"])

prop("C24", "Python bindings behave exactly like the core library",
 "Every sequence of parse, predict, learn, save and load operations made through the Python bindings yields the same features, labels, predictions, model bytes and errors as the core library, whatever objects were created and garbage-collected before. Wrapped feature containers stay independent of each other.",
 ["histories", "inputs"],
 "All operation sequences up to a depth over a small set of examples, formats and configurations, with object destruction interleaved.",
 "The Python tests run a few fixed calls.",
 ["reductionml-python/src/features.rs", "reductionml-python/src/workspace.rs", "reductionml-python/src/parsers.rs", "reductionml-python/src/labels.rs", "reductionml-python/src/predictions.rs"],
 [("pyclass wrappers with pooled features", "reductionml-python/src/features.rs")],
 ["Python return values"])

prop("C25", "Exporting a model to JSON and importing it back is lossless",
 "At every point of every training history, exporting a workspace to its human-readable JSON form and importing it yields a workspace with the same configuration, bit-identical predictions and an identical saved model, and continuing to train it stays identical. A model holding infinite or undefined numbers, which JSON cannot express, may be refused with an error instead, but never aborts. The command line export and import do the same for model files.",
 ["histories", "configurations", "crash_points"],
 "All training histories up to a depth for every valid reduction stack up to a depth, with the JSON round trip at every point, through text.",
 "One test round-trips one model.",
 [CORE+"workspace.rs", CORE+"dense_weights.rs", CLI+"export_model.rs", CLI+"import_model.rs"],
 [("rewriting between nested and sparse weights", CORE+"workspace.rs"), ("DenseWeightsWithNDArray", CORE+"dense_weights.rs")],
 ["JSON text", "predictions", "model bytes"])

prop("C26", "Reported metrics equal their definitions over the examples seen",
 "After any sequence of examples, each metric reports its definition over exactly those examples: mean squared error between labels and predictions, inverse-propensity estimate of reward, zero-based number of the last example, and number of features parsed. Metric values do not depend on which other metrics are present.",
 ["histories", "inputs"],
 "All example sequences up to a depth over labels, predictions and feature shapes, owned or borrowed.",
 "Metrics have no unit tests.",
 [CORE+"metrics/mean_squared_error.rs", CORE+"metrics/ips.rs", CORE+"metrics/example_number.rs", CORE+"metrics/parsed_features.rs", CORE+"metrics/metric_registry.rs", CLI+"train.rs"],
 [("add_point/get_value", CORE+"metrics/metric.rs")],
 ["metric values"])

prop("C27", "Square-CB exploration follows its schedule through training",
 "For every training history and score vector, Square-CB exploration gives each non-best action probability one over the action count plus gamma times its score gap, the rest to the lowest-cost action, with gamma the configured scale times the number of learned examples to the configured exponent and the configured minimum enforced. Learning ignores the logged probability, is otherwise passed on unchanged, and counts each learned example once; the result is always a valid distribution.",
 ["histories", "inputs", "configurations"],
 "All learn/predict histories up to a depth, all score vectors on a grid, and all settings of scale, exponent and mixing on a grid.",
 "Tests check a single prediction of an untrained model.",
 [CORE+"reductions/cb_explore_adf_squarecb.rs", CORE+"explore.rs"],
 [("gamma schedule and inverse-gap weighting", CORE+"reductions/cb_explore_adf_squarecb.rs")],
 ["action probabilities"],
 [("counter", "number of learned examples", CORE+"reductions/cb_explore_adf_squarecb.rs")])

prop("C28", "Each text format is parsed as its grammar says",
 "Every well-formed line or record of each text format yields exactly the label, importance weight, shared part, actions, namespaces, features and values its grammar assigns: namespace scaling, default values, anonymous numbering per namespace, chained string values, tags, nested decision-service objects with ignored keys, and false booleans or nulls in lists, which add nothing. A record with two labelled actions or an incomplete label is refused.",
 ["inputs"],
 "All records up to a size built from an alphabet of grammar productions for the three formats, namespaces without features included.",
 "Parser tests check around twenty literals.",
 [CORE+"parsers/json_parser.rs", CORE+"parsers/dsjson_parser.rs", CORE+"parsers/vw_text_parser.rs"],
 [("parse_chunk of the three parsers", CORE+"parsers")],
 ["parse_chunk result compared with an independent reference parser"])

prop("C29", "The published JSON schema describes exactly what the loader accepts",
 "The configuration schema the program generates lists exactly the reductions the loader knows, each with exactly the options the loader knows. Every configuration written with documented options that the loader accepts validates against the schema; a configuration that names an unknown reduction or option, misspells one, or gives one a value of the wrong JSON type is refused by both, wherever in the stack it stands. Every default the schema states is the one a newly generated configuration shows and the one used when the option is left out.",
 ["inputs", "configurations"],
 "All option values, right and wrong, of all reductions, alone, in pairs, and in every place of a stack; all subsets of options left out.",
 "One test compares a schema file; whether schema, loader and defaults agree for each option in each place is not tested.",
 [CORE+"global_config.rs", CORE+"reduction_factory.rs", CORE+"reduction_registry.rs", CORE+"config_schema.rs", CLI+"gen_schema.rs", CLI+"config.rs"],
 [("schema generation", CLI+"gen_schema.rs"), ("reduction registry and typename parsing", CORE+"reduction_registry.rs")],
 ["gen-schema output", "config check exit status", "config new output", "predictions"])

prop("C30", "Workspaces in one process are independent of each other",
 "What a workspace, its parsers and its saved models do depends only on the operations made on them: other workspaces with other configurations, seeds and index widths, created, trained, saved or dropped in the same process in any order, or concurrently in other threads and through the same object pool, never change its predictions, its model bytes or the features its parsers yield.",
 ["histories", "schedules", "configurations"],
 "All merges of two workspaces' operation sequences up to a depth, for all pairs of a set of configurations; all interleavings of two or three threads that each create, train and save a workspace.",
 "Tests use one workspace each and run in one process whose order is fixed; a leak through a static, a cache or a pooled object needs a second, differently configured user.",
 [CORE+"workspace.rs", CORE+"reduction_registry.rs", CORE+"object_pool.rs", CORE+"sparse_namespaced_features.rs", CORE+"parsers", CORE+"hash.rs"],
 [("reduction registry shared by all workspaces", CORE+"reduction_registry.rs"), ("object pool shared by parsers", CORE+"object_pool.rs")],
 ["predictions", "model bytes", "parsed labels and feature counts"],
 [("REDUCTION_REGISTRY", "process-wide registry behind a lock", CORE+"reduction_registry.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
print(len(P))
