"""The checks: which engines decide each property, at what level, and what the evidence counts mean."""
MC = [dict(engine="mc-checked"), dict(engine="mc-plain")]
BOTH = "Run twice on the real library, built with and without debug assertions and overflow checks."

CHECKS = {}


def check(pid, level, technique, rule, note, assumptions, engines=None):
    CHECKS[pid] = dict(level=level, technique=technique, rule=rule, note=note, assumptions=assumptions,
                       engines=engines or MC)


BOUND = "Nothing is claimed outside the stated alphabets and bounds (coverage.bounds)."

check("C04", "model_checking", "exhaustive history enumeration on the real parsers against a fresh-container oracle",
      "a history of parse/return operations; distinct by chunk sequence and parsed result",
      "Every parse/return history up to the depth over the chunk alphabet; each parse compared with one that uses a fresh pool. " + BOTH,
      [BOUND])
check("C05", "model_checking", "breadth-first search over container operation sequences against a map model",
      "one operation applied to one reachable container state and compared with the map model in every view",
      "All reachable states up to the depth; states merged only when the complete internal content (observed order included) is equal. " + BOTH,
      [BOUND])
check("C06", "exploration", "exhaustive enumeration of examples rendered in every format",
      "an example rendered in two or three formats, parsed by the real parsers and compared; distinct by example",
      "Every example up to the size bound over the alphabet. " + BOTH, [BOUND])
check("C07", "fault_enumeration", "exhaustive enumeration of texts and short-read patterns against a line-splitting model",
      "a text and a way of cutting it into reads; distinct by text and cuts",
      "Every text up to the bound with every cut position set up to the bound (short reads are the injected fault). " + BOTH, [BOUND])
check("C08", "exploration", "exhaustive enumeration of feature names, seeds and widths against an independent hash composition",
      "a feature with a seed and an index width; distinct by (feature, seed, width)",
      "xxh3 itself is trusted (same crate), its composition is re-derived. " + BOTH, [BOUND, "The xxh3 implementation is right."])
check("C15", "exploration", "exhaustive enumeration of probability grids against defining conditions",
      "a probability vector, level and zero treatment; distinct by input",
      "Every vector on the grid up to the length bound. " + BOTH, [BOUND])
check("C22", "model_checking", "exhaustive enumeration of table shapes and write pairs against a flat-map model",
      "a write to one slot followed by reads of all slots", "Every shape and slot up to the bound. " + BOTH, [BOUND])
check("C23", "exploration", "exhaustive enumeration of loss grids against numeric derivatives",
      "a (loss, prediction, label, range) point; distinct by point",
      "Derivatives are compared with central differences in f64, so errors below the tolerance are not seen. " + BOTH, [BOUND])
check("C26", "model_checking", "exhaustive enumeration of example histories against metric definitions",
      "a metric history; distinct by history",
      "Every history up to the depth over the alphabet of labels, predictions and feature shapes. " + BOTH, [BOUND])
check("C28", "exploration", "exhaustive enumeration of grammar derivations against an independent reference parser",
      "a record derived from the grammar alphabet, parsed and compared; distinct by text",
      "Every derivation up to the bounds. " + BOTH, [BOUND])
check("C09", "model_checking", "exhaustive enumeration of operation histories on every stack, comparing model bytes and features around each call",
      "a stack, a history of learned examples and a probed example; distinct by stack and probed prediction",
      "Every stack of the enumerator x every history up to the depth; the model is compared through its saved bytes. " + BOTH, [BOUND])
check("C10", "model_checking", "exhaustive enumeration of operation histories run in lockstep on twin workspaces",
      "a stack, a learning history and an example on which the combined and the separate operations are compared; distinct by resulting model",
      "Every stack x every history up to the depth; models compared through their saved bytes. " + BOTH, [BOUND])
check("C11", "exploration", "exhaustive enumeration of interaction lists and examples against the combinatorial definition",
      "an interaction list with an example; distinct by the visited feature multiset",
      "Every interaction and namespace shape up to the bounds; visits observed at the iterator and through a model with known weights. " + BOTH, [BOUND])
check("C12", "model_checking", "exhaustive enumeration of learning histories in lockstep with a reference model of the update",
      "one transition (learned example) of the regressor, its whole exported state compared with the reference model; distinct by state",
      "Every history up to the depth over the example alphabet and options. The reference model is written from the published update, and validated "
      "by running every history on the implementation. " + BOTH,
      [BOUND, "Agreement is up to float rounding (relative 1e-4)."])
check("C13", "model_checking", "exhaustive enumeration of learning histories in lockstep with a separately driven regressor",
      "a bandit learning history, the exported regressor compared with one fed the prescribed examples; distinct by state",
      "Every history up to the depth over the bandit alphabet, both estimators. " + BOTH, [BOUND])
check("C14", "exploration", "exhaustive enumeration of score vectors and options, injected through the saved model, against the defining formula",
      "a score vector with options; distinct by input; plus training histories",
      "Every score vector on the grid up to the length bound. " + BOTH, [BOUND])
check("C16", "model_checking", "exhaustive enumeration of label histories in lockstep with the bare regressor",
      "a label history on a stack; distinct by state", "Every history up to the depth. " + BOTH, [BOUND])
check("C17", "model_checking", "exhaustive enumeration of namespace pairs and gap patterns in lockstep with a regressor fed the products",
      "a pair of namespaces with positions, seed and width; distinct by the prediction and positions",
      "Every gap pattern up to the bound. Where two features share an index only absence of failure and restoration are checked, because the "
      "result then depends on namespace order. " + BOTH, [BOUND])
check("C18", "model_checking", "save/load at every point of every enumerated history, twins compared bit by bit",
      "a stack, a history and a point at which it is saved and loaded; distinct by saved bytes",
      "Every stack x history x save point up to the depth. " + BOTH, [BOUND])
check("C25", "model_checking", "JSON export/import at every point of every enumerated history, twins compared bit by bit",
      "a stack, a history and a point at which it is exported and imported; distinct by saved bytes",
      "Every stack x history x export point up to the depth. " + BOTH, [BOUND])
check("C27", "model_checking", "exhaustive enumeration of score vectors and training histories against the defining schedule",
      "a score vector, learned-example count and options, or a training history; distinct by input",
      "Every score vector on the grid, every history up to the depth. " + BOTH, [BOUND])
check("C19", "fault_enumeration", "exhaustive enumeration of truncations and single-byte damage of saved models, run against the loader",
      "a damaged model file handed to the loader; distinct by its bytes",
      "Every proper prefix of every enumerated model must be refused; every single-byte damage of a subset must be an error or a workspace, "
      "never an abort (the format has no checksum, so damage that leaves a well-formed model is not detectable). " + BOTH,
      [BOUND])
check("C20", "exploration", "exhaustive enumeration of configuration trees and options against an independent type checker",
      "a configuration, created and, if accepted, run over the example alphabet; distinct by configuration",
      "Every chain of layers up to the depth, every option value and pair of the table. " + BOTH,
      [BOUND, "Option values without a documented range (negative lambda, zero alpha, interval of gamma) are not claimed either way."])

CLI = [dict(engine="cli", script="tools/cli.py", needs=["reml", "mc-checked"])]
PY = [dict(engine="python", script="tools/py24.py", needs=["python", "reml", "mc-checked"], python="/opt/vp/pyenv/bin/python")]
SCHED = [dict(engine="sched")]
SHIMS = ["Channels, locks and futex waits behave as flume, parking_lot and atomic-wait document (they are replaced by scheduler-aware ones).",
         "Memory is sequentially consistent; accesses that the code's own orderings do not synchronise are reported as races."]
check("C01", "model_checking", "stateless model checking of the real trainer under a controlled scheduler (dynamic partial-order reduction) against its sequential run",
      "a complete schedule of one training run, its saved model, predictions, printed metrics and unsynchronised accesses judged; distinct by sequence of visible operations",
      "Every schedule of every listed (file, worker count, queue size, options) up to reordering of independent operations and renaming of "
      "interchangeable workers; `std`, flume, parking_lot and atomic-wait are replaced at link level, the sources are /repo's own.",
      [BOUND] + SHIMS, SCHED)
check("C02", "model_checking", "stateless model checking of the real trainer with a bad example at every position under a controlled scheduler",
      "a complete schedule of one training run, its termination, exit status and output files judged; distinct by sequence of visible operations",
      "Every schedule of every listed (file, bad example and position, worker count, queue size); a blocked state or a run beyond the step limit is a violation.",
      [BOUND] + SHIMS, SCHED)
check("C03", "model_checking", "stateless model checking of every small concurrent program over the real pool, plus all sequential histories, against a linearizability oracle",
      "a complete schedule of one program of pool operations, its results explained by some sequential order; distinct by program",
      "Every program up to the shapes listed, every schedule of it; sequential histories run on the unmodified library in both profiles.",
      [BOUND] + SHIMS, MC + SCHED)

check("C21", "model_checking", "exhaustive enumeration of option combinations, files and ways of splitting them over runs of the real program, against the core library",
      "one run (or chain of runs) of the reml program, its model, predictions and printed tables compared with learning example by example; distinct by arguments and file",
      "Every combination of the listed option values and every file up to the length; what must come out is computed by the core library with separate calls for predicting and learning.",
      [BOUND, "Threaded runs here use the operating system's schedule; all schedules are C01's subject."], CLI)
check("C24", "model_checking", "exhaustive enumeration of operation sequences on the Python package in lockstep with the core library",
      "a sequence of operations made through Python and directly, all results compared; distinct by sequence",
      "Every sequence up to the depth; the core library's features never come from a recycled container, Python's do.",
      [BOUND, "Python calls are compared under the interpreter lock, one at a time, which is how the bindings run them.",
       "Python values of another type than a configuration option (1 for true) are converted by the bridge and not compared."], PY)
SCHEMA = [dict(engine="schema", script="tools/schema.py", needs=["reml"], python="/opt/veriftools/pyvenv/bin/python")]
ISO = [dict(engine="isolate", script="tools/isolate.py", needs=["mc-checked"])]
check("C29", "exploration", "exhaustive enumeration of configuration documents, each given to the real loader and validated against the generated schema",
      "a configuration document judged by the loader and by the schema, or a subset of options spelled out with the schema's defaults; distinct by document and verdicts",
      "Every listed value of every option of every reduction in every place up to two layers down; loader and schema are the real program's.",
      [BOUND, "jsonschema implements JSON Schema draft 7 correctly."], SCHEMA)
check("C30", "model_checking", "exhaustive enumeration of merged operation sequences of two workspaces, each in a process of its own, and stateless model checking of threads that each use a workspace",
      "a merged order of two workspaces' operations, or a complete schedule of two or three threads, compared with each workspace alone; distinct by order and configurations",
      "Every merge of the listed programs for every listed pair of configurations; every schedule of the threaded programs up to reordering of independent operations.",
      [BOUND] + SHIMS, ISO + SCHED)
for _p in ("C02", "C19", "C20", "C25", "C26"):
    CHECKS[_p]["engines"] = CHECKS[_p]["engines"] + CLI
    CHECKS[_p]["note"] += " The command line part runs the real reml program on every enumerated file."
