# Table of properties: see gen.py.
CLAIMED = []
NOT_APPLICABLE = []


def claim(**k):
    CLAIMED.append(k)


def na(**k):
    NOT_APPLICABLE.append(k)


claim(id="C01", title="Every traversal of a data set covers every row",
  statement="Code that walks a data set row by row, through a row callback or a loop over the row numbers, processes every row from the first to the last exactly once unless it reports an error. A traversal never ends early with a success result.",
  over=["inputs"], quant="all data sets of any size and content, and all library routines that walk one",
  why="The tests run a few routines on a few small files; a skipped last row or a traversal that stops at the first row of a rare kind leaves their expected counts unchanged.",
  files=["base/util_instances.go", "base/dense.go", "knn/knn.go", "naive/bernoulli_nb.go", "filters/disc.go", "evaluation/confusion.go"],
  mech=[("row callbacks return (true, nil) to continue", "functions of type func([][]byte, int) (bool, error) passed to MapOverRows"), ("row-count loops", "for i := 0; i < rows; i++ over the second result of Size()")],
  tech="SSA dataflow: return-value analysis of row callbacks, induction-variable bounds of row loops",
  note="Sound for the recognised traversal forms (row callbacks and counting loops bounded by the row count); says nothing about what is done with a row.")
claim(id="C02", title="All data-set kinds give row traversals and lookups with one meaning",
  statement="Whatever kind of data set it is (dense, view, lazily filtered, matrix), a row traversal hands the callback each row's number with the very bytes that a direct lookup of that row and attribute returns, in the order of the requested attributes. It stops when the callback says so or fails, and returns the callback's error.",
  over=["inputs", "programs"], quant="all data sets of every kind, row mappings, filters and callbacks",
  why="Tests compare a handful of cells on dense instances; views with reordered rows, filtered and matrix-backed sets are traversed with trivial callbacks only.",
  files=["base/dense.go", "base/view.go", "base/filtered.go", "base/mat.go", "base/fixed.go"],
  mech=[("MapOverRows of each grid type", "base/dense.go, base/view.go, base/filtered.go, base/mat.go"), ("Get of each grid type and view.resolveRow", "base/view.go"), ("filter Transform application", "base/filtered.go")],
  tech="SSA provenance analysis cross-checking each implementation of the grid interface",
  note="Decides row number, range, slot order, mapping and verdict/error propagation per implementation; assumes the underlying storage returns what was stored.")
claim(id="C14", title="Written files and archives are complete when success is reported",
  statement="When a function that writes a file, archive or stream reports success, everything it wrote has been flushed, every writing layer has been closed in the right order, and a failure of flushing or closing is reported instead. Opening a file for writing creates it if missing and discards previous content; saving a model into a caller's archive leaves that archive open.",
  over=["fault_sequences", "inputs", "histories"], quant="all models and data sets, all points at which flushing or closing can fail, all later writes to a shared archive",
  why="Tests read back small files on a healthy disk, where lost trailing blocks, ignored close errors and stale tails of longer files do not show.",
  files=["base/serialize.go", "base/serialize_instances.go", "base/arff.go", "knn/knn.go", "trees/id3.go", "meta/one_v_all.go", "linear_models/linearsvc.go"],
  mech=[("ClassifierSerializer.Close", "base/serialize.go"), ("Save methods", "knn, trees, naive, linear_models, meta, ensemble"), ("gzip/tar/csv writers", "base/serialize_instances.go")],
  tech="typestate path analysis over SSA (finalised-before-success), layer-order and open-flag rules",
  note="Every creation site of a writer in the library is followed along all paths; trusts that Close of the standard library's writers reports failures.")
claim(id="C15", title="No I/O error is dropped",
  statement="An error from opening, reading, seeking, parsing input, writing or flushing is always reported to the caller of the library: no routine goes on to report success after one of its I/O operations failed. Reading a text file to its end distinguishes the end of the input from a failed read.",
  over=["fault_sequences", "inputs"], quant="all failures of any I/O operation at any point",
  why="Tests do not inject read or write failures; the operations succeed in every test run.",
  files=["base/csv.go", "base/arff.go", "base/serialize.go", "base/serialize_instances.go", "base/filewrapper.go", "linear_models/linearsvc.go"],
  mech=[("error results of I/O calls", "every call site of os, io, bufio, tar, gzip, csv, fmt.Fprint* and of library routines that do I/O"), ("scanner.Err", "base/csv.go, base/arff.go")],
  tech="interprocedural error-flow analysis over SSA with path exploration",
  note="Each fallible call site is one obligation; errors of closing read-only files and of removing scratch files are exempt.")
claim(id="C16", title="Every opened file or archive is closed on all paths",
  statement="A file or model archive that a library routine opens is closed by the time the routine returns, whether it succeeds or fails, unless it is handed to the caller as the result. Closing a model reader or writer closes its file, even when finishing the output fails.",
  over=["fault_sequences", "inputs", "histories"], quant="all control paths, in particular the error exits after a successful open",
  why="A leaked handle is invisible to a test that runs once and succeeds; only the failing exits leak, and the tests never take them.",
  files=["base/filewrapper.go", "base/arff.go", "base/serialize.go", "base/serialize_instances.go", "knn/knn.go", "trees/id3.go", "trees/random.go", "naive/bernoulli_nb.go", "linear_models/linearsvc.go"],
  mech=[("deferred Close", "base/filewrapper.go, base/arff.go"), ("serializer/deserializer stubs", "base/serialize.go"), ("Load and Save methods", "knn, trees, naive, linear_models, meta, ensemble")],
  tech="resource typestate (open/close pairing) along all SSA paths",
  note="Covers os.File and library archive objects at every opening call site; process-lifetime log destinations are exempt.")
claim(id="C22", title="A failing step is never reported as success",
  statement="When an operation the library performs on the way (fitting or predicting with an inner model, traversing a data set, resolving attributes, computing a distance or a loss) fails, the routine that performed it reports an error instead of returning a result as if it had succeeded.",
  over=["inputs", "fault_sequences"], quant="all inputs on which any step fails, at every call site in the library",
  why="Tests exercise successful runs; the failing branch of almost every call is never taken.",
  files=["knn/knn.go", "meta/bagging.go", "meta/one_v_all.go", "trees/cart_utils.go", "trees/id3.go", "neural/layered.go", "base/mat.go", "ensemble/randomforest.go"],
  mech=[("error results", "every call of a library routine that can fail"), ("MapOverRows results", "all traversals"), ("panic on failed attribute resolution", "base/attributes.go")],
  tech="interprocedural error-flow analysis over SSA with path exploration",
  note="Each call whose callee can return a non-nil error is one obligation; turning the error into a panic counts as reporting it. Errors for duplicate class-attribute registration that the callers exclude beforehand are exempt.")
claim(id="C03", title="Class attributes survive every derivation of a data set",
  statement="A view, copy, lazily filtered set, prediction vector or templated CSV load made from a data set has all of that data set's class attributes that it still contains. Adding a class attribute records it whenever success is reported, removing one takes it out, and listing them gives exactly those added and not removed.",
  over=["inputs", "programs"], quant="all data sets, any number of class attributes, all chains of derivations",
  why="Tests use one class attribute and mostly look it up on the set it was defined on; a derivation that loses the second, or all of them under some condition, is not observed.",
  files=["base/view.go", "base/filtered.go", "base/dense.go", "base/util_instances.go", "base/csv.go", "base/mat.go"],
  mech=[("addClassAttrsFromSrc", "base/view.go"), ("copyFixedDataGridStructure", "base/dense.go"), ("AddClassAttribute/RemoveClassAttribute/AllClassAttributes of each grid type", "base")],
  tech="must-pass path analysis plus value provenance over SSA",
  note="Decides that the transfer loop runs over the whole list on every path and what each register call records; attribute matching itself is by the library's Equals.")
claim(id="C04", title="The structure of a dense data set is only touched under its lock",
  statement="Every read or write of a dense data set's structure (attribute groups, attribute lists, class attributes, layout state) by its methods or package helpers happens while its lock is held. Every acquisition is released on every exit, and no routine acquires the lock again while holding it.",
  over=["schedules", "programs"], quant="all interleavings of structural operations on one data set and all exits, panics included",
  why="The tests are single-threaded; a missing lock, a leaked lock or a self-deadlock on a rare path does not show.",
  files=["base/dense.go", "base/util_instances.go"],
  mech=[("inst.lock", "every method of DenseInstances that touches its maps, lists and flags")],
  tech="lock-set dataflow over SSA with interprocedural held-by-all-callers argument",
  note="Cell reads and writes (Get, Set, row traversal) are deliberately lock-free and are not part of the property.")
claim(id="C05", title="The layout of a dense data set is frozen once rows are allocated",
  statement="After row storage has been allocated, attributes and attribute groups can no longer be added: an attempt fails with an error or a panic and leaves the layout unchanged. Allocating rows resizes every attribute group, freezes the layout on every success, and grows the row count by the number of rows asked for; nothing unfreezes it.",
  over=["histories", "inputs"], quant="all sequences of structural operations and allocations",
  why="A late addition corrupts rows only in sequences the tests never perform (allocate, add, write, read back).",
  files=["base/dense.go", "base/fixed.go", "base/binary.go"],
  mech=[("inst.fixed", "DenseInstances.AddAttribute, AddAttributeToAttributeGroup, createAttributeGroup, Extend in base/dense.go")],
  tech="typestate by dominating-guard analysis over SSA, interprocedural",
  note="Covers the additions made through the data set; a caller who adds to a group object obtained from the data set bypasses it.")
claim(id="C10", title="Splits, counts, shuffles and samples account for every row",
  statement="Dividing a data set (by value, by threshold, train/test, cross-validation folds) puts each row into exactly one part, and counting classes counts each row exactly once; parts are returned under the value they were collected for, and no fold is trained on the rows it is tested on. Shuffling is a permutation of the rows and sampling draws only existing rows.",
  over=["inputs", "schedules"], quant="all data sets, split values, proportions, fold numbers and random draws",
  why="Tests fix one small file or check sizes only; a row lost or duplicated for a rare value or random draw changes nothing they assert.",
  files=["base/util_instances.go", "base/dense.go", "evaluation/cross_fold.go"],
  mech=[("DecomposeOn*, GetClassDistribution*, InstancesTrainTestSplit, LazyShuffle, Shuffle, SampleWithReplacement", "base/util_instances.go"), ("swapRows", "base/dense.go"), ("GenerateCrossFoldValidationConfusionMatrices", "evaluation/cross_fold.go")],
  tech="per-row path counting over SSA with symbolic loop index, permutation-scheme recognition, aliasing of row bytes",
  note="All control paths through one row are enumerated; unknown permutation schemes are not alarmed on.")
claim(id="C06", title="Stored cells are read back from where they were written",
  statement="Reading a cell of a dense data set yields the value last written to that row and attribute, and writing a cell changes no other cell. Allocating more rows keeps every stored value, and the specification returned for an attribute addresses that attribute's own storage.",
  over=["inputs", "histories"], quant="all attribute counts and kinds, rows, columns, values and sequences of writes and allocations",
  why="Addressing slips show only for particular column numbers (the ninth bit column, the second attribute group) or after a second allocation; tests use a few columns.",
  files=["base/fixed.go", "base/bag.go", "base/dense.go", "base/spec.go"],
  mech=[("get/set/resize of each attribute group type", "base/fixed.go, base/bag.go"), ("AttributeSpec construction and use", "DenseInstances.GetAttribute, AddAttribute, AddAttributeToAttributeGroup, Get, Set")],
  tech="symbolic normal forms of storage addresses, bit-provenance propagation over SSA",
  note="Addresses are compared as polynomials in row, column and attribute count; the packed group's bit operations are evaluated for two bytes of columns, which repeat every eight. Concurrent writers are out of scope.")
claim(id="C11", title="Value codecs are lossless and one representation is used per attribute type",
  statement="Packing a 64-bit integer or float into bytes and unpacking it gives back the same number. A categorical value is stored as the index it has in the attribute's value list and shown as the value at that index, and every conversion of an attribute type uses the same representation; binary attributes store zero as 0 and positive numbers as 1.",
  over=["inputs"], quant="all 64-bit patterns, all category lists and values",
  why="A lost high bit or a float/integer mix-up shows only for large numbers or later categories, which the tests do not use.",
  files=["base/util.go", "base/categorical.go", "base/float.go", "base/binary.go"],
  mech=[("Pack*/Unpack*", "base/util.go"), ("GetSysVal*, GetUsrVal, GetStringFromSysVal of each attribute type", "base")],
  tech="bit-provenance abstract interpretation of the codecs, representation-consistency lint, index-origin dataflow",
  note="Proves the identity of all 64 bits for the little-endian layout the code assumes. Text formatting precision of floats is not covered.")
claim(id="C07", title="Reading, training, predicting and evaluating leave data sets unchanged",
  statement="A data set passed to a training, prediction, evaluation, filtering, splitting or writing routine, or read through its own reading methods, has the same cells, attributes, row order and class attributes afterwards. Only the operations whose purpose is to change a data set (sorting or shuffling it in place, setting cells or class attributes) change one; converting text for a categorical attribute may add a category.",
  over=["inputs"], quant="all data sets and all parameters, at every call of an exported routine",
  why="A caller's data set silently reordered or rewritten shows only if the test looks at the input again; the tests look at outputs only.",
  files=["base/util_instances.go", "knn/knn.go", "meta/one_v_all.go", "meta/bagging.go", "evaluation/cross_fold.go", "naive/bernoulli_nb.go", "base/view.go"],
  mech=[("read-only parameters", "every exported function with a FixedDataGrid or DataGrid parameter"), ("read methods", "Get, GetAttribute, AllAttributes, MapOverRows, Size, String, RowString, Equal of each grid type")],
  tech="interprocedural forward may-alias and effect analysis over SSA",
  note="All writes reachable from each data-set parameter are enumerated; calls into the standard library and gonum use models of what they write.")
claim(id="C08", title="Predicting does not change the model",
  statement="Making a prediction leaves the fitted model as it was: its stored training data, parameters, options and attributes are neither replaced nor modified. Predicting twice in a row, or for two data sets in either order, therefore gives the same results.",
  over=["inputs", "histories"], quant="all models, data sets and sequences of predictions",
  why="Tests predict once per fitted model; state left behind by one prediction affects only the next.",
  files=["knn/knn.go", "trees/id3.go", "trees/isolation.go", "trees/cart_classifier.go", "naive/bernoulli_nb.go", "meta/bagging.go", "linear_models/linear_regression.go", "neural/layered.go"],
  mech=[("Predict methods", "every exported Predict* method")],
  tech="interprocedural forward may-alias and effect analysis over SSA",
  note="All writes reachable from each Predict* method's receiver are enumerated. Writes by third-party C code are not seen.")
claim(id="C09", title="Row buffers of a traversal are not kept",
  statement="The row handed to a traversal callback is only valid during that call: library code copies what it needs and does not keep the row or its cells in variables, containers or models that outlive the call.",
  over=["inputs", "schedules"], quant="all row callbacks in the library and everything they call",
  why="Keeping a reused buffer makes every kept row equal to the last one; the tests' traversals use the values at once.",
  files=["knn/knn.go", "base/util_instances.go", "naive/bernoulli_nb.go", "trees/cart_utils.go", "linear_models/linearsvc.go"],
  mech=[("row callbacks", "functions passed to MapOverRows")],
  tech="escape analysis of the row buffer (forward may-alias over SSA)",
  note="One obligation per row callback; copies into strings, numbers and map keys are not retention.")
claim(id="C28", title="The library keeps no mutable global state",
  statement="No library operation modifies package-level state after initialisation, apart from setting the logger's destination. Independent models and data sets therefore cannot influence one another, and may be used from different goroutines.",
  over=["schedules", "histories"], quant="all sequences and interleavings of operations on unrelated models and data sets",
  why="Tests run one model at a time in one goroutine, where shared state is invisible.",
  files=["base/logger.go", "base/util.go", "knn/knn.go", "filters/chimerge_funcs.go", "neural/funcs.go"],
  mech=[("package-level variables", "every package of the library")],
  tech="forward may-alias and effect analysis from all package-level variables over SSA",
  note="Covers all library packages; the shared math/rand source is the standard library's own synchronised state.")
claim(id="C31", title="DBSCAN clusters exactly what is density-connected",
  statement="A row's neighbours are the rows no farther than Eps from it, itself included. Every row with at least MinCount neighbours, in no cluster yet, starts one; every such row reached adds all of its neighbours, each row joins at most one cluster, and any other row is noise unless a cluster reaches it. Inverting a cluster map gives each row its cluster or refuses, and two maps are equal only when their clusters correspond one to one.",
  over=["inputs"], quant="all data sets, metrics, values of Eps and MinCount, orders of rows and cluster maps",
  why="Tests cluster one file; rows at exactly Eps, with exactly MinCount neighbours, border rows between two clusters, chains through lower row numbers and more than 256 rows do not occur in it.",
  files=["clustering/dbscan.go", "clustering/clustering.go"],
  mech=[("distances and neighbourhoods", "clustering/dbscan.go regionQuery, computePairwiseDistances"), ("starting and widening clusters", "clustering/dbscan.go DBSCAN"), ("counting neighbours", "clustering/dbscan.go BitCount"), ("cluster maps", "clustering/clustering.go Invert, Equals")],
  tech="path analysis over SSA of every turn of the clustering loops: for each combination of tests on the row sets, which sets and clusters change and where the loop goes on; comparisons with Eps and MinCount in normal form",
  note="Clusters with fewer than MinCount rows left (their border rows in an earlier cluster) are removed by design. The expectation-maximisation clusters are C40's and C41's as far as they are decided.")
claim(id="C32", title="Fitting or loading again starts afresh",
  statement="Fitting a model that was fitted before, or loading into one that is in use, gives what a new model fitted or loaded in the same way would give: everything the earlier training left behind (counts, trees, coefficients, attribute tables, inner models) is replaced, never added to. The averaged perceptron, which learns online by design, is the exception.",
  over=["histories", "inputs"], quant="all sequences of Fit and Load calls on one model, with any data sets",
  why="Tests fit each model once; left-over state only shows in the second fit, and only if the data sets differ.",
  files=["naive/bernoulli_nb.go", "neural/layered.go", "ensemble/randomforest.go", "meta/bagging.go", "meta/one_v_all.go", "trees/isolation.go", "trees/id3.go", "clustering/em.go", "kdtree/kdtree.go"],
  mech=[("learned fields are re-initialised", "Fit, Load and LoadWithPrefix of each model; kdtree Tree.Build")],
  tech="must-reset-before-use path analysis of receiver fields over SSA, interprocedural",
  note="One obligation per method and learned field. State kept inside third-party or C objects is replaced with the object; in-place rewriting of configuration objects is not tracked.")
claim(id="C33", title="Malformed files and archives are reported, not crashed on",
  statement="When a text file, a data set archive or a saved model is not as it should be (lines, values or members missing or too many, values of the wrong kind, truncated numbers, negative or impossible counts), reading it returns an error and never ends the program. A recovery that turns a failure into an error hands on every other failure unchanged.",
  over=["inputs", "fault_sequences"], quant="all contents of the files and archives the readers are given",
  why="Tests read well-formed files and the archives they have just written; each of the many ways to be malformed takes another path.",
  files=["base/csv.go", "base/arff.go", "base/serialize.go", "base/serialize_attributes.go", "base/serialize_instances.go", "trees/id3.go", "knn/knn.go", "meta/bagging.go", "meta/one_v_all.go", "ensemble/multisvc.go", "naive/bernoulli_nb.go"],
  mech=[("indexing, cutting, asserting and allocating by what was read", "the csv, ARFF and archive readers and the Load methods"), ("deferred recoveries", "every function that recovers")],
  tech="forward value-flow analysis of what is read from files, with requirements of length and kind discharged by dominating tests, interprocedural over SSA",
  note="Judged is what the program does with what was read; resource exhaustion by large well-formed input and failures inside the standard library are not.")
claim(id="C37", title="Vectors, matrices and tables passed in are left unchanged",
  statement="The numbers a caller hands over as slices, matrices or maps (feature vectors, training matrices, weights, confusion matrices, row mappings) hold the same values after the call. Only the activation vector of a neural network, which is documented to be overwritten, is an output.",
  over=["inputs"], quant="all vectors, matrices and maps, at every exported function and method that takes one",
  why="Scratch work done in the caller's storage gives right results once; only a second use of the same vector goes wrong, which the tests do not make.",
  files=["metrics/pairwise/euclidean.go", "metrics/pairwise/cosine.go", "pca/pca.go", "kdtree/kdtree.go", "knn/knn.go", "evaluation/confusion.go", "utilities/utilities.go"],
  mech=[("read-only numeric parameters", "every exported function with a slice, matrix or map of numbers")],
  tech="interprocedural forward may-alias and effect analysis over SSA",
  note="Keeping a reference to the caller's storage is not a modification. Calls into gonum and the standard library use models of what they write.")
claim(id="C29", title="Results do not depend on the iteration order of maps",
  statement="Go visits the keys of a map in a random order. Nothing the library returns, trains, prints or stores depends on it: for the same input (and the same random numbers) votes, ties, metrics, split criteria, attribute orders and reports come out the same every time.",
  over=["schedules", "inputs"], quant="every order in which any map may be iterated",
  why="The order changes from run to run and matters only for ties and last digits, so a test passes most of the time either way.",
  files=["knn/knn.go", "trees/id3.go", "trees/entropy.go", "trees/gini.go", "evaluation/confusion.go", "meta/bagging.go", "naive/bernoulli_nb.go", "base/dense.go", "base/view.go", "filters/chimerge_funcs.go", "clustering/clustering.go", "utilities/utilities.go"],
  mech=[("loops over maps", "every range over a map in library code, and the callers of helpers that return keys")],
  tech="order-dependence analysis of the loop-carried values and effects of every map loop over SSA",
  note="Order of entries inside a saved archive is not covered (entries are looked up by name). Two different keys mapping to the same entry are not detected.")
claim(id="C24", title="Evaluation measures follow their definitions",
  statement="The confusion matrix counts every row once, under its reference class and its predicted class, and two data sets of different size are rejected. True/false positives and negatives, precision, recall, F1, accuracy, micro and macro averages are what their textbook definitions give on that matrix, for every number of classes. The cross-validated measure is the mean and population variance over the folds, and each column of the summary shows the measure its heading names.",
  over=["inputs"], quant="all confusion matrices, data sets and folds",
  why="Tests check a few measures on one 2- or 3-class matrix, where several wrong formulas agree with the right one.",
  files=["evaluation/confusion.go", "evaluation/cross_fold.go"],
  mech=[("measures on a confusion matrix", "evaluation/confusion.go"), ("GetConfusionMatrix", "evaluation/confusion.go"), ("GetCrossValidatedMetric", "evaluation/cross_fold.go")],
  tech="algebraic normal forms of the measures by dataflow over SSA, compared with the definitions",
  note="Formulas are compared as real-valued rational functions; rounding and division by zero are not covered.")
claim(id="C25", title="Distances and kernels follow their definitions",
  statement="The Manhattan, Chebyshev, Euclidean, cosine and Canberra distances and the polynomial and radial basis function kernels are what their definitions give, over all elements of both operands, for vectors of every length. Operands of different shapes are rejected rather than compared in part.",
  over=["inputs"], quant="all pairs of vectors or matrices of any length",
  why="Tests check one or two short vectors per distance, on which e.g. a dropped last element, sign or zero case is invisible.",
  files=["metrics/pairwise/manhattan.go", "metrics/pairwise/chebyshev.go", "metrics/pairwise/euclidean.go", "metrics/pairwise/cosine.go", "metrics/pairwise/cranberra.go", "metrics/pairwise/poly_kernel.go", "metrics/pairwise/rbf_kernel.go"],
  mech=[("Distance, InnerProduct and Dot of each measure", "metrics/pairwise")],
  tech="algebraic normal forms of the distances by dataflow over SSA, compared with the definitions",
  note="Matrix operations of gonum are modelled (elementwise operations, sums, dot products, apply, pow). Rounding is not covered.")
claim(id="C38", title="Tree splits use the defined measures and keep the best candidate",
  statement="Entropy, Gini impurity, mean absolute and squared error and the isolation path-length and anomaly score are what their definitions give; naming a criterion selects its own measure; the gain ratio divides the gain by the entropy after the split. Every split search keeps the candidate with the largest gain or smallest loss, with attribute, threshold, labels and halves all from that candidate, and weighs the halves by their sizes. What is computed from the left half ends up on the left, the right on the right, and a node that is not split predicts its own data's value on both sides.",
  over=["inputs"], quant="all class distributions, label vectors, thresholds and data sets",
  why="Tests compare accuracies with loose bounds; a worse split rule or a swapped half still passes them.",
  files=["trees/entropy.go", "trees/gini.go", "trees/gr.go", "trees/cart_classifier.go", "trees/cart_regressor.go", "trees/isolation.go"],
  mech=[("impurity and loss measures", "trees"), ("split searches", "trees/cart_*.go, GetSplitRuleFromSelection of each rule generator"), ("cFactor, anomalyScore", "trees/isolation.go")],
  tech="algebraic normal forms of the measures, and dataflow of the loop-carried best candidate over SSA",
  note="Which candidates are generated, and rounding, are not covered.")
claim(id="C18", title="Every row gets the prediction made for it",
  statement="Predictions for a data set have one entry per row, in row order: the prediction set made for an input has as many rows as the input, and the entry of row i is computed from row i and written, on every path, to row i of that set, under the set's own class attribute. No row is skipped, shifted, or predicted from another row's cells.",
  over=["inputs"], quant="all models, data sets, row counts and row orders",
  why="Tests check accuracy thresholds; a skipped or shifted row, or one predicted from another row, changes accuracy by a little.",
  files=["knn/knn.go", "knn/knn_opt_euclidean.go", "meta/bagging.go", "meta/one_v_all.go", "naive/bernoulli_nb.go", "neural/layered.go", "perceptron/average.go", "trees/id3.go", "trees/cart_classifier.go", "trees/isolation.go", "linear_models/linear_regression.go", "base/util_instances.go"],
  mech=[("Predict operations", "every exported Predict on a data set"), ("GeneratePredictionVector", "base/util_instances.go")],
  tech="row-number provenance and must-pass path analysis over SSA, interprocedural",
  note="Lists of predictions of helper functions the analysis cannot resolve are counted as undecided (none today).")
claim(id="C36", title="Copied and converted data stay in their row and column",
  statement="Wherever data are copied or converted row by row (into matrices, feature vectors, label lists or other data sets, and when rows are read by number during a traversal), what belongs to row i ends up in row i and what belongs to column j in column j. Every row's place is filled, with storage of its own, and no first or last column is left out.",
  over=["inputs"], quant="all data sets, row counts and column counts",
  why="A shifted label or column, or rows sharing one buffer, still trains a model that passes the tests' loose thresholds.",
  files=["linear_models/util.go", "linear_models/linear_regression.go", "trees/cart_utils.go", "trees/cart_regressor.go", "perceptron/average.go", "clustering/em.go", "clustering/dbscan.go", "base/conversion.go", "base/dense.go", "base/sort.go", "neural/layered.go", "knn/knn.go"],
  mech=[("row conversions", "every traversal callback and loop over a data set's rows"), ("column copies", "loops over a row's cells in traversal callbacks")],
  tech="row- and column-number provenance and must-pass path analysis over SSA",
  note="Deliberate reorderings (sorting, shuffling, sampling) use looked-up row numbers and are the subject of other properties.")
claim(id="C39", title="A row's prediction depends on that row alone",
  statement="Predicting many rows gives each row the prediction it would get on its own: working storage that is reused from row to row (feature buffers, vote counts, distances, activations, best-so-far values) is completely overwritten for every row before it is used. Nothing computed for one row reaches the prediction of the next.",
  over=["inputs", "histories"], quant="all models, data sets and row orders",
  why="Left-over votes or feature values matter only for particular successions of rows; tests compare overall accuracy.",
  files=["knn/knn.go", "knn/knn_opt_euclidean.go", "neural/layered.go", "linear_models/linearsvc.go", "linear_models/logistic.go", "meta/one_v_all.go", "meta/bagging.go", "trees/cart_classifier.go"],
  mech=[("storage shared between rows", "traversals and loops of every exported Predict operation")],
  tech="must-overwrite-before-read path analysis of storage and loop-carried values over SSA, interprocedural",
  note="That a full loop over one list covers another list of the same length is assumed. State of the model itself is the subject of C08; third-party and C code is not seen.")
claim(id="C23", title="Parallel fitting and prediction lose nothing, never race and always end",
  statement="Where work is spread over goroutines (fitting and predicting with bagged models), the caller returns only after every goroutine has finished, every piece of work is handed out exactly once and its result collected exactly once, and no two goroutines touch the same memory unprotected. Feeding and draining end: channels are closed once, after their senders are done and before anything waits for their receivers.",
  over=["schedules", "inputs"], quant="all goroutine schedules, model counts and processor counts",
  why="A race, a lost result or a missed wake-up shows only under particular schedules; the tests run a handful of them.",
  files=["meta/bagging.go"],
  mech=[("every go statement", "library packages"), ("BaggedModel.Fit, Predict", "meta/bagging.go")],
  tech="interprocedural access-path effect analysis with locksets and join (typestate) analysis of every go statement over SSA",
  note="The slot index of a goroutine counts as unique when it is a loop's own counter passed by value. Concurrent use of one model by the caller's own goroutines is not covered.")
claim(id="C13", title="A saved model loads back as the same model",
  statement="Everything a model writes when it is saved is found again under the same name, in the same encoding and for the same piece of the model when it is loaded, on its own or as part of another model; lists are saved and reloaded whole, and whatever prediction or saving again needs is restored on every successful load. Attributes keep their type, name and settings, and serialised data sets keep their columns' order and roles.",
  over=["inputs", "histories"], quant="all models of every serialisable type, nesting depths and data sets",
  why="Tests reload a few small models and compare accuracies; a lost parameter, swapped entry or skipped element matters only for particular models.",
  files=["base/serialize.go", "base/serialize_attributes.go", "base/serialize_instances.go", "knn/knn.go", "meta/bagging.go", "meta/one_v_all.go", "trees/id3.go", "trees/random.go", "ensemble/randomforest.go", "ensemble/multisvc.go", "linear_models/linearsvc.go", "naive/bernoulli_nb.go", "base/float.go", "base/categorical.go"],
  mech=[("save and load pairs", "every type with SaveWithPrefix and LoadWithPrefix"), ("attribute and rule encoders", "types with MarshalJSON and UnmarshalJSON")],
  tech="interprocedural constant propagation of archive keys compared between save and load, with field provenance and must-pass path analysis over SSA",
  note="That the encodings of bytes, JSON and archives themselves round-trip (standard library, liblinear) is assumed. Models written by other versions are not covered.")
claim(id="C21", title="A model that was not fitted says so",
  statement="Predicting with a model before it was fitted or loaded reports an error (or refuses explicitly) and never passes off a result, for every model whose prediction can report an error or that keeps a record of being fitted. A fit that succeeds always makes the model usable, and one that fails does not mark it as fitted.",
  over=["histories", "inputs"], quant="all orders of creating, fitting, failing to fit, loading and predicting with every such model",
  why="The tests predict with freshly created models in one or two places only, and never after a fit that failed.",
  files=["knn/knn.go", "linear_models/linear_regression.go", "linear_models/logistic.go", "linear_models/linearsvc.go", "trees/id3.go", "trees/random.go", "clustering/em.go", "perceptron/average.go", "naive/bernoulli_nb.go", "meta/one_v_all.go", "ensemble/randomforest.go", "ensemble/multisvc.go"],
  mech=[("fitted flags and learned fields", "Fit and Predict of every model"), ("errors of prediction before fitting", "linear_models, knn, trees, clustering")],
  tech="must-pass path analysis over SSA of learned-state stores and of their guards, interprocedural",
  note="Models whose prediction cannot report an error and that keep no record of being fitted (e.g. CART trees) are outside.")
claim(id="C20", title="Prediction reads features the way fitting did",
  statement="A model predicts from the same features, encoded the same way, as those it was fitted on: the same kind of attributes is read, a value falls on the same side of a learned threshold, a feature counts as present under the same test and keeps the same number, and what was learned for one feature or one part of an ensemble is never applied to another.",
  over=["inputs"], quant="all models, data sets, thresholds and feature values, in particular values equal to a threshold, zero or negative",
  why="Fitting and predicting are separate pieces of code; tests compare accuracies, where a boundary or sign difference shows only for particular values.",
  files=["trees/cart_classifier.go", "trees/cart_regressor.go", "trees/isolation.go", "trees/id3.go", "base/util_instances.go", "linear_models/liblinear.go", "linear_models/linear_regression.go", "linear_models/util.go", "naive/bernoulli_nb.go", "meta/bagging.go", "meta/one_v_all.go", "perceptron/average.go", "knn/knn.go"],
  mech=[("Fit and Predict of every model", "trees, linear_models, naive, meta, perceptron, clustering, knn"), ("division of data at a threshold", "base/util_instances.go"), ("sparse encodings of liblinear", "linear_models/liblinear.go")],
  tech="interprocedural comparison over SSA of what fitting and prediction do with features: attribute-list provenance, normal forms of threshold tests, of presence tests and of index arithmetic",
  note="Neural networks' layer schedule and third-party code are not covered; the attribute order of a test set is assumed to match where a model selects by kind.")
claim(id="C26", title="A named option selects exactly what it names; unknown names are refused",
  statement="Where behaviour is chosen by a name (distance function, search algorithm, impurity criterion, loss, penalty, attribute type), each name selects the implementation it stands for, and a name that is not one of the known ones is refused instead of silently standing for something else. The optimised neighbour search is taken only when the settings it implements were asked for (plain votes, Euclidean distance, optimisations allowed), and votes are weighted exactly when weighting was asked for.",
  over=["inputs"], quant="all option names and all combinations of settings",
  why="Tests use a few valid names; a swapped, ignored or defaulted option still trains a model that passes accuracy thresholds.",
  files=["knn/knn.go", "knn/knn_opt_euclidean.go", "linear_models/linearsvc.go", "linear_models/logistic.go", "trees/cart_classifier.go", "trees/cart_regressor.go", "base/serialize_attributes.go"],
  mech=[("tests of string settings and parameters", "all library packages"), ("solver selection", "linear_models"), ("KNNClassifier.Predict", "knn/knn.go")],
  tech="path-sensitive dataflow over SSA: decision tables of option names, solver kinds and guards",
  note="A function is obliged to refuse an unknown name once it tests the option; whether the option is tested before any work is done is not judged.")
claim(id="C27", title="The library acts only on what it is given",
  statement="No operation ends or reconfigures the process (exit, fatal logging, environment, working directory, processor settings, the random seed the caller set), runs programs or opens connections, and randomness comes only from a generator the caller can seed. The only files written are those whose names the caller passed to an operation that saves, and temporary files; temporary files are the only ones removed, and they are gone when the operation returns, whether it succeeds or fails.",
  over=["inputs", "faults"], quant="all calls, arguments and failures of any step",
  why="Tests do not look at what is left behind, least of all after a failure in the middle, and a fatal exit on a rare error path is never reached.",
  files=["linear_models/linearsvc.go", "linear_models/liblinear.go", "base/serialize.go", "base/serialize_instances.go", "base/arff.go", "base/csv.go", "base/domain.go", "base/logger.go", "base/util_instances.go", "trees/random.go", "meta/bagging.go"],
  mech=[("calls that leave the library", "all library packages"), ("files opened for writing or removed", "base, linear_models"), ("temporary files", "LinearSVC save and load")],
  tech="effect analysis of every external call, path provenance of file names, and must-remove path analysis of temporary files over SSA",
  note="What the bundled C code of liblinear does is not seen, nor are panics of the Go runtime. Progress output on standard output is allowed.")
claim(id="C17", title="A saved model says what it is, and foreign files are refused",
  statement="Every type of model is saved under a name of its own, the same wherever it is written, with the type's own metadata and a format number its readers accept. A reader never succeeds on an archive whose manifest, format number, or (where it checks them) model name or version is not the one it reads.",
  over=["inputs", "histories"], quant="all model types and all archive contents",
  why="Tests load only files they have just written with the same type, so a shared name or a check that never fires goes unnoticed.",
  files=["base/serialize.go", "base/serialize_instances.go", "knn/knn.go", "ensemble/randomforest.go", "ensemble/multisvc.go", "trees/id3.go", "trees/random.go", "meta/bagging.go", "meta/one_v_all.go", "naive/bernoulli_nb.go", "linear_models/linearsvc.go"],
  mech=[("names and versions written", "GetMetadata and Save of every model"), ("manifest and metadata tests", "archive and data-set readers, LoadWithPrefix")],
  tech="constant propagation of what is written against what is tested, and path analysis of readers with the test assumed to fail, over SSA",
  note="Readers that do not check a name are not obliged to; they fail for want of their keys.")
claim(id="C30", title="Settings take effect as given",
  statement="Each value a caller passes when creating a model or a filter is kept as that setting and no other, is handed on unchanged to whatever the setting is for, is consulted by the work it configures, and is not overwritten by fitting or predicting. A setting that says how many (trees, models, bins, iterations, features) gives exactly that many, and one that limits depth or size is never exceeded.",
  over=["inputs", "histories"], quant="all models and filters with settings, and all values of them",
  why="Tests use one value of each setting and check a loose accuracy bound, which a setting that is ignored, swapped with another or off by one still meets.",
  files=["ensemble/randomforest.go", "trees/isolation.go", "trees/cart_classifier.go", "trees/cart_regressor.go", "trees/random.go", "trees/id3.go", "knn/knn.go", "knn/knn_opt_euclidean.go", "meta/bagging.go", "linear_models/linearsvc.go", "linear_models/liblinear.go", "filters/chimerge.go", "neural/layered.go", "clustering/em.go", "perceptron/average.go", "pca/pca.go"],
  mech=[("from parameter to field to use", "every constructor and the methods of what it makes"), ("loops counted by a setting", "RandomForest, IsolationForest, BaggedModel, filters"), ("depth limits", "CART and isolation trees")],
  tech="def-use and value-flow analysis of constructor parameters and settings fields, and loop-bound analysis, over SSA",
  note="The binning filter's range has one label more than its bins (for the top edge). Settings that are upper limits (iterations) may be left early. Known finding: NewAveragePerceptron misplaces its parameters.")
claim(id="C19", title="The label is never used as a feature",
  statement="The class attributes, matched by equality and not only when they are the very same object, are left out of everything a model learns or predicts from: candidate splits, random feature selections, distances, linear and network inputs, per-feature statistics. The selectors of non-class attributes and the difference and intersection of attribute lists keep exactly the attributes they should, however many class attributes there are and wherever they stand.",
  over=["inputs"], quant="all data sets, numbers and positions of class attributes, and all learners",
  why="A model that sees the label passes every accuracy test (better than before), and the tests keep the one class attribute last and reuse the same attribute objects.",
  files=["base/util_attributes.go", "trees/entropy.go", "trees/gini.go", "trees/gr.go", "trees/random.go", "trees/id3.go", "trees/cart_utils.go", "trees/cart_regressor.go", "meta/bagging.go", "meta/one_v_all.go", "naive/bernoulli_nb.go", "neural/layered.go", "ensemble/randomforest.go", "linear_models/linear_regression.go", "linear_models/util.go", "linear_models/logistic.go", "linear_models/linearsvc.go", "knn/knn.go", "knn/knn_opt_euclidean.go", "perceptron/average.go", "clustering/em.go"],
  mech=[("NonClassAttributes and its relatives, AttributeDifference, AttributeIntersect", "base/util_attributes.go"), ("feature selections", "every learner"), ("raw storage of attribute groups", "knn/knn_opt_euclidean.go")],
  tech="forward value-flow analysis of attribute lists over SSA, and path analysis of list operations with the comparison assumed to hold or fail",
  note="A data set without class attributes, or whose class attributes the caller did not declare, has no label to protect.")
claim(id="C35", title="Attributes and data sets are the same when equal, not when identical",
  statement="Two attributes are equal exactly when they are of the same type and name and, if they have a list of values, have the same values in the same order; comparing data sets or their attributes reads both sides, answers no as soon as anything compared differs (length included) and yes when everything agrees. An attribute equal to one of a data set, view or filter finds it, whichever object the caller passes, and a filter is always handed its own version of an attribute.",
  over=["inputs"], quant="all pairs of attributes and data sets, and all equal but distinct attribute objects",
  why="Tests pass back the attribute objects they got, and compare a few attributes; a comparison by identity, of a value with itself, or without the length differs only for equal copies or common prefixes.",
  files=["base/binary.go", "base/categorical.go", "base/float.go", "base/util.go", "base/util_instances.go", "base/view.go", "base/filtered.go", "base/util_attributes.go", "base/dense.go", "filters/disc.go", "neural/layered.go"],
  mech=[("Equals and Compatible of each attribute type", "base"), ("InstancesAreEqual, CheckStrictlyCompatible", "base/util_instances.go"), ("maps keyed by attribute", "base, filters, neural"), ("calls of Transform", "base/filtered.go")],
  tech="def-use and path analysis over SSA of comparisons with one operand pair assumed to differ or all to agree, and provenance of keys of attribute maps",
  note="Known finding: InstancesAreEqual reads only one of its data sets. CheckCompatible returns a list and is judged by the list operations of C19.")
claim(id="C34", title="Loops and recursions of the library always end",
  statement="No call into the library goes on for ever: each turn of a loop brings it nearer to the test that ends it, reading stops when the input ends or fails, drawing at random until there are enough different things asks for no more than there are, and functions that call themselves do so on something smaller, behind a test that ends the recursion. Convergence of numerical iterations is not part of this.",
  over=["inputs","fault_sequences"], quant="all data sets, settings, files and read failures",
  why="A loop that hangs needs an unusual input (NaN values, more features asked for than there are, an unseen value, a failing or truncated file); a test that meets it does not fail, it stops.",
  files=["trees/entropy.go", "trees/random.go", "trees/id3.go", "trees/isolation.go", "meta/bagging.go", "kdtree/kdtree.go", "kdtree/heap.go", "clustering/dbscan.go", "base/csv.go", "base/arff.go", "base/serialize.go", "perceptron/average.go"],
  mech=[("every loop of the library packages", "all packages"), ("every function that calls itself", "trees, kdtree, base"), ("loops that read or draw", "base/csv.go, base/serialize.go, meta/bagging.go, trees/random.go")],
  tech="acyclic path enumeration of every loop over SSA with a progress (ranking) check per path, and argument-descent analysis of recursive calls",
  note="Convergence of expectation maximisation, and loops inside third-party and C code, are not covered.")
claim(id="C41", title="A winner is the best of all its candidates, and every vote counts once",
  statement="Wherever the library compares each of a set of candidates with the best so far (the predicted class, a majority label, the most likely component, a split, the ends of a range of values), it keeps the value it compared, looks at every candidate, starts from a value that none can lose to, and reports the candidate that value belongs to. Tables of votes, and of how often a class or value occurs, count each occurrence exactly once.",
  over=["inputs"], quant="all scores, including negative, tied and very small or large ones, all numbers and orders of candidates, and all votes",
  why="Tests choose among a few ordinary scores; a search that starts at zero, forgets the first or last candidate, or remembers the wrong one picks the same winner for most of them.",
  files=["knn/knn.go", "naive/bernoulli_nb.go", "meta/bagging.go", "meta/one_v_all.go", "neural/layered.go", "clustering/em.go", "trees/isolation.go", "trees/id3.go", "trees/entropy.go", "trees/gini.go", "trees/gr.go", "trees/cart_classifier.go", "trees/cart_regressor.go", "filters/binning.go", "filters/chimerge.go", "filters/chimerge_funcs.go", "base/util_instances.go"],
  mech=[("best-so-far searches", "every loop of the library that replaces a number under a comparison with it"), ("tables of votes and counts", "knn, meta, naive, filters, base/util_instances.go"), ("smallest and largest value of each attribute", "filters/binning.go, trees/isolation.go")],
  tech="acyclic path enumeration of one turn of every loop over SSA, with the value kept, the value compared and the value reported related on each path; initial values and ranges by constant folding and linear normal forms",
  note="How ties are broken is C29's. Values are taken not to be NaN, and distances not to be negative. Selection by sorting is C44's, and the k-d tree's heap C43's.")
claim(id="C40", title="Training and prediction compute what each method defines",
  statement="One step of training or prediction computes what the method's definition says: activation functions are paired with their derivatives, the network's passes forward and backward, its weight and bias updates and its layering fit together, naive Bayes rates, priors and scores are the smoothed counts and log-probabilities of the rows, and a linear model's coefficients are those of the columns it predicts from. Means, distances between means, centring and densities follow their formulas, for any number of rows, features, classes, nodes and layers.",
  over=["inputs"], quant="all data sets, weights, class counts, layer sizes and learning rates",
  why="Training is random and tests ask for a loose accuracy; a wrong sign, index, divisor or layer offset still learns the small examples, or shows only with two hidden layers, many features or other data than those fitted.",
  files=["neural/funcs.go", "neural/network.go", "neural/layered.go", "naive/bernoulli_nb.go", "linear_models/linear_regression.go", "perceptron/average.go", "clustering/em.go", "pca/pca.go", "filters/chimerge_funcs.go"],
  mech=[("activation functions, forward and backward pass, updates", "neural/funcs.go, neural/network.go"), ("layers, biases and the training step", "neural/layered.go"), ("rates and class scores", "naive/bernoulli_nb.go"), ("design matrix, back-substitution, prediction", "linear_models/linear_regression.go"), ("score, means, centring, density", "perceptron, clustering, pca, filters")],
  tech="algebraic normal forms of the values stored and returned (sums over loops, matrix element reads, callbacks inlined) compared with the defining formulas, and path analysis of the order of matrix operations",
  note="The matrix library's own decompositions, convergence, and rounding are not covered, nor are the number of passes through the network and the averaging and update of the perceptron.")
claim(id="C12", title="A file read in becomes exactly its records and columns",
  statement="Reading a CSV or ARFF file makes a data set of exactly as many rows as the file has data records (a header, where there is one, is not a row, nor are comments and empty lines), the records standing in the order of the file and each field in its own column by that column's type, empty CSV fields being left unset. Columns are named by the header or their number, typed by the first data row or their declaration with all declared values in order, and the class is the last column unless the caller says otherwise.",
  over=["inputs"], quant="all files, with and without headers, comments, empty fields and any number of rows and columns",
  why="Tests read a handful of well-formed example files and look at a few cells; a row too many, a field shifted, or a rule for headers applied in one reader and not its twin shows only in other files.",
  files=["base/csv.go", "base/arff.go", "base/filewrapper.go"],
  mech=[("counting records, allocating rows", "ParseCSVGetRowsFromReader, ParseARFFGetRows and their callers"), ("storing records", "ParseCSVBuildInstancesFromReader, ParseDenseARFFBuildInstancesFromReader"), ("names, types, declared values", "ParseCSVSniff..., ParseARFFGetAttributes"), ("the header flag", "every reader and its wrappers")],
  tech="path analysis of one turn of every reading loop over SSA (what is counted, stored, passed over), with the header flag assumed set or unset, and value flow of indices, names and the flag",
  note="Rounding of numbers, and the number of decimals guessed for a column, are not covered. How quoted fields are split is the standard library's.")
claim(id="C45", title="Cross-validation tests every fold on a model of all the others",
  statement="Rows are dealt to as many folds as are run. Every round tests one fold, each exactly once, on a model fitted on all rows of all the other folds; the predictions made for the tested rows are compared with those rows as the reference, and the result is returned at the fold's place.",
  over=["inputs", "schedules"], quant="all data sets, classifiers, numbers of folds and random draws",
  why="Tests run two or five folds and look at the accuracy, which changes little when a fold is left out of training, and not at all when predictions and reference are exchanged.",
  files=["evaluation/cross_fold.go"],
  mech=[("dealing rows, rounds, training rows and results", "evaluation/cross_fold.go GenerateCrossFoldValidationConfusionMatrices")],
  tech="value flow of the fold numbers and views, and path analysis over SSA of the loop that collects the training rows",
  note="That each row is in exactly one fold is C10's; mean and variance over the folds are C24's. A fold may be empty when the draws leave it so.")
claim(id="C43", title="The k-d tree finds exactly the nearest rows",
  statement="A k-d tree built over rows holds every row once, with its own coordinates and number. A search gives the k rows nearest to the target, nearest first and each with its own distance: no part of the tree is left out unless k are kept already and nothing in it can be nearer.",
  over=["inputs"], quant="all data sets, targets, k and tree shapes, for distances not smaller than along one feature",
  why="Tests search six points in two dimensions; a part left out by the wrong feature, a heap in wrong order from its fourth entry on, or a row lost while dividing still gives their three neighbours.",
  files=["kdtree/kdtree.go", "kdtree/heap.go"],
  mech=[("dividing the rows", "kdtree/kdtree.go Build"), ("descent, bound and exhaustive search", "kdtree/kdtree.go Search"), ("the heap of those kept", "kdtree/heap.go")],
  tech="path analysis over SSA of every way through the search and the heap's loops, with places in the heap in linear normal form and the order relations each way has established",
  note="A search with k of 0 panics and is not covered. Distances that may be smaller than along one feature (cosine) are outside the statement.")
claim(id="C44", title="Sorting orders rows by every attribute asked for",
  statement="Sorting a grid puts its rows in the order of the attributes asked for, the first deciding first: numbers of either sign by their value, other values by their representation. Every row appears exactly once with all its values, descending order is the exact reverse, and the lazy sort shows what sorting in place makes.",
  over=["inputs"], quant="all grids, lists of attributes, values and directions",
  why="Tests sort one data set with positive numbers and compare with a file; negative numbers, bytes of 255, an odd or even number of rows, long cycles of moved rows and several attributes each take another path.",
  files=["base/sort.go", "base/dense.go"],
  mech=[("comparable bytes and the distribution pass", "base/sort.go createSortSpec"), ("swapping rows into place", "base/sort.go Sort, base/dense.go swapRows"), ("the lazy mapping", "base/sort.go LazySort")],
  tech="path analysis over SSA of the sorting loops: exchanges found per turn, counting loops' bounds in normal form, sign test of the comparable bytes, value flow of places and row numbers",
  note="Sorting grids other than the dense ones in place is refused by the code (a panic). NaN and the two zeros are ordered by their bits.")
claim(id="C42", title="Converting data keeps what each value means",
  statement="Converting an attribute's values puts each where its meaning says: a category becomes one in the new attribute made for it and zero in the others, numbers and binary values become whether they are zero, values already of the right type stay, and a number goes to the bin it lies in (outside values to the outermost), every bin having a value of its own. Matrices and data frames hold each value at the row and column it had, class column and digits included.",
  over=["inputs"], quant="all values, attributes, categories, bins, matrices and data frames",
  why="Tests convert one small data set and look at a few values; a shifted category, a value exactly at a boundary, negative or tiny numbers, or bins closer than the digits written come out wrong without failing any.",
  files=["filters/binary.go", "filters/float.go", "filters/binning.go", "filters/chimerge.go", "filters/chimerge_funcs.go", "filters/disc.go", "base/conversion.go", "base/dataframe_go.go", "base/mat.go"],
  mech=[("conversion to binary and float attributes", "filters/binary.go, filters/float.go"), ("bins, intervals and their labels", "filters/binning.go, filters/chimerge.go"), ("matrices from rows, rows from matrices", "base/conversion.go, base/mat.go"), ("data frames", "base/dataframe_go.go")],
  tech="path analysis over SSA of each conversion (condition under which each result is returned), linear normal form of the bin formula, and value flow of indices, attributes and labels",
  note="Which intervals ChiMerge merges is C40's; how often a bin boundary is hit by rounding in the bin formula (the code adds 0.0001 of a bin) is accepted up to a hundredth of a bin.")
