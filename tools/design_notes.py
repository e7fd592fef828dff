NOTES = {
"C01": "*Exceptions*: a loop over rows may stop early through an error return, a panic, or when what it searches for is found and returned (a membership search).",
"C02": "*History*: the rule first demanded the row mapping in every implementation; it now derives it from Get. What a filter computes is not decided here (only that traversal and lookup compute the same).",
"C04": "*Exceptions*: reads of the group list by Get/Set and the traversal are lock-free by design (the layout is frozen once storage is allocated, C05). Constructors work on an object nobody else has.",
"C07": "*Exceptions*: converting text may add a value to a categorical attribute shared by several data sets (documented: `GetSysValFromString`); Set-like operations are excluded by name.",
"C08": "*Exceptions*: the same growth of categorical values; results returned by the model and scratch memory made during the call are not the model's memory.",
"C13": "*Method detail*: the keys a writer writes and a loader reads are collected as provenance sets with prefixes (the prefix parameter followed through the helpers) and matched; then the field a value is taken from and the one it ends in. The `kept` obligation: a JSON value found present is put to use on each successful path.",
"C14": "*History*: a `Save` of KNN that calls a closing helper on a branch was reported until error results got nil tests per path (mayBeNilError); corrected in the machinery.",
"C15": "*Exceptions*: closing a file only read from, removing a scratch file, printing to the log.",
"C17": "*Bounds*: JSON struct tags are read from the type; names are compared as constants.",
"C19": "*Exceptions*: isolation forests treat the label as one more column (documented in preprocessData); attributes *selected by the caller* for a filter are the caller's business.",
"C20": "*Scope*: training and prediction sides of the same model (linear models, neural nets, Bernoulli naive Bayes, CART, isolation trees, one-vs-all) are compared as normal forms of what they read.",
"C21": "*Exceptions left out of the statement*: CART regressors, saving an unfitted KNN/NB/bagged model.",
"C23": "*Scope*: goroutines the library starts; the caller's own sharing of a model is not decided. Bagging draws from the global generator inside goroutines, which is safe (it locks) though not repeatable.",
"C24": "*History*: zero divisions follow IEEE arithmetic in the library; the definitions are compared as rational functions, without a rule for 0/0.",
"C25": "*History*: two gonum operations in a row (`Sub` then `MulElem`) were at first judged by the first one only, an alarm on a behaviour-preserving rewrite; the last operation counts now, and unknown shapes are undecided.",
"C28": "*Exception*: the logger, whose setter exists to replace it.",
"C29": "*Exceptions*: what is only printed, and iteration whose outcome is sorted by a total order afterwards.",
"C30": "*Scope*: settings named in exported constructors and option structs; liblinear's parameters are followed to the C struct.",
"C32": "*Exception*: the averaged perceptron learns online; fitting it twice continues by design.",
"C33": "*Bounds*: allocations are required to be guarded by comparisons that involve the number read and any upper limit; whether that limit is generous is not decided. *History*: limits tested in helper predicates were reported until predicates were summarised.",
"C35": "*Bounds*: transitivity of equality is not decided, only that each relevant part takes part from both sides.",
"C36": "*Bounds*: constant column shifts are accepted when the skipped columns are written as well.",
"C38": "*Bounds*: which midpoint thresholds are tried is not decided, only what is done with each candidate.",
"C34": "*Bounds*: a loop with more than 60000 acyclic ways round is not decided (none today). Progress is judged per way round, so a loop in which two ways undo each other is accepted unless a counter goes back to a fixed value. *History*: reading at the end of the body (`for err == nil { ...; _, err = r.Read() }`) was reported until the path is followed to the next read. *Found*: three loops that never ended (random trees, bagging, numeric splits), repaired.",
"C41": "*Bounds*: at most 3000 ways round a turn; a comparison whose shape is not that of keeping a best one is not judged. Selections by sorting and the k-d search are not decided here. *Found*: the neural network and the one-vs-all classifier started their best at zero and never chose a class whose score is negative (fixed). *History*: a first version took counts, which cannot be negative, for scores needing a start of minus infinity, and reported votes starting at zero; values shown never to be negative are now a lower bound of their own.",
"C40": "*Bounds*: a computation whose normal form holds something the analysis cannot read (an unknown call, a loop that is not a counted one) is counted as undecided and not judged (none today). Weights whose starting value is below 0.005 are held at zero by design, so the update formula is judged on the other branch. The number of passes differs between training and prediction (harmless: the result is a fixed point), the perceptron's averaging is not the textbook one; neither is judged. *Found*: softplus was paired with a wrong derivative (fixed).",
"C12": "*Bounds*: a reading loop whose shape the analysis cannot follow (the count kept in a field, records collected first) is counted as undecided (none today). *Found*: reading a CSV file with a header into attribute groups gave an extra empty row, and a nominal ARFF declaration without blanks after its commas (or with blanks in its values) lost or joined values (both fixed). *History*: none of the 29 planted edits was reported by any earlier rule.",
"C42": "*Bounds*: a conversion of which the paths cannot be followed (more than 2000, or values looked up through a part the analysis cannot read) is counted as undecided (none today). *Found*: bins whose rounded labels were equal were merged; a value at which a ChiMerge interval starts went to the one below; numbers of data frames lost all digits past six decimals. All three are repaired.",
"C43": "*Bounds*: a heap whose places cannot be read as a multiple of the loop's own place plus a constant is counted as undecided (none today); at most 3000 ways through a function. *Found*: the exhaustive search used to look at the empty side of a node and keep row 0 for it (fixed). *History*: a first version alarmed on a heap written with places counted from 0 that stops by comparing with the larger child only; order relations are now closed under transitivity.",
"C44": "*Bounds*: a sort whose loops cannot be read as counting loops is counted as undecided (none today). *Found*: numbers were compared by their plain bits, so negative ones came after the positive ones and in reverse (fixed). *History*: none of its alarms on the tree was false; each refactoring of the loops that first was (the swap in a helper, a cycle followed with another loop form, a test of the sign by shifting) is kept in mutants/sort.py.",
"C31": "*Bounds*: rows kept in other sets than big integers, or a queue of rows instead of the loop that starts again, are counted as undecided (none today); at most 2000 ways round a turn. *Found*: neighbours added at lower row numbers than the row that adds them were never looked at, and noise was marked so that no later cluster could have it; two cluster maps were equal although one lacks rows of the other, when that other has an empty cluster (all fixed). *History*: a first version took the loop that widens a cluster for the one that starts clusters when the assignment was moved into a part of its own.",
"C45": "*Bounds*: folds kept in another form than lists found by their number (a fold number per row, say) are counted as undecided and not judged (none today). *Found*: nothing. *History*: C10 raised an alarm when the comparison with the tested fold was moved into a part of its own; it now takes any question about the fold for one.",
}
