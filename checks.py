# property -> contract units (V), Kani harnesses (K), bounded conformance binary (B)
FEAT_ASSUME = ["BTreeMap iter/values/entry behave as the map of their documentation (trusted stubs map_pairs, map_values, map_values_mut, entry)", "parking_lot::Mutex gives exclusive access to the pooled vector", "vector capacity requests succeed"]
FE_ASSUME = FEAT_ASSUME + ["the callers' closures are modelled as arbitrary recorders of their calls (FnMut state is not expressible)", "f32 multiplication is a function of its operands (kept uninterpreted)", "derived equality and ordering of Namespace"]
REALS = "machine floating-point arithmetic treated as mathematical (f32 read as exact reals); exp and ln by textbook facts"
# obligations of a shared unit that belong to a property: (function, failing clause) patterns
RESTORE = r"kept|same\(|lemma_detached|lemma_uncrossed|removable|appended_at|removed_at"
KEEP = r"^(?!.*(kept|same\(|lemma_detached|lemma_uncrossed|removable|depth_info\) ==))"
SCOPE = {
    "C01": {},
    "C02": {"foreach": [(r"FeatureMask|FeatureHash|FeatureIndex|bits_to_max|median_index|constant_feature_index|lemma_.*in_table|lemma_masked", None), (r"^foreach_", r"weights\s*\.\s*(weight|state)_at")], "dense": [(r"convert_index|DenseWeights::new|in_bounds|num_bits", None)], "vwtext": [(r"parse_namespace_inline|ParsedFeature|lemma_inside", None)], "jsontext": [(r"to_features|handle_features|lemma_inside", None)]},
    "C03": {"coin": [(r"CoinRegressor::|compile_interactions|hash_interaction|to_namespace|lemma_all_compiled", r"calls_w|calls_s|walked\(|pairs|triples|ns_of|foreach_feature"), (r"compile_interactions|hash_interaction|to_namespace|lemma_all_compiled", None)], "foreach": [(r"^foreach_", r"^(?!.*weights\s*\.\s*(weight|state)_at)"), (r"NamespaceIterator|SparseFeatures|lemma", None)]},
    "C22": {"coin": [(r"ReductionImpl for CoinRegressor::learn$|coin_betting", r"frame\(|unmoved\(|updated\(|same_but_norm"), (r"Step::call", r"quiet\("), (r"lemma_(untouched|frame_after|zero_weight)", None)], "foreach": [(r"^foreach_feature_with_state_mut", None)], "dense": [(r"_mut|convert_index|lemma_(frame|block)", None)]},
    "C04": {"coin": [(r"ReductionImpl for CoinRegressor", r"final\(features\)")], "features": [(r"SparseFeatures::(append|remove)$|attach_detach", None)], "stack": [(r"ReductionImpl|ReductionWrapper", RESTORE), (r"lemma_(detached|uncrossed)|restore_namespace", None)]},
    "C05": {"features": [(r"clear|::new|default|Pool|get_or_create|set_namespace|set_active|is_active|empty|recycled", None), (r"append|remove", r"wf\(\)")]},
    "C06": {"features": [(r"^(?!.*(Pool|recycled))", None)]},
    "C12": {"foreach": [(r"^foreach_", r"^(?!.*weights\s*\.\s*(weight|state)_at)")], "vwtext": [(r"parse_feature$|parse_namespace_inline|ParsedFeature|Namespace::|hash", None)], "vwnames": [(r"parse_namespace_info|extract_|merge_namespaces|lemma_(names|gathered|lead|run|first)|read_all|parse_feature$|ParsedFeature|Namespace::|hash", None)], "jsontext": [(r"to_features|handle_features|ParsedFeature|Namespace::|hash", None)]},
    "C08": {"stack": [(r"SquareCBReduction::(predict|learn)", r"learn_of|predict_of|cnt_add"), (r"(Greedy|Softmax)Reduction::predict", KEEP)]},
    "C09": {"stack": [(r"CBAdfReduction::(predict|learn)$|generate_ips|lemma_attached", KEEP), (r"SquareCBReduction::learn", r"learn_d|new_label|unw"), (r"(Greedy|Softmax)Reduction::learn", KEEP)]},
    "C10": {"coin": [(r"ReductionFactory for|ReductionTypeDescription|ReductionWrapper::new", None)], "stack": [(r"ReductionFactory for|ReductionTypeDescription|to_namespace|ReductionWrapper::(new|types)|CBAdfConfig", None)]},
    "C11": {"coin": [(r"ReductionImpl for CoinRegressor", r"_depth_info")], "stack": [(r"DepthInfo|ReductionWrapper::(predict|learn|predict_then_learn)$", r"^(?!.*kept)"), (r"ReductionImpl", r"depth_info")]},
    "C17": {"coin": [(r"predict_then_learn", r"^(?!.*(final\(features\)|depth_info))")], "stack": [(r"predict_then_learn", KEEP)]},
    "C18": {"stack": [(r"ReductionImpl for Elementwise|elementwise_multiply|Namespace::hash|FeatureMask|FeatureHash|lemma_(cell|zip|off|crossed)", KEEP)]},
    "C19": {"stack": [(r"BinaryReduction::(predict|learn|predict_then_learn)$|From<BinaryLabel>|BinaryPrediction|SimpleLabel", KEEP)]},
    "C16": {"coin": [(r"ReductionImpl for CoinRegressor::predict$", r"^(?!.*(final\(features\)|_depth_info))"), (r"LinkFunction::link|Predict::call|lemma_scalar", None), (r"ReductionImpl for CoinRegressor::learn$", r"min_label|max_label"), (r"CoinRegressor::new$", None)]},
    "C13": {"saved": [(r"rewrite_json|serialize_to_json|deserialize_from_json|save_and_load_json|slots_|lemma_(table|round|nested|unnested|nd_ok|twice|map|plain|tagged|untagged)|DenseWeights", None)]},
    "C25": {"coin": [(r"ReductionImpl for CoinRegressor::learn$", r"^(?!.*(final\(features\)|_depth_info|frame\(|unmoved\())"), (r"coin_betting", r"^(?!.*(frame\(|walked\())"), (r"Step::call", r"^(?!.*quiet\()"), (r"Peek::call|first_derivative|lemma_(step|grown|peek)", None)]},
}
PROPS = {
    "C01": dict(units=["dense"], bin="c01", assumptions=["usize is 64 bits wide", "allocation of the table succeeds"],
        note="Index arithmetic, block layout, in-bounds and disjointness proved by Verus for all table sizes over the extracted DenseWeights code; usize = 64 bits and successful allocation assumed."),
    "C04": dict(units=["features"], bin="c04", assumptions=FEAT_ASSUME,
        note="Attach/detach identity (append then remove) proved by Verus for every pair of containers over the extracted container code; that whole reduction stacks restore the example is bounded (executed on generated stacks and examples)."),
    "C05": dict(units=["features"], bin="c05", assumptions=FEAT_ASSUME,
        note="Proved: a cleared container satisfies the same abstract state as a new one, every operation's result depends on that state only, and the pool hands out either a cleared or a fresh container; the parsers' use of the pool is bounded (executed)."),
    "C06": dict(units=["features"], bin="c06", assumptions=FEAT_ASSUME,
        note="Map semantics of every container operation and the namespace iterator's next/nth/size_hint proved by Verus; standard-library map iteration order and entry API are assumed contracts."),
    "C02": dict(units=["foreach", "dense", "vwtext", "jsontext"], bin="c02", assumptions=FE_ASSUME,
        note="Proved for every container, interaction list, number of bits below 32 and weight table: masks keep exactly the low bits, every linear, quadratic, cubic and constant index handed to the weights is below 2^b and therefore inside the table. All three parsers are proved to store only indices below 2^b, for every well-formed example; the element-wise products are proved masked in the stack unit (C18)."),
    "C03": dict(units=["foreach"], bin="c03", assumptions=FE_ASSUME,
        note="All three term walkers (weight, state, mutable state) proved by Verus to make exactly the calls of the specified term sequence, in order, with the index and value specified, for every container and interaction list; the regressor's construction, predict, sensitivity and learn are proved to walk the configured pairs and triples in order; parsing of interaction lists is bounded (executed)."),
    "C07": dict(units=["minprob"], bin="c07", assumptions=[REALS, "sort_by with the reversed comparator returns a descending permutation"],
        note="The whole function proved by Verus over the extracted code for every list, epsilon and zero setting, machine arithmetic treated as mathematical: sum exactly 1, the floor, excluded zeros, order, untouched ids, rejection without change; rounding is bounded (executed)."),
    "C08": dict(units=["policies"], bin="c08", assumptions=[REALS, "the child returns one score per action in action order (C09)", "powf of a non-negative base is non-negative"],
        note="All three policies proved by Verus over the extracted predict bodies, machine arithmetic treated as mathematical: formula, ids and order, non-negativity, sum exactly 1, nothing likelier than the first lowest-cost action, including the minimum-probability step; SquareCB's gamma uses the number of examples learned; rounding is bounded (executed)."),
    "C15": dict(units=["losses"], bin="c15", assumptions=[REALS, "wexpmx approximates W(e^x)-x within 1e-4 (assumed contract; its effect is bounded-checked)"],
        note="Both losses and the dispatch between them proved by Verus over the extracted code, machine arithmetic treated as mathematical: values, slopes, curvature, squared gradient, update direction, no overshoot and agreement with the gradient step, for all inputs; rounding is bounded (executed)."),
    "C20": dict(units=["values"], bin="c20", assumptions=["SparseFeatures::abs_diff_eq is kept abstract in the comparison of wrappers (its meaning is bounded-checked)", "enum TryInto derive output is bounded-checked"],
        note="Typed access (shared and mutable, owned and borrowed), conversion into the general types and back, and the comparison of wrappers are proved by Verus for every value, for every label, prediction and feature kind; the derived TryInto conversions are bounded (executed)."),
    "C22": dict(units=["foreach", "dense"], bin="c22", assumptions=FE_ASSUME,
        note="Proved: the mutable walker leaves every weight block that is not the target of one of the example's terms (and every other model's column) untouched, for every table contents, over the dense table's proved frame contract; the regressor's learn changes only those blocks and with weight 0 moves no gradient sum, for every model, example and label (coin unit)."),
    "C28": dict(units=["saved"], bin="c28", assumptions=["serde's derived code honours its attributes: a field is written under its name and read back from it, a skipped field is filled with a default, variants are told apart by their names; typetag writes and reads the implementation's name", "serde_json values hold the document written to them, finite numbers exactly; an object has each key once", "flexbuffers holds the document written to it and reads it back; writing does not fail", "pools hold no state (C05)", "usize is 64 bits wide"],
        note="Proved by Verus over every type reachable from Workspace, read off the source with its serde attributes on every run (24 structs and enums, the eight reductions, the two weight adapters, serialize_model, create_from_model, serialize_to_json and deserialize_from_json): for every stack and state, loading a saved model, binary or JSON, succeeds and every field of the loaded model is that of the original, weights slot by slot up to the sign of zero; for the JSON form the tables satisfy the storage invariant, the numbers are finite and no configuration value imitates a table; that equal state predicts and learns equally on the real code, are bounded (executed)."),
}
COIN_ASSUME = FEAT_ASSUME + ["closures passed to the walkers are lifted mechanically to structs of their captured variables (recorded in the extraction log)", "f32 operations are functions of their operands; the order and absorption facts used are discharged bit-precisely by SMT (contracts/fp.ax), up to the payload of NaNs",
    "f32::exp is never negative and NaN only for NaN; f32::min and f32::max return one of their operands, ignoring a NaN, whatever their order", "configured interactions have two or three namespaces, numBits is below 32 (other configurations panic)"]
PROPS["C16"] = dict(units=["coin"], bin="c16", assumptions=COIN_ASSUME, note="Proved by Verus over the extracted regressor, link and closures, for every model, example and configuration: the prediction is the linked, clamped, NaN-free weighted sum in visiting order, inside the seen label range or [0, 1]; learning extends the range by the label; machine arithmetic is kept as it is (not read as reals).")
PROPS["C25"] = dict(units=["coin"], bin="c25", assumptions=COIN_ASSUME, note="Proved by Verus over the extracted learning code and closures, for every model, example and label: the six state words of each visited term's index after learning are those of the coin-betting recurrences applied once per term in order, the normaliser is updated once, and sums, scales and bounds never decrease in f32 arithmetic.")
PROPS["C14"] = dict(units=["metrics"], bin="c14", assumptions=FEAT_ASSUME + ["event counters do not overflow u64, and fit i32 where they are shown", "the logged action is among the predicted ones (the metric panics otherwise)", "f32 operations are functions of their operands; the identities used (symmetry, signs) are discharged bit-precisely by SMT (contracts/fp.ax)"],
    note="All four metrics' new, add_point and get_value proved by Verus over the extracted code for every history of points: the value is the defining fold over the points in order, in f32 arithmetic as it is; the registry hands out, under each documented name, a new metric of that kind.")
PROPS["C23"] = dict(units=["read"], bin="c23", assumptions=["BufRead::read_line appends the next line with its line end and returns 0 exactly at the end of the stream, however the reader buffers", "String push, len, truncate, clear, is_empty and trim_end as documented; a line feed is whitespace", "the underlying reader's errors are passed on (nothing is claimed after an error)"],
    note="Both readers and all three parsers' get_next_chunk proved by Verus over the extracted code for every stream: what a call returns together with what it leaves accounts for exactly the examples of the stream, in order, and the end is reported exactly when nothing is left.")
PROPS["C21"] = dict(units=["names"], bin="c21", assumptions=["text methods of String, str and char as documented (is_empty, chars, ASCII classes)", "serde's derived code honours its attributes: deny_unknown_fields, default, rename_all; serde_default fills each field with its serde default; a finite configuration survives the round trip through a document", "BTreeMap insert and get as documented; the lazily initialised registry is the same at every lookup"],
    note="Both name constructors, the registry, parse_config, create_reduction, every factory's typename, parse_config and default document, and every configuration's default values proved by Verus over the extracted code (macro bodies expanded, serde attributes read from the source); serde's own generated code is assumed and executed by the bounded check.")
PROPS["C26"] = dict(cli=True, units=["progress"], bin="c26", assumptions=["example numbers and the next due number stay within u32", "to_lowercase leaves lower-case ASCII alone; strip_prefix and parse::<u32> as documented; parse::<f32> and float-to-integer conversion are functions of their operand", "the training loop asks once per example (bounded: executed through the command line)"],
    note="The schedule (TrainResultManager::new, inc_iteration) and the reading of a period (OutputPeriod::from_str) proved by Verus over the extracted code for every period and run length, with lemmas that +k reports exactly every k-th example and that k and +k mean the same; the loop around it is bounded (executed).")
PROPS["C12"] = dict(units=["hash", "foreach", "vwtext", "vwnames", "jsontext"], bin="c12", assumptions=["xxh3 is a function of the bytes and the seed; UTF-8 encoding is a function of the text", "derived equality and hashing of FeatureIndex and Feature agree; HashMap and HashSet behave as the map and set of their documentation", "the standard library's scanning of texts and fast_float parsing as documented", "numBits is below 32"],
    note="All three ways of hashing a feature, the interaction hashes and the inverse table proved by Verus over the extracted code: one hash per description for every name, value, offset and seed, the masking identity for every number of bits below 32 and terms of length 2 and 3, the table's contents for every history of insertions; that the learner's walkers use the same index is proved in the foreach unit; that all three parsers store each feature under the masked hash of its description is proved in the vwtext and jsontext units, and that the names extracted from a VW text are exactly the descriptions of the features it stores, by namespace and in order, in the vwnames unit.")
PROPS["C13"] = dict(units=["convert", "saved"], bin="c13", assumptions=["HashMap insert, get and iteration as documented (every entry once, any order); derived equality and hashing of FeatureIndex agree", "serde's derived code writes and reads back the two forms unchanged", "serde_json values hold the document written to them, finite numbers exactly; an object has each key once; distinct numbers have distinct numerals", "slice iterators, copy_from_slice and f32 comparison with zero as documented; the two zeros are one value", "usize is 64 bits wide"],
    note="SparseF32Vec::from_dense/to_dense, both serde adapters and DenseWeightsWithNDArray::from_dense_weights/to_dense_weights proved by Verus over the extracted code for every table satisfying the storage invariant: same sizes, every slot of every block the same value after either round trip. The rewriting of whole JSON documents (rewrite_json_sparse_to_ndarray and its inverse) proved over documents of every shape and depth: exactly the tables change form, and the two compose to the same document, each table with the same slots (saved unit).")
PROPS["C24"] = dict(units=["vwtext", "jsontext"], bin="c24", assumptions=FEAT_ASSUME + ["split, split_whitespace, split_ascii_whitespace, trim, strip_prefix, lines and starts_with/ends_with as documented; number parsing is a function of the text", "xxh3 is a function of the bytes and the seed; UTF-8 encoding is a function of the text", "SmallVec behaves as Vec", "numBits is below 32", "serde_json parses a text to the document it spells; serde_json_borrow's get, as_f64, as_u64, as_str, iter_array as documented; f64 to f32 conversion is a function of its operand", "serde's derived code reads a label spelled in full from its named fields", "iterator adaptors of pure closures are taken as the list of their items"],
    note="All three parsers. The VW text parser (features, namespace segments, labels, lines, multi-line examples) proved by Verus over the extracted code for every well-formed text: the container holds exactly the written features, each once, in its namespace, in order, value times weight; the label is the written one, the labelled action by position; with a lemma that any two layouts of the same features, in whatever format, give the same container. The JSON parser (to_features, parse_features, parse_label, parse_chunk) and the dsjson parser (handle_features over every document depth, parse_chunk) proved likewise against the same vocabulary.")
for i in range(2, 27):
    PROPS.setdefault("C%02d" % i, dict(units=[], bin="c%02d" % i))
PROPS["C27"] = dict(cli=True, units=["threads"], bin="c27", assumptions=["flume channels deliver every item sent exactly once, in order of sending, and report an error exactly when all senders are gone and nothing is left; a send to a living receiver succeeds", "std::thread::scope runs every spawned closure; a receive returns once there is a reader and a parser thread (channels and scheduler make progress)", "atomics and memory orderings as Verus's atomics model them (an acquiring load that sees 1 sees what the releasing store published); atomic_wait's wait returns at the latest when the value has changed and somebody wakes it", "parsing is a function of the text (C24), the learner a function of model and example (C17), metric values a function of the points (C14), the progress schedule a function of its state (C26)", "the data file is readable and its examples well formed and labelled; writing output files succeeds"],
    note="Proved by Verus over the extracted code (ParseResult's four methods with their UnsafeCells as permission-checked cells, the reader's and the parser threads' closures, process_example and execute from the thread count on), for every data file of well-formed examples, thread count, queue size and interleaving: the result slot is written once by the one parser thread that got it before it is published and read once by the learner after; the learner receives the stream's texts once each in order, and model, predictions file, metric points, table rows and saved model are those of single-threaded training by its definition; every thread's loop terminates; channels, futex and thread scope are trusted. Executed besides: the tool with 0..16 parser threads against single-threaded runs and the library.")
STACK_ASSUME = FEAT_ASSUME + ["the base regressor is an arbitrary function of its state, the example's namespaces and features, the label and the model offset", "event counters do not overflow usize",
    "derived TryInto, clone and equality of the wrappers", "downcast of a factory's own configuration type", "float operations are functions of their operands, multiplication and addition commute"]
for i, note in {
    "C09": "CbAdf predict and learn (both targets), the IPS target and SquareCB's probability-1 label proved by Verus over the extracted code for every stack below, example and label, against a denotational semantics of stacks; the regressor is an arbitrary function. Bounded execution on the real crate besides.",
    "C10": "check_and_get_reason and every shipped reduction's create proved by Verus: Ok exactly when the child was created and the three exchanged types agree (SquareCB also refuses a CbAdf child that is not MTR), declared types those of the built reduction; registry lookup and configuration parsing are assumed functions. Coin's create (no child) is proved to declare simple labels, sparse features and scalar predictions.",
    "C11": "DepthInfo and the three ReductionWrapper entry points proved by Verus: the callee sees the caller's offset plus index times models below, the caller's offset is restored, also through every shipped reduction.",
    "C17": "Proved by Verus for the provided method and for both overriding stacks (Binary, Element-wise), for every stack below: same prediction as predict, same state as learn; likewise for the Coin regressor itself, whose state after the provided method meets learn's whole contract.",
    "C18": "elementwise_multiply and the reduction's predict, learn and predict-then-learn proved by Verus for every pair of feature lists and number of bits below 32, with a lemma that increasing offsets give exactly one product per common offset.",
    "C19": "Binary's predict, learn and predict-then-learn proved by Verus over the extracted code for every regressor below.",
}.items():
    PROPS[i].update(units=["stack"], assumptions=STACK_ASSUME, note=note)
PROPS["C04"]["units"] = ["features", "stack", "coin"]; PROPS["C04"]["assumptions"] = STACK_ASSUME
PROPS["C04"]["note"] = "Attach/detach identity, and that every shipped reduction hands the example back as it got it (same namespaces, features, values, order) for every stack, example and label, and that Coin does not touch it, proved by Verus over the extracted code."
PROPS["C08"]["units"] = ["policies", "stack"]
PROPS["C11"]["units"] = ["stack", "coin"]
PROPS["C10"]["units"] = PROPS["C17"]["units"] = ["stack", "coin"]
PROPS["C03"]["units"] = ["foreach", "coin"]
PROPS["C22"]["units"] = ["foreach", "dense", "coin"]
for i, sc in SCOPE.items(): PROPS[i]["scope"] = sc
for p in PROPS.values(): p.setdefault("note", "Bounded: the statement is executed as a contract against the real crate on generated inputs; no obligation is discharged deductively yet.")
NOT_APPLICABLE = {}
