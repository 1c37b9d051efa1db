#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
C = "frozen-collections-core/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Maps built at run time answer every lookup like a last-wins dictionary",
 "For any list of entries, every frozen map built at run time (hash, ordered, scalar or string keyed, and each of the run-time lookup strategies beneath them) finds exactly the keys it was given: looking up a supplied key, in any borrowed or equivalent form and through any lookup method, gives the value of the last entry supplied for that key, and looking up any other key gives nothing. The reported length is the number of distinct keys. This holds for every size, every key distribution and every consistent user-supplied hasher, however badly it distributes.",
 ["inputs", "configurations"],
 "all entry lists (sizes 0 to tens of thousands, duplicates, adversarial integer ranges and string shapes), all key types, all probes, all consistent hashers, all construction routes",
 "The tests build maps of at most a dozen fixed keys whose values are mostly (); they never vary the hasher, never compare values under duplicates, and reach only a few of the slot-count, subslice and range decisions that depend on the whole key set.",
 [C+"fz_maps/fz_hash_map.rs", C+"fz_maps/fz_ordered_map.rs", C+"fz_maps/fz_scalar_map.rs", C+"fz_maps/fz_string_map.rs", C+"maps/decl_macros.rs", C+"hash_tables/hash_table.rs", C+"hash_tables/decl_macros.rs", C+"utils/dedup.rs", C+"utils/eytzinger.rs", C+"utils/bitvec.rs", C+"analyzers/hash_code_analyzer.rs", C+"analyzers/scalar_key_analyzer.rs", C+"analyzers/slice_key_analyzer.rs", C+"hashers/left_range_hasher.rs", C+"hashers/right_range_hasher.rs", C+"hashers/bridge_hasher.rs"],
 [("deduplication keeps the last entry", C+"utils/dedup.rs DeduppedVec, SortedAndDeduppedVec"),
  ("slot table whose ranges cover every entry", C+"hash_tables/hash_table.rs HashTable::new, hash_table_funcs!"),
  ("strategy choice from the keys", C+"analyzers/*"),
  ("range hashers fall back to 0 for keys outside the range", C+"hashers/left_range_hasher.rs, right_range_hasher.rs"),
  ("Eytzinger layout and search", C+"utils/eytzinger.rs")],
 [("entries", "the frozen key/value pairs", "each map struct"), ("slots/mask/lookup/min/max", "index structures that select candidates", C+"hash_tables, "+C+"maps")],
 ["get", "get_mut", "get_key_value", "contains_key", "Index", "len"])

prop("C02", "Sets built at run time contain exactly the values they were given",
 "For any list of values, every frozen set built at run time (hash, ordered, scalar, string) contains exactly the supplied values: membership queries and element retrieval, in any borrowed or equivalent form, succeed for each supplied value and fail for every other one. The length is the number of distinct values, and a retrieved element is equal to the query.",
 ["inputs", "configurations"],
 "all value lists, sizes, key types, probes, hashers and construction routes (new, with_hasher, arrays, iterators, conversion from a map)",
 "Set tests use a handful of small literals; absent-value probes are few, and the wrappers delegate to four different maps each with several strategies.",
 [C+"fz_sets/fz_hash_set.rs", C+"fz_sets/fz_ordered_set.rs", C+"fz_sets/fz_scalar_set.rs", C+"fz_sets/fz_string_set.rs", C+"sets/decl_macros.rs", C+"traits/set_query.rs", C+"traits/set_extras.rs"],
 [("sets wrap the map of the same kind with unit values", C+"fz_sets/*.rs"), ("contains/get delegate to contains_key/get_key_value", C+"sets/decl_macros.rs")],
 None, ["contains", "SetExtras::get", "len", "is_empty"])

prop("C03", "Collections generated by the macros behave exactly as written in the source",
 "For every accepted invocation of the collection macros, in short or long form, with literal or expression keys and in local or static position, the program compiles and the resulting collection answers lookups, length and iteration exactly like a last-wins dictionary of the entries written in the source. This holds whatever specialised representation the macro selects for those entries.",
 ["programs", "inputs"],
 "all well-formed macro invocations: collection kind, entry count, key type and distribution, duplicates, order, values, aliases and visibility",
 "Each invocation is its own program specialised at compile time; the tests contain a few dozen fixed invocations out of an unbounded family, and their values are mostly ().",
 ["frozen-collections-macros/src/lib.rs", C+"macros/processor.rs", C+"macros/parsing/entry.rs", C+"macros/parsing/payload.rs", C+"emit/generator.rs", C+"emit/collection_emitter.rs", C+"inline_maps", C+"inline_sets", C+"hash_tables/inline_hash_table.rs", C+"hash_tables/inline_hash_table_no_collisions.rs", C+"hashers/inline_left_range_hasher.rs", C+"hashers/inline_right_range_hasher.rs", C+"hashers/length_hasher.rs"],
 [("compile-time analysis and slot generation", C+"emit/generator.rs"), ("hash seeds shared between generation and lookup", C+"emit/generator.rs, "+C+"hashers"), ("last duplicate wins", C+"macros/processor.rs, "+C+"utils/dedup.rs")],
 None, ["the compiled program's lookups, lengths and iteration"])

prop("C04", "Collections emitted from a build script behave as configured",
 "For every set of entries and every valid configuration, the source text produced by the build-script emitter compiles and defines collections that behave exactly like a last-wins dictionary of the entries handed to it, under the requested symbol, alias, mutability and visibility. Configurations that cannot be honoured (a static that is also mutable, or a static, mutable or aliased collection without a symbol name) are rejected with an error instead of yielding code.",
 ["programs", "configurations", "inputs"],
 "all entry lists, key kinds and emitter configurations",
 "The emitter is covered by a handful of fixed build-script cases; whether emitted code is right can only be seen by compiling and running it, per configuration.",
 [C+"emit/collection_emitter.rs", C+"emit/collection_entry.rs", C+"emit/generator.rs", C+"emit/mod.rs"],
 [("preflight validation", C+"emit/collection_emitter.rs preflight"), ("generator picks the representation and writes the constructor", C+"emit/generator.rs"), ("dedup before generation", C+"emit/collection_emitter.rs")],
 None, ["the emitted tokens once compiled and run", "Err results"])

prop("C05", "Every traversal yields each entry exactly once and accounts for what is left",
 "Every way of traversing a frozen map or set, borrowing or consuming, over keys, values or both, yields each entry exactly once and nothing else, pairing every key with its own value. At every point of a traversal the reported remaining size equals the number of items still to come, counting or folding from there agrees with stepping, a cloned iterator continues independently, and an exhausted traversal stays exhausted.",
 ["inputs", "histories"],
 "all collections, all sizes, all traversal kinds, all split points between stepping, cloning, counting and folding",
 "Tests collect whole iterators of three to ten items; they do not interleave partial consumption with size_hint, count, fold or clone on every kind.",
 [C+"maps/iterators.rs", C+"sets/iterators.rs", C+"maps/decl_macros.rs", C+"sets/decl_macros.rs", C+"traits/map_iteration.rs", C+"traits/set_iteration.rs"],
 [("iterators wrap slice or vec iterators over the entries", C+"maps/iterators.rs"), ("size_hint/len/count/fold forwarded", C+"maps/iterators.rs, "+C+"sets/iterators.rs")],
 None, ["iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values"])

prop("C06", "Changing values touches exactly the chosen entries and never the keys",
 "Changing values through a frozen map, by single mutable lookup, by mutable iteration or by obtaining several disjoint mutable references at once, changes exactly the selected entries; every other value, every key and the length stay as they were and later lookups see the new values. Requesting several mutable references gives one slot per requested key in request order, empty for absent keys, and panics when two requests select the same entry.",
 ["histories", "inputs"],
 "all maps, all sequences of mutations interleaved with lookups, all request arrays including absent and repeated keys",
 "The tests mutate one value and look at it; isolation is a statement about all other entries over whole histories, and disjoint requests are only tried with two or three present keys.",
 [C+"maps/decl_macros.rs", C+"maps/iterators.rs", C+"hash_tables/decl_macros.rs", C+"hash_tables/inline_hash_table_no_collisions.rs", C+"traits/map_extras.rs", C+"utils/dedup.rs"],
 [("get_mut per strategy", C+"maps/decl_macros.rs"), ("duplicate check before handing out references", C+"maps/decl_macros.rs get_disjoint_mut_funcs!"), ("keys only exposed by shared reference", C+"maps/iterators.rs")],
 None, ["get_mut", "iter_mut", "values_mut", "get_disjoint_mut", "get_disjoint_unchecked_mut"])

prop("C07", "Set algebra is exact across every combination of set types",
 "Union, intersection, difference, symmetric difference and the disjoint, subset and superset tests give the mathematical result for any two sets, of the same or different kinds, including the standard library's sets, and the operator forms agree with them. Each result is produced once, without duplicates, and the size bounds reported at any point of the lazy results always bracket what is still to come.",
 ["inputs", "configurations"],
 "all pairs of set types and contents (equal, nested, overlapping, disjoint, empty, size ties), all split points of the lazy iterators",
 "The pairwise type combinations and relative sizes select different code paths; the tests exercise few pairs and check the bounds only before iteration starts.",
 [C+"sets/iterators.rs", C+"traits/set_ops.rs", C+"traits/set.rs", C+"sets/decl_macros.rs"],
 [("walk one side, filter by membership in the other", C+"sets/iterators.rs"), ("length shortcuts in the predicates", C+"traits/set_ops.rs"), ("operators collect the lazy iterators", C+"sets/decl_macros.rs")],
 None, ["union", "intersection", "difference", "symmetric_difference", "is_disjoint", "is_subset", "is_superset", "| & - ^"])

prop("C08", "Equality, cloning, conversion and formatting agree with the contents",
 "Two collections compare equal exactly when they hold the same entries, regardless of kind, insertion order or internal representation, also against the standard library's collections. Cloning, default construction, building from arrays or iterators, and turning a map into a set keep exactly the expected contents, with clones independent of the original, and the debug rendering lists exactly the entries.",
 ["inputs", "configurations"],
 "all contents and near-miss contents (one value, one key or the length changed), all pairs of comparable types, all conversions",
 "Tests compare a few equal pairs; inequality on near misses, cross-representation equality and clone independence are not quantified over contents.",
 [C+"maps/decl_macros.rs", C+"sets/decl_macros.rs", C+"fz_maps", C+"fz_sets", C+"inline_maps", C+"inline_sets"],
 [("length check plus per-entry lookup in the other side", C+"maps/decl_macros.rs partial_eq_trait_funcs!"), ("derived Clone over entries and index structures", C+"maps, "+C+"inline_maps"), ("debug_map/debug_set over iteration", C+"maps/decl_macros.rs, "+C+"sets/decl_macros.rs")],
 None, ["==", "!=", "clone", "default", "From", "FromIterator", "{:?}"])

prop("C09", "Serialized collections round-trip and hostile input is handled gracefully",
 "Serializing any frozen collection, including ones made by the macros, writes each entry exactly once as an ordinary map or sequence, and deserializing that output, in text or binary formats and from borrowed, owned or streamed input, yields an equal collection. Deserializing input written by ordinary collections keeps the last of repeated keys, and malformed or hostile input gives an error rather than a panic or unbounded memory use.",
 ["inputs", "fault_sequences"],
 "all collections and contents, all serde formats and input modes, all truncations and corruptions of the encoded bytes",
 "Tests round-trip one small JSON literal per type; formats with length prefixes, escaped strings, streamed input and corrupted input are unbounded input spaces.",
 [C+"fz_maps/fz_hash_map.rs", C+"fz_maps/fz_ordered_map.rs", C+"fz_maps/fz_scalar_map.rs", C+"fz_maps/fz_string_map.rs", C+"fz_sets/fz_hash_set.rs", C+"fz_sets/fz_ordered_set.rs", C+"fz_sets/fz_scalar_set.rs", C+"fz_sets/fz_string_set.rs", C+"maps/decl_macros.rs", C+"sets/decl_macros.rs", C+"utils/hints.rs"],
 [("visitors collect entries and rebuild", C+"fz_maps/*.rs visit_map, "+C+"fz_sets/*.rs visit_seq"), ("serialize_map/serialize_seq with the exact length", C+"maps/decl_macros.rs, "+C+"sets/decl_macros.rs")],
 None, ["Serialize", "Deserialize"])

prop("C10", "No safe use of the collections causes undefined behaviour",
 "No sequence of safe operations on any frozen collection, for any key and value types and even when the key types implement hashing, equality, ordering or scalar indexing inconsistently, reads or writes out of bounds, creates aliasing mutable references, reads uninitialised or freed memory or otherwise has undefined behaviour. The unsafe disjoint-reference operation is likewise sound whenever its documented precondition is met.",
 ["inputs", "histories", "fault_sequences"],
 "all operation sequences, key and value types (zero-sized, large, over-aligned, heap-owning) and all misbehaving but safe trait implementations",
 "Tests run without an undefined-behaviour interpreter (the disjoint-reference tests are even switched off under it), only with well-behaved key types, and out-of-bounds reads seldom crash.",
 [C+"maps/decl_macros.rs", C+"hash_tables/decl_macros.rs", C+"hash_tables/inline_hash_table_no_collisions.rs", C+"maps/dense_scalar_lookup_map.rs", C+"maps/sparse_scalar_lookup_map.rs", C+"utils/eytzinger.rs", C+"traits/map_extras.rs"],
 [("hash masked to the slot count", C+"hash_tables/decl_macros.rs"), ("slot ranges in bounds by construction", C+"hash_tables/hash_table.rs"), ("index range check before unchecked access", C+"maps/decl_macros.rs"), ("disjoint references derived from one pointer", C+"maps/decl_macros.rs")],
 None, ["Miri, AddressSanitizer and standard-library precondition checks"])

prop("C11", "Every key and value is dropped exactly once, even when user code panics",
 "Every key and value handed to a frozen collection is either still owned by it, given back to the caller, or dropped, and is dropped exactly once: duplicates discarded during construction, partially consumed iterators, clones and conversions neither leak nor double-drop. When user-supplied hashing, comparing, cloning, formatting or iterating code panics, everything is still released exactly once, and a collection that was only borrowed keeps its entries; when a destructor panics, nothing is dropped twice.",
 ["histories", "fault_sequences", "inputs"],
 "all operation histories and every position at which a user callback may panic",
 "A leak or double drop is invisible to tests that use plain integers and strings, and panics at arbitrary callback positions are never injected.",
 [C+"hash_tables/hash_table.rs", C+"utils/dedup.rs", C+"utils/eytzinger.rs", C+"maps/iterators.rs", C+"sets/iterators.rs", C+"maps/decl_macros.rs", C+"fz_maps", C+"fz_sets"],
 [("ownership moves through Vec and boxed slices only", C+"hash_tables/hash_table.rs, "+C+"utils/dedup.rs"), ("consuming iterators wrap vec::IntoIter", C+"maps/iterators.rs")],
 None, ["construction and drop counters in the element types"])

prop("C12", "Scalar indices preserve order and are distinct over the whole range of each type",
 "For every supported scalar type the position it reports is strictly increasing in the value, so distinct values never share a position, over the entire range of the type including its extremes. An enum deriving the scalar trait gets consecutive positions in declaration order starting at zero, and scalar-keyed collections are correct for any key set drawn from the type, including sets touching both extremes.",
 ["inputs", "programs"],
 "all values of the small types, boundary-dense samples of the wide types, all generated enums, all key ranges",
 "Tests look at a few small numbers; the extremes and sign boundaries of each width, the non-zero types and large enums are not sampled.",
 [C+"traits/scalar.rs", C+"macros/derive_scalar_macro.rs", C+"analyzers/scalar_key_analyzer.rs", C+"maps/dense_scalar_lookup_map.rs", C+"maps/sparse_scalar_lookup_map.rs", C+"hashers/scalar_hasher.rs"],
 [("sign-bit flip for signed types", C+"traits/scalar.rs"), ("match on variants with running index", C+"macros/derive_scalar_macro.rs"), ("range analysis", C+"analyzers/scalar_key_analyzer.rs")],
 None, ["Scalar::index", "scalar maps and sets"])

prop("C13", "Frozen collections can be read from any number of threads at once",
 "Frozen collections whose contents may be shared between threads may themselves be sent to and shared between threads, and any number of threads reading one collection at the same time, including static ones on first use, all observe the same correct results without data races. Reading never changes a collection.",
 ["schedules", "inputs"],
 "all interleavings of concurrent readers, all collection kinds, first-use races on statics",
 "The tests are single threaded.",
 [C+"fz_maps", C+"fz_sets", C+"inline_maps", C+"inline_sets", C+"emit/generator.rs"],
 [("no interior mutability on the read path", C+"maps, "+C+"hash_tables"), ("statics are constants or initialised once through LazyLock", C+"emit/generator.rs")],
 None, ["concurrent get/contains/iter", "ThreadSanitizer and Miri race detection"])

prop("C14", "Construction always succeeds within linear memory and reports capacity limits",
 "Building a frozen collection from any finite list of entries with consistent keys terminates without panicking and allocates an amount of memory proportional to the number of entries, however the keys or hash codes are distributed; when the hash codes tell the keys apart the time it takes grows no faster than sorting the entries would, however many of them repeat a key. The limited-magnitude and contiguous-range building blocks return an error exactly when the distinct entries exceed their limit or are not contiguous, and succeed otherwise.",
 ["inputs", "configurations"],
 "all key distributions (dense, sparse, extremes, clustered), hash distributions (constant, few bits, sequential) and sizes around every limit",
 "Tests only use small friendly inputs; memory is never measured, and limits are tried at one or two sizes.",
 [C+"hash_tables/hash_table.rs", C+"analyzers/hash_code_analyzer.rs", C+"analyzers/scalar_key_analyzer.rs", C+"maps/hash_map.rs", C+"maps/dense_scalar_lookup_map.rs", C+"traits/collection_magnitude.rs", C+"utils/bitvec.rs"],
 [("bounded table growth multipliers", C+"analyzers/hash_code_analyzer.rs"), ("sparse range limited to a multiple of the entry count", C+"analyzers/scalar_key_analyzer.rs"), ("capacity check against the magnitude", C+"hash_tables/hash_table.rs")],
 None, ["a counting global allocator", "Result values of the fallible constructors"])

prop("C15", "Lookups stay cheap: few key comparisons per lookup at every size",
 "A lookup in an ordered collection makes a number of key comparisons that grows at most logarithmically with the number of entries. A lookup in a hash or string collection with a well-distributed hasher makes on average a small constant number of key comparisons, whether or not the key is present, as does one in a scalar collection of well-spread keys; lookups in a contiguous range of scalars need none at all.",
 ["inputs", "configurations"],
 "all sizes and key distributions, present and absent probes",
 "Tests check results, not cost; a lookup that degrades to a scan still passes all of them.",
 [C+"utils/eytzinger.rs", C+"hash_tables/hash_table.rs", C+"analyzers/hash_code_analyzer.rs", C+"analyzers/slice_key_analyzer.rs", C+"analyzers/scalar_key_analyzer.rs", C+"hashers"],
 [("Eytzinger search halves the range per comparison", C+"utils/eytzinger.rs"), ("collision budget in slot-count choice", C+"analyzers/hash_code_analyzer.rs"), ("subslice uniqueness budget", C+"analyzers/slice_key_analyzer.rs")],
 None, ["counters in the key types' equality, ordering and hashing"])

prop("C16", "Code generic over the collection traits behaves alike on every implementation",
 "Code written against the crate's map and set traits gets the same results as calling the concrete collection directly, for every frozen collection and for the standard library and hashbrown collections that implement the same traits. In particular lookups, lengths, iteration, element retrieval, disjoint mutable access and its panic on repeated keys agree across all implementations holding the same entries.",
 ["inputs", "configurations", "histories"],
 "all implementing types, contents, probes and operation sequences",
 "Tests call the traits on a few types with a few keys; agreement between more than twenty implementations is a relation over all contents.",
 [C+"traits/map.rs", C+"traits/map_query.rs", C+"traits/map_extras.rs", C+"traits/map_iteration.rs", C+"traits/len.rs", C+"traits/set.rs", C+"traits/set_query.rs", C+"traits/set_extras.rs", C+"traits/set_iteration.rs"],
 [("trait methods forward to inherent methods", C+"traits, "+C+"maps/decl_macros.rs, "+C+"sets/decl_macros.rs")],
 None, ["MapQuery, MapExtras, MapIteration, Len, SetQuery, SetExtras, SetIteration, SetOps"])

prop("C17", "Behaviour does not depend on the enabled crate features",
 "With the standard library support, serialization, macro and build-script features switched on or off in any supported combination, the library builds and the run-time collections that remain available give the same results for the same inputs.",
 ["configurations", "inputs"],
 "all supported feature combinations of the core crate, all inputs",
 "The tests are only ever built with every feature on.",
 [C+"lib.rs", "frozen-collections-core/Cargo.toml", C+"utils", C+"maps", C+"hash_tables"],
 [("cfg-gated imports and trait implementations only", C+"*")],
 None, ["digest of all observable results of a fixed workload per feature set"])

prop("C18", "Hashing strategies give equal keys equal codes in every form and variant",
 "For each hashing strategy the collections choose among (the whole key, a leading or trailing part of a string or slice, its length, a scalar's position), a key has the same code in every owned, borrowed and shared form and from the strategy's run-time hasher, its source-embedded counterpart and clones of either. The code depends on nothing but the part of the key that the strategy names and, given a hasher that tells those parts apart, differs when they differ; keys too short for the part get a code without a panic. The length a key or collection reports is its number of bytes or elements, and a collection magnitude represents exactly the numbers up to its stated capacity.",
 ["inputs", "configurations"],
 "all keys, all forms of them, all parts, all consistent hash builders, all types that report a length",
 "Tables are laid out with one hasher (in a macro or build script, over owned keys) and searched with another (in the program, over borrowed ones); tests check each hasher by itself on a few ASCII words.",
 [C+"hashers/bridge_hasher.rs", C+"hashers/left_range_hasher.rs", C+"hashers/right_range_hasher.rs", C+"hashers/inline_left_range_hasher.rs", C+"hashers/inline_right_range_hasher.rs", C+"hashers/length_hasher.rs", C+"hashers/scalar_hasher.rs", C+"traits/len.rs", C+"traits/hasher.rs", C+"traits/collection_magnitude.rs"],
 [("one implementation per form and variant, which must agree", C+"hashers/*.rs"), ("lengths by type", C+"traits/len.rs")],
 None, ["Hasher::hash_one", "Len::len", "Len::is_empty", "CollectionMagnitude"])

prop("C19", "The macros refuse what they cannot do, lose nothing and never panic",
 "Every invocation of the collection macros or the Scalar derive that is not well-formed is refused at compile time with an error that says why: bad syntax, a visibility without static, missing or extra values or types, key literals that are of differing types, out of range or unsuitable for the macro, a short form without entries, a derive on anything but a non-empty field-less enum without explicit discriminants. Well-formed ones are accepted, and expand to an expression or to the declaration asked for (name, alias, visibility, mutability) in which every entry that survives, the last of equal literal keys, occurs exactly once. No input whatever makes a macro panic.",
 ["inputs", "programs"],
 "all token streams, well-formed or not, given to any of the macros or the derive",
 "Tests try a few dozen invocations; what a parser accepts, and what is then left out or misread, shows only over the unbounded family of almost-right input.",
 ["frozen-collections-macros/src/lib.rs", C+"macros/macro_api.rs", C+"macros/processor.rs", C+"macros/derive_scalar_macro.rs", C+"macros/parsing/map.rs", C+"macros/parsing/set.rs", C+"macros/parsing/long_form_map.rs", C+"macros/parsing/long_form_set.rs", C+"macros/parsing/entry.rs", C+"macros/parsing/payload.rs", C+"emit/collection_emitter.rs", C+"emit/generator.rs"],
 [("grammar", C+"macros/parsing"), ("key assessment", C+"macros/processor.rs assess_keys"), ("errors become compile errors", "frozen-collections-macros/src/lib.rs")],
 None, ["the Result of the functions behind the macros", "the tokens of the expansion", "the compiler's errors"])

prop("C20", "Reading allocates nothing, and statics of literals are constants",
 "Looking things up (one or several at a time), traversing by reference or for mutation, cloning an iterator, comparing sets and stepping through unions, intersections and differences never allocate memory, whatever the collection and its contents. A static declared through the macros with integer or string literals for keys and constant expressions for values is of the very type it was declared as, with neither lazy initialisation nor heap space: its first use allocates nothing and finds every key, for any number of literals, repeated ones included, and none.",
 ["inputs", "programs", "histories"],
 "all collections and queries; all static declarations with integer or string literals for keys and constant expressions for values",
 "Tests compare results only; where memory is taken, and whether a table made it into the binary as constant data, depends on the contents and sizes of the collection.",
 ["frozen-collections/src/lib.rs", C+"emit/collection_emitter.rs", C+"macros/processor.rs", C+"traits/set_ops.rs", C+"sets/iterators.rs", C+"maps/decl_macros.rs", C+"maps/iterators.rs", C+"utils/dedup.rs"],
 [("constant or lazily initialised", C+"emit/collection_emitter.rs const_keys const_values"), ("retrieval of several values", C+"maps/decl_macros.rs get_disjoint_mut"), ("lazy set algebra", C+"sets/iterators.rs")],
 None, ["a counting allocator", "TypeId of the static", "answers of the first look-ups"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
