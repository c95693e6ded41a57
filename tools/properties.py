"""What decides each property: the workloads, how much of them each tier runs, and what a case is."""


def native(bin, quick, thorough, features=None, kinds=("checked", "release"), **kw):
    """The same workload in a build with overflow checks and debug assertions, and in a release build."""
    out = []
    for i, k in enumerate(kinds):
        out.append({"kind": k, "bin": bin, "stream": i, "features": features,
                    "quick": {"cases": quick, "shards": 8} if quick else None, "thorough": {"cases": thorough, "shards": 8, "budget": 900}, **kw})
    return out


def sanitized(bin, asan, miri, miri_shards=8, stream=10, features=None, miriflags="", **kw):
    """The same workload, smaller, under AddressSanitizer and in Miri. Pairs are (quick, thorough) numbers of cases."""
    out = []
    if asan:
        out.append({"kind": "asan", "bin": bin, "stream": stream, "features": features,
                    "quick": {"cases": asan[0], "shards": 8}, "thorough": {"cases": asan[1], "shards": 8, "budget": 900}, **kw})
    if miri:
        out.append({"kind": "miri", "bin": bin, "stream": stream + 1, "features": features, "miriflags": miriflags,
                    "quick": {"cases": miri[0], "shards": miri_shards, "budget": 150}, "thorough": {"cases": miri[1], "shards": 8, "budget": 1500}, **kw})
    return out


DETERMINISTIC = "User code (Hash, Eq, hashers) is deterministic and consistent, keys given to specialised collections are distinct."

CHECKS = {
    "C01": {
        "technique": "runtime monitoring: reference-model oracle over generated workloads, checked and release builds",
        "engines": native("c01", 24000, 1200000),
        "rule": "A case is one collection of entries (key type, key shape, order, repeats, hasher drawn from the seed) built "
                "into FrozenMaps by two constructors and looked up key by key; non-trivial: at least two distinct keys; "
                "distinct: by key type, value type, keys in order and number of repeats.",
        "must_see": {"large maps": 4, "of them absent": 10000, "of them present": 10000, "inputs with repeated keys": 100},
    },
    "C02": {
        "technique": "runtime monitoring: reference-model oracle over generated workloads, checked and release builds",
        "engines": native("c02", 24000, 1200000),
        "rule": "A case is one collection of values (type, shape, order, repeats, hasher drawn from the seed) built into "
                "FrozenSets by two constructors and probed value by value; non-trivial: at least two distinct values; "
                "distinct: by type, values in order and number of repeats.",
        "must_see": {"large sets": 4, "of them absent": 10000, "of them present": 10000, "inputs with repeated values": 100},
    },
    "C03": {
        "technique": "runtime monitoring: reference-model oracle over generated workloads, checked and release builds",
        "engines": native("c03", 16000, 800000),
        "rule": "A case is one specialised map built from one collection of distinct keys (type, shape, order, hasher, slice range, "
                "capacity type drawn from the seed) and looked up key by key, also by borrowed forms; non-trivial: at least two keys; "
                "distinct: by implementation, key type and keys in order.",
        "must_see": {"large maps": 4, "of them absent": 10000, "of them present": 10000, "maps looked up by borrowed keys": 100,
                     **{n: 100 for n in ("CommonMap<u8>", "IntegerMap<u8>", "IntegerRangeMap", "LeftSliceMap<u8>", "RightSliceMap<u8>", "LengthMap<u8>", "ScanningMap")}},
        "assumptions": [DETERMINISTIC],
    },
    "C04": {
        "technique": "runtime monitoring: reference-model oracle over generated workloads, checked and release builds",
        "engines": native("c04", 16000, 800000),
        "rule": "A case is one specialised set built from one collection of distinct values (type, shape, order, hasher, slice range, "
                "capacity type drawn from the seed) and probed value by value, also by borrowed forms; non-trivial: at least two values; "
                "distinct: by implementation, type and values in order.",
        "must_see": {"large sets": 4, "of them absent": 10000, "of them present": 10000, "sets looked up by borrowed values": 100,
                     **{n: 100 for n in ("CommonSet<u8>", "IntegerSet<u8>", "IntegerRangeSet", "LeftSliceSet<u8>", "RightSliceSet<u8>", "LengthSet<u8>", "ScanningSet")}},
        "assumptions": [DETERMINISTIC],
    },
    "C05": {
        "technique": "runtime monitoring: conservation oracle over the recorded items of every view of a collection",
        "engines": native("c05", 12000, 600000),
        "rule": "A case is one map or set of any implementation whose views (iteration by reference, keys, values, Set::iter, consuming "
                "iteration, Debug) are recorded several times and compared with its input and with one another; non-trivial: at least two "
                "entries; distinct: by implementation, key type and keys in order.",
        "must_see": {"collections whose views agreed": 1000, "sets consumed": 1000, "Debug outputs compared": 1000},
        "assumptions": [DETERMINISTIC],
    },
    "C06": {
        "technique": "runtime monitoring: online checker of the iterator contract at many points of consumption",
        "engines": native("c06", 24000, 1000000, features="proto"),
        "rule": "A case is one collection, or one set operation on two sets, each of whose iterators is advanced to many points at which "
                "size_hint, len, count, fold, nth, last, Debug, clones and behaviour beyond the end are checked; non-trivial: at least two "
                "items; distinct: by implementation, key type and keys in order.",
        "must_see": {"iterator states checked": 10000, "iterator states with Debug and clones checked": 10000, "states of set operation iterators checked": 10000},
        "assumptions": [DETERMINISTIC],
    },
    "C07": {
        "technique": "runtime monitoring: reference-model oracle over generated pairs of sets of every two implementations",
        "engines": native("c07", 12000, 600000),
        "rule": "A case is one pair of value collections (related as named in the events) built as every pair of set types, on which every "
                "set operation, operator and predicate runs both ways; non-trivial: a non-empty set; distinct: by the two lists.",
        "must_see": {"operators checked": 10000, "is_subset = true": 1000, "is_subset = false": 1000, "is_disjoint = true": 1000, "is_disjoint = false": 1000},
        "assumptions": [DETERMINISTIC],
    },
    "C08": {
        "technique": "runtime monitoring: reference-model oracle over generated pairs of collections",
        "engines": native("c08", 12000, 600000),
        "rule": "A case is one collection compared with others built from the same entries in another order, by another hasher, or as another "
                "implementation, and with collections that differ in one key, one value, or many; non-trivial: at least two entries; "
                "distinct: by implementation, key type and keys in order.",
        "must_see": {"equal pairs": 10000, "unequal pairs": 10000, "equal pairs of different implementations": 1000, "maps with values that don't equal themselves": 100},
        "assumptions": [DETERMINISTIC],
    },
    "C09": {
        "technique": "runtime monitoring: state comparison with a reference model after every recorded write",
        "engines": native("c09", 12000, 600000, features="many"),
        "rule": "A case is one map of any implementation and a history of writes (get_mut, index, get_many_mut, swaps) after each of which the "
                "whole map is compared with the model; non-trivial: at least two keys; distinct: by implementation, types and keys in order.",
        "must_see": {"writes through get_mut": 10000, "writes through indexing": 1000, "writes through get_many_mut": 1000, "maps compared whole": 1000,
                     "maps written through and through": 1000},
        "assumptions": [DETERMINISTIC],
    },
    "C10": {
        "technique": "runtime monitoring: reference-model oracle natively; Miri (tree borrows) on small maps",
        "engines": native("c10", None, 600000, features="many", kinds=("release",)) + sanitized("c10", (6000, 100000), (48, 20000), features="many"),
        "rule": "A case is one get_many_mut request (0 to 12 keys, also repeated and missing ones, in any order) to one map of any "
                "implementation; non-trivial: at least two keys requested; distinct: by implementation, key type, keys and request.",
        "must_see": {"granted": 10000, "refused for a repeated key": 1000, "refused for a missing key": 1000, "refused for both": 1000,
                     "large requests granted": 100, "large requests refused": 100},
        "assumptions": [DETERMINISTIC],
    },
    "C11": {
        "technique": "runtime monitoring: registered keys and values, clone counting, address and state comparison",
        "engines": native("c11", None, 600000, kinds=("release",)) + sanitized("c11", (4000, 100000), None),
        "rule": "A case is one collection of any implementation, cloned (also over another collection, and from a clone), after which either "
                "side is written to, dropped or consumed while the others are compared with what they were; non-trivial: at least two "
                "entries; distinct: by implementation, key type and keys in order.",
        "must_see": {"clones compared": 5000, "survivors compared": 5000, "writes that stayed on one side": 10000, "cloned over another map": 500, "cloned over a map of the same length": 300},
        "assumptions": [DETERMINISTIC],
    },
    "C12": {
        "technique": "runtime monitoring: drop registry and allocation accounting over life histories with injected panics",
        "engines": native("c12", None, 800000, features="many", kinds=("release",)) + sanitized("c12", (16000, 200000), None, features="many"),
        "rule": "A case is the life of one collection of any implementation and its clones (construction, which may panic; lookups, writes, "
                "clones, consumption in part, drops in any order), with a census of everything alive after each step; non-trivial: at least "
                "two keys; distinct: by implementation, key type and keys in order.",
        "must_see": {"censuses taken": 10000, "constructions that panicked": 500, "of them by injected panics": 500, "clones made": 5000,
                     "sets consumed, also part way": 1000, "sets consumed by other ways": 1000, "clones that panicked": 500},
        "assumptions": [],
    },
    "C13": {
        "technique": "Miri (tree borrows) and AddressSanitizer on broad generated API histories; checked native runs",
        "special": "borrows",
        "engines": native("c13", None, 600000, features="many", kinds=("release",)) + sanitized("c13", (12000, 200000), None, features="many") + sanitized("c13", None, (96, 20000), features="many,proto"),
        "rule": "A case is a history of some 12 to 60 calls of every kind on a pool of collections of any implementation (and their clones), "
                "or set operations on any two sets, or slices hashed over any range, or keys that borrow as something dissimilar, that have "
                "the name or representation of specially treated types, or capacity types that lie; everything returned is read in full; "
                "or one misuse of what a collection lends (compiled against the library; must be refused). "
                "Non-trivial: at least two keys, or any of the special cases; distinct: by implementation, types and keys in order.",
        "must_see": {"calls": 100000, "set operations": 1000, "slices hashed": 10000, "slice collections": 100, "slice collections refused": 50,
                     "look-alike keys": 100, "lies of capacity types": 10000, "maps with dissimilar borrowed keys": 100, "iterator protocols": 1,
                     "misuses refused": 2000},
        "assumptions": ["Miri's tree borrows model decides aliasing; what never executes isn't judged."],
    },
    "C14": {
        "technique": "fault injection at every user call and lying user code, under a drop registry, ASan and Miri",
        "level": "fault_enumeration",
        "engines": native("c14", None, 600000, features="many", kinds=("release",)) + sanitized("c14", (7000, 100000), (24, 4000), features="many"),
        "rule": "A case is one collection (or pair of sets) with either a panic injected into the k-th call of the user's code, for every k up to "
                "60 (sampled beyond), of its construction and of each operation, or user code that lies (always, at random, sometimes, per "
                "instance) during construction and use; non-trivial: at least two keys; distinct: by implementation, keys and lies.",
        "must_see": {"constructions failed": 10000, "reads and writes failed": 10000, "drops failed": 1000, "set operations failed": 1000,
                     "false answers given": 100000, "rounds of reads survived": 5000, "references obtained from liars": 1000},
        "assumptions": ["One injected panic at a time; a second panic while unwinding aborts by Rust's rules."],
    },
    "C16": {
        "technique": "runtime monitoring: acceptance predicate and conservation oracle at every boundary of capacities and ranges",
        "engines": native("c16", 3000, 200000),
        "rule": "A case is one construction: of a collection with a size around what its capacity type counts (from vectors, iterators, "
                "arrays), or of integer-range collections from keys that are or aren't a run; an accepted collection is compared whole with "
                "its input. Distinct: by implementation, size and keys.",
        "must_see": {"accepted, exactly full": 200, "refused, one too many": 200, "ranges accepted": 500, "ranges refused": 500,
                     "range keys: a repeat hides a gap": 50, "collections from arrays": 200},
        "assumptions": ["Keys given to specialised collections other than the range ones are distinct."],
    },
    "C17": {
        "technique": "runtime monitoring: counting allocator and hash counters around every construction, watchdog on CPU time",
        "engines": native("c17", 12000, 200000),
        "rule": "A case is one construction from keys and a hasher chosen to collide in tables, to defeat the analysis of subslices, or to be "
                "ordinary, measured by a counting allocator and by counting hashers and keys; non-trivial: at least two keys; distinct: by "
                "implementation and keys in order.",
        "must_see": {"hashers that spread badly": 500, "hash codes computed": 1000000, "times counted keys were hashed": 1000000, "collections of millions": 1,
                     "keys: equal lengths, differing far apart": 50},
        "assumptions": ["Linear means within twice to four times what construction takes today for each entry; see DESIGN.md."],
    },
    "C18": {
        "technique": "runtime monitoring: counting hashers, keys, comparisons and slices around every lookup",
        "engines": native("c18", 20000, 400000),
        "rule": "A case is one collection, each of whose lookups is measured: hash codes computed and by which hasher, slices read, keys "
                "compared, or, for large collections of primitive keys, time taken; non-trivial: at least two keys; distinct: by "
                "implementation and keys in order.",
        "must_see": {"lookups whose hash codes were counted": 10000, "lookups that used the supplied hasher": 10000, "slices read": 10000,
                     "comparisons counted": 100000, "large collections timed": 5, "requests for several values": 1000,
                     **{n: 10 for n in ("LeftSliceMap", "LeftSliceSet", "RightSliceMap", "RightSliceSet", "CommonMap", "CommonSet", "IntegerMap",
                                        "IntegerSet", "LengthMap", "LengthSet", "FrozenMap of integers")}},
        "assumptions": ["Well spread means a hasher whose codes look random; small constant means 2.5 comparisons for keys that are there, 2 for others."],
    },
    "C20": {
        "technique": "runtime monitoring: independently counted contents as oracle for Len of every supported type",
        "engines": native("c20", 16000, 400000),
        "rule": "A case is a family of values of one size (strings of all kinds with their pointers, standard collections with theirs, the "
                "library's collections with theirs, or length-hashed collections keyed by all of these); non-trivial: not empty; distinct: by "
                "contents.",
        "must_see": {"lengths timed": 50, "of them zero": 1000, "of them more than zero": 10000, "lookups by borrowed forms": 10000,
                     **{n: 100 for n in ("String", "str", "CStr", "CString", "OsStr", "OsString", "slice", "Vec", "VecDeque", "LinkedList", "BinaryHeap",
                                         "BTreeMap", "BTreeSet", "HashMap", "HashSet", "Box<str>", "Rc<str>", "Arc<str>", "Rc<CStr>", "Arc<OsStr>",
                                         "FrozenSet", "CommonMap", "CommonSet", "IntegerMap", "IntegerSet", "IntegerRangeMap", "IntegerRangeSet",
                                         "ScanningMap", "ScanningSet", "LengthMap", "LengthSet", "LeftSliceMap", "LeftSliceSet", "RightSliceMap",
                                         "RightSliceSet")}},
    },
    "C21": {
        "technique": "runtime monitoring: recording hasher that tells any bytes apart, reference-model oracle",
        "engines": native("c21", 16000, 600000),
        "rule": "A case is a collection of byte strings, slices of which (of any range, some not within them) are hashed, elsewhere too and "
                "with one bit changed; or slice collections over one range (often reaching beyond keys) looked up key by key; non-trivial: "
                "more than one; distinct: by contents and range.",
        "must_see": {"slices hashed": 10000, "ranges refused": 1000, "equal slices in other places": 10000, "slices with one bit different": 10000,
                     "collections whose range lies in every key": 200, "collections whose range reaches beyond some key": 1000},
    },
    "C15": {
        "technique": "ThreadSanitizer, Miri's race detector with many schedules, and native stress, each reader against a model",
        "engines": native("c15", 12000, 200000, kinds=("release",)) + [
            {"kind": "tsan", "bin": "c15", "stream": 20, "quick": {"cases": 3000, "shards": 8, "budget": 100}, "thorough": {"cases": 100000, "shards": 8, "budget": 1500}},
        ] + sanitized("c15", None, (48, 20000), miriflags="-Zmiri-preemption-rate=0.1"),
        "rule": "A case is one collection (or two sets) of any implementation read by 2 to 6 threads at once, each drawing its reads from its own "
                "generator, comparing every answer with a model, and pausing inside the user's Hash and Eq; then handed to a thread that "
                "clones and drops it. Non-trivial: at least two keys; distinct: by implementation, types and keys in order.",
        "must_see": {"collections read by many threads": 1000, "pairs of sets read by many threads": 300, "steps of readers": 100000,
                     "switches between readers": 10000, "distinct interleavings": 500, "auto traits probed": 1000, "collections handed over": 300},
        "assumptions": ["Schedules are sampled; Miri and ThreadSanitizer report races between unordered accesses also when the schedule seen was harmless."],
    },
    "C19": {
        "technique": "runtime monitoring: generated programs compiled and run, each map checked against what was written down",
        "special": "programs",
        "rule": "A case is one frozen_map! invocation (key type, shape and number of keys, style of literals, kind of value expressions, context "
                "drawn from the seed) in a program that is compiled against /repo and run, or one program with a literal that doesn't fit, which "
                "must not compile, next to the same with one that does; non-trivial: at least two entries; distinct: by tokens.",
        "must_see": {"maps compared with what was written": 500, "literals that don't fit, refused": 30, "key type &str": 50},
        "assumptions": ["Keys of integer types and of &str maps are literals."],
    },
}
