"""What each check runs and says about itself."""

VEC_DOMAIN = "Element types of 2..2^64-1 values in all six vector types; sizes, positions and values are biased to block and width boundaries. "

# property: (binaries, cases per profile in the quick tier, rule)
HARNESS = {
    "P01": (["vecs"], 3_000_000, VEC_DOMAIN + "A case is a history of safe calls applied to a packed vector and to a Vec; outcome and contents are compared after every call. Non-trivial: at least 4 mutating calls and more than one block of elements at some time."),
    "P02": (["vecs"], 3_600_000, VEC_DOMAIN + "A case is a vector (with stale bits past its end) and inserts and removes on it, compared with Vec. Non-trivial: at least one insert or remove that moved elements."),
    "P03": (["vecs"], 6_000_000, VEC_DOMAIN + "A case is a constructor (from_elem, from_slice, From<Vec>, collect with honest but loose size hints, enum_vec!) followed by growth (extend, resize, push), compared with Vec. Non-trivial: more than one block of elements was produced."),
    "P04": (["vecs"], 3_000_000, VEC_DOMAIN + "A case is pairs of vectors going through append and split_off, with edits, clones and growth of both halves afterwards, compared with Vecs. Non-trivial: elements were moved."),
    "P05": (["vecs"], 6_000_000, VEC_DOMAIN + "A case is a vector (with stale bits past its end) on which any and all, for all kinds of predicates, are compared with testing every element. Non-trivial: more than one element."),
    "P06": (["vecs"], 1_200_000, VEC_DOMAIN + "A case is two vectors reached by different histories, with the same or nearly the same elements: ==, hash (byte stream and SipHash), Debug, clones and their independence are compared with those of the element lists. Non-trivial: more than one element."),
    "P07": (["vecs"], 6_000_000, VEC_DOMAIN + "A case is a vector and a script of next, next_back, nth, len, size_hint, clone, fold, rev, count, last on iter() or into_iter(), compared with the same script on a slice's iterator. Non-trivial: more than one element and a non-empty script."),
    "P08": (["vecs"], 3_600_000, VEC_DOMAIN + "A case is a growth path (any constructor, pushes, extends, appends, resizes...); the number of storage blocks and the capacity in use are compared with the documented density. Non-trivial: a measured vector of more than one block."),
    "P09": (["vecs"], 1_200_000, VEC_DOMAIN + "A case is a history with with_capacity, reserve and shrink_to_fit; capacity() lower bounds, absence of reallocation below the promised capacity and unchanged contents are checked. Non-trivial: a vector was filled up to its promised capacity or has more than one block."),
    "P10": (["vecs"], 450_000, VEC_DOMAIN + "A case is a history of safe calls, including refused ones, panicking callbacks and lying iterators, under std's precondition checks, guard bytes around every allocation, AddressSanitizer (and Miri in the thorough tier); each history runs twice with different bytes in fresh memory and must behave the same. Non-trivial: at least 5 calls and more than one block."),
    "P11": (["vecs"], 750_000, "A case is one history applied to every vector type that takes the element type; outcomes, contents, Debug and backward iteration must agree. Non-trivial: at least 4 calls and more than 2 elements."),
    "P12": (["vecs"], 1_800_000, VEC_DOMAIN + "A case is a vector and out-of-range requests (indices, ranges, reservations) which must be refused like Vec refuses them, leaving the vector as it was. Non-trivial: a request was made."),
    "P13": (["vecs", "sets"], {"vecs": 2_400_000, "sets": 400_000}, VEC_DOMAIN + "A case is a vector (or set) and a callback or iterator that panics at a generated point or misreports its length, then further edits and observation. Non-trivial: the fault was reached."),
    "P14": (["widths"], 6_000_000, "A case is a vector of an element type of generated width (every width from 1 to 64 on every storage, both ends of each width's range) and sets, pushes, swaps at generated positions, compared with an array; every element is looked at after each step. Non-trivial: at least one set on more than one element."),
    "P16": (["vecs", "sets"], 900_000, "A case is a history on a vector or set whose element type records every number it is asked to decode (and whether it was stored). Non-trivial: more than a handful of decodes."),
    "P17": (["vecs"], 3_600_000, VEC_DOMAIN + "A case is a history mixing raw calls (get_raw, set_raw, set_len, storage access) with safe ones; both views must agree. Non-trivial: a raw call was compared."),
    "P27": (["vecs", "sets"], {"vecs": 3_000_000, "sets": 600_000}, VEC_DOMAIN + "A case is one of: growth by many small steps in one of seven ways, counting moves of the storage (at most logarithmically many); a history during which the storage must not shrink, nor move when elements are only removed or overwritten; a history run twice after which as many bytes must be allocated as before; a history of set calls with bounds on the capacity and the same accounting. Non-trivial: more than 8 blocks were added; something was removed from a vector with storage; at least 4 calls."),
    "P28": (["vecs", "sets"], {"vecs": 20_000, "sets": 4_000}, VEC_DOMAIN + "A case is a vector of 4 MB (a set of values up to 2^26) on which constant-time calls are made at generated positions, each of which must at least once in 13 attempts take less than 60 microseconds of processor time; or one call on a short and a 256 times longer vector or set, whose times must not differ by more than 40 times that factor. Non-trivial: every case."),
    "P21": (["likes"], 9_000_000, "A case is a type of 0..2^64-1 values and an access script (next, nth, size_hint, fold, count, last, collect...) on values(), compared with a counter. Non-trivial: at least two steps and either a skip or more than 2 values."),
    "P22": (["likes"], 1_800_000, "A case is a type of at most 256 / 65536 values and several values: round trip through PackedU8/PackedU16, size, ==, order, hash and Debug compared with the encodings'. Non-trivial: at least two values."),
    "P23": (["sets"], 900_000, "A case is a history of set calls on an EnumSet and on a BTreeSet of encodings, outcomes and contents compared after every call. Non-trivial: at least two calls that changed the set."),
    "P24": (["sets"], 480_000, "A case is two sets reached by generated histories; union, intersection, difference, symmetric_difference, their iterators, in-place forms, operators, is_subset, is_superset, is_disjoint and algebraic laws are compared with BTreeSet. Non-trivial: both non-empty and different."),
    "P25": (["sets"], 720_000, "A case is two sets with the same or nearly the same values reached by different histories; ==, order, hash, Debug, len, iteration order and iterator protocol are compared with BTreeSet. Non-trivial: more than one value."),
}

# histories on every element width of every storage: cases in the build with overflow checks (in
# the quick tier only there, as the binary takes long to build)
WIDTHS = {p: 1_000_000 for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P08")}
for _p in WIDTHS:
    _b, _c, _r = HARNESS[_p]
    HARNESS[_p] = (_b, _c, _r + " Shorter histories on element types of every width (both ends of its range) in every storage are run besides.")

# cases on vectors of up to 2^32 elements or bits (optimised build only)
XL = {"P01": 30, "P02": 20, "P03": 16, "P04": 24, "P05": 16, "P06": 16, "P07": 24, "P08": 20, "P09": 20, "P12": 24, "P14": 24, "P17": 24}
XL_CPU = 150

# what is run where usize has 32 bits: (property, binary, cases per build)
W32 = []
for _p, (_b, _c, _r) in HARNESS.items():
    if _p != "P28":
        W32 += [(_p, b, (_c if isinstance(_c, int) else _c[b]) // 12) for b in _b]
    if _p in WIDTHS:
        W32.append((_p, "widths", WIDTHS[_p] // 12))
    if _p in XL:
        W32.append((_p, "xl", XL[_p]))
W32_PROGRAMS = [("P18", 320, 20), ("P19", 240, 20), ("P20", 160, 20), ("P26", 48, 6), ("P15", (60, 30), 20), ("P30", (100, 80), 20)]
HARNESS["P31"] = ([], 0, "A case is one of P01 to P27 and P30 (see there for what is generated, what it is compared with and which cases are non-trivial), with types of up to 2^32-1 values and, in an optimised build, vectors of up to 2^32-1 elements, run as a 32-bit program.")

PROGRAMS = {
    "P15": "A case is a program that stores elements of a generated type in a packed vector or wrapper, by a generated way of storing; rustc must accept it (and it must run) exactly if the number of values fits. Non-trivial: every case; distinct by program text.",
    "P30": "A case is a nesting of built-in and derived types with slightly (sometimes much) more than 2^64-1 values in one of the ways of using NUM_VARIANTS or a container, which rustc must refuse in both builds; or one of just at most 2^64-1 values, whose number of values, encoding and decoding are compared with its description. Non-trivial: every case; distinct by program text.",
    "P18": "A case is a nesting of built-in types (also with zero or one value, and around products close to 2^64), compiled against /repo with its mixed-radix specification; the number of values, encoding and decoding of all (or edge-biased) values are compared. Non-trivial: at least 2 values and a nested type.",
    "P19": "A case is one to four type definitions (structs, enums, generics, where clauses, attributes, macros, names that might clash) with a derived implementation, compiled against /repo next to a hand-generated specification of each type; number of values, encoding and decoding are compared. Non-trivial: a type with at least 2 values and a field.",
    "P20": "A case is an enum without data with generated names, discriminants and representation; encodings must be 0.. in declaration order and decoding anything at or past the count must panic. Non-trivial: at least 2 variants.",
    "P26": "A case is generated type definitions and values going through vectors of every block size, sets and wrappers, compared with plain lists. Non-trivial: a type of at least 2 values.",
    "P29": "A case is generated type definitions and, for each, vectors, sets and wrappers with generated contents: a generated script of reads must give on two to four threads at once what it gives on one; iterators and edited containers are moved between threads; that all of this compiles shows the containers and iterators to be Send, Sync and covariant. Non-trivial: a type of at least 2 values.",
}
# number of cases in the quick tier, and per program
PROGRAM_CASES = {"P18": (2400, 20), "P19": (1600, 20), "P20": (2000, 20), "P26": (216, 6), "P29": (144, 6), "P15": ((720, 240), 20), "P30": ((400, 320), 20)}

ASSUME = [
    "the harness's reference models (Vec, BTreeSet, mixed-radix counting) and its element types' EnumLike implementations are right",
    "debug (overflow checks, debug assertions) and optimised builds of the installed rustc stand for how the crates are used",
]
