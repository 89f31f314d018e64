import os
HERE = os.path.dirname(os.path.abspath(__file__))
"""The checks: per property, which harness units are built in which variants, and what they bound."""
def U(src, variant, flags=(), jobs=8, libs=(), tag=""):
    return dict(name=src.replace(".cc", "") + "-" + variant + (("-" + tag) if tag else ""), src=src, variant=variant, flags=list(flags), jobs=jobs, libs=list(libs), tag=tag)
STUB = "-I" + os.path.join(HERE, "mc", "stub")
def parts(src, variant, n, extra=(), jobs=8):
    return [U(src, variant, ["-DPART=%d" % k, "-DPARTS=%d" % n] + list(extra), jobs, tag="p%d" % k) for k in range(n)]

FAR = (4, 5, 6, 7, 10, 12, 16, 18, 19, 20, 21, 24, 31)  # properties with a harness for offsets beyond 32 bits
def far(prop, *variants):
    return [U("far.cc", v, ["-DPROP=%d" % prop], tag="far") for v in variants or ("A0", "N")]
TYPES = {5: ("A0", "N0"), 6: ("A0", "N0"), 10: ("A0", "N0"), 16: ("A0", "N0")}  # properties with a harness for all kinds of elements
EINT = {19: ("A0", "N0"), 20: ("A0", "N0")}  # expressions over all kinds of elements and pairs of types
# properties whose harness also runs a suite with large extents in one dimension
LARGE = {"C04": 4097, "C05": 4097, "C06": 4097, "C15": 65, "C16": 4097, "C23": 4097, "C24": 4097, "C31": 4097}
R48 = "ranks 4-8 in every order of the dims in memory, alone and empty, with few extents and strides"
NEST = "boxes inside each other and shifted boxes in the same layout"
WIDE = "values that agree in their low 31 or 32 bits"
EXTRA = {**{i: R48 for i in ("C04", "C05", "C16", "C24", "C31")}, **{i: NEST for i in ("C10", "C11", "C12", "C13", "C14", "C15")},
         "C06": R48 + "; two allocators", "C22": R48 + "; extents, strides and spans beyond 2^32 (arithmetic only)", "C23": R48 + "; extents, strides and spans beyond 2^32 (arithmetic only)",
         "C17": WIDE, "C25": WIDE, "C03": "mins near 2^31 and 2^32", "C08": "mins near 2^31 and 2^32", "C19": "up to 7 loop indices, operands of rank up to 6; one loop of up to 129", "C20": "up to 7 loop indices, operands of rank up to 6; one loop of up to 129", "C09": "mins near 2^31 and 2^32", "C21": "owning images with two allocators; images with one side to 257"}
CHECKS = {}
def check(id, units, level, bounds, rule="", assumptions=(), compare=None, technique="", note=""):
    if id in LARGE: bounds["quick"] += "; one large extent (all to 40, and around powers of two to %d)" % LARGE[id] if LARGE[id] > 65 else "; one large extent (to 65)"
    if int(id[1:]) in FAR: bounds["quick"] += "; strides, mins and extents beyond 2^31 and 2^32 on sparse memory"
    if int(id[1:]) in TYPES: bounds["quick"] += "; 23 kinds of elements (integers, floating point with -0.0 and NaN, padded, aligned and odd sizes, enumerations, pointers to members, strings, owners" + ("" if id in ("C10", "C16") else ", and conversions between them") + ") on small and large layouts"
    if int(id[1:]) in EINT: bounds["quick"] += "; 10 arithmetic types, complex numbers, strings and a type none of whose operators commute or imply each other, in 19 expressions of nothing but arrays, views and scalars; 11 mixtures of destination and operand types; infinities, zeros of both signs and not-a-number"
    if id in EXTRA: bounds["quick"] += "; " + EXTRA[id]
    CHECKS[id] = dict(units=units, level=level, bounds=bounds, rule=rule, assumptions=list(assumptions), compare=compare, technique=technique, note=note)
def units(id, tier):
    u = CHECKS[id]["units"](tier == "thorough")
    if int(id[1:]) in FAR: u = u + far(int(id[1:]))
    if int(id[1:]) in TYPES: u = u + [x for v in TYPES[int(id[1:])] for x in parts("types.cc", v, 4, ["-DPROP=%d" % int(id[1:])])]
    if int(id[1:]) in EINT: u = u + [x for v in EINT[int(id[1:])] for x in parts("eint.cc", v, 4, ["-DPROP=%d" % int(id[1:])])]
    assert len({x["name"] for x in u}) == len(u)
    return u

RULE = ("Every choice vector of the harness's bounded choice tree is executed once on the real code and compared with the reference model. "
        "A leaf is non-trivial if it reaches the compared behaviour on a non-empty case; distinct_nontrivial counts distinct digests of what was observed. ")

check("C01", lambda t: parts("c01.cc", "A", 3) + parts("c01.cc", "N", 3) + (parts("c01.cc", "I", 3) if t else []),
      "exploration",
      {"quick": "ranks 0-2 over 7 dim types (57 shape types), rank 3 over 4 (64), rank 4 over 2 (16), ranks 5-7; per run-time field 2-7 values; all indices; box one larger for membership; magnitudes to 2^62",
       "thorough": "same types, larger value alphabets, and with 32-bit indices"},
      RULE, technique="exhaustive bounded enumeration of shapes and indices on the real code against a reference affine map")
check("C02", lambda t: parts("c02.cc", "A", 2) + parts("c02.cc", "N", 2) + (parts("c02.cc", "I", 2) if t else []),
      "exploration",
      {"quick": "rank 1-2: 56 shape types, extents {0..5,7,8}, 12 stride values; rank 3: 27 types, 5 extents, 9 strides; rank 4-5 dynamic and dense; magnitudes to 2^34 strides",
       "thorough": "rank 4-5 with larger alphabets; 32-bit indices"},
      RULE, technique="exhaustive bounded enumeration of shapes on the real code against a reference stride allocator and brute-force injectivity")
check("C03", lambda t: parts("c03.cc", "A", 4) + parts("c03.cc", "N", 4) + (parts("c03.cc", "I", 4) if t else []),
      "exploration",
      {"quick": "ranks 0-7, 40 + 18 shape types (incl. matrix, chunky, planar, fixed), extents to 1000 (rank 1), 33 (rank 2), 4 (rank 3), 3 (rank 4-5), 2 (rank 6-7); all loop orders of ranks 1-4 and of their leading dims",
       "thorough": "more mins and extents; 32-bit indices"},
      RULE, technique="exhaustive bounded enumeration of shapes and loop orders on the real code; full call logs compared with reference loop nests")
check("C04", lambda t: parts("c04.cc", "A", 6) + parts("c04.cc", "N", 6) + ([U("c04.cc", "F", ["-DPART=%d" % k, "-DPARTS=6"], tag="p%d" % k) for k in (1, 2)] if t else []),
      "exploration",
      {"quick": "values: ranks 0-6, 31 + 33 + 20 shape types (matrix, chunky, planar, fixed), strides incl. 0, negative, padded, fusable; pairs: 38 pairs of shape types of rank 0-4",
       "thorough": "larger stride and extent alphabets; also -ffast-math -march build"},
      RULE, technique="exhaustive bounded enumeration of layouts and layout pairs on the real code; visited addresses compared with the reference multiset")
check("C05", lambda t: parts("c05.cc", "A", 4) + [U("c05.cc", "N", ["-DPART=%d" % k, "-DPARTS=4"], tag="p%d" % k) for k in (0, 1, 3)] + [U("c05.cc", "N", ["-DPART=2", "-DPARTS=3", "-DAFLAGS=0"], tag="p2"), U("c05.cc", "G", ["-DPART=2", "-DPARTS=3", "-DAFLAGS=0"], tag="p2")] + ([U("c05.cc", "S", ["-DPART=2", "-DPARTS=3", "-DAFLAGS=0"], tag="p2")] if t else []),
      "exploration",
      {"quick": "views: 42 pairs of shape types of rank 0-4, source strides incl. 0 and negative, all contained destination regions of the alphabet; arrays: 15 pairs x 16 functions with instrumented elements and allocators, propagating (clang) and not (clang without assertions, g++)",
       "thorough": "larger alphabets"},
      RULE, technique="exhaustive bounded enumeration of layout pairs on the real code; whole-buffer comparison with a model, instrumented elements and allocators")
check("C06", lambda t: parts("c06.cc", "A", 3) + parts("c06.cc", "N", 3),
      "exploration",
      {"quick": "42 shape types of rank 0-5 (matrix, chunky, planar, fixed), non-aliasing strides incl. negative and padded; 8 functions each on views and arrays",
       "thorough": "larger alphabets"},
      RULE, technique="exhaustive bounded enumeration of layouts on the real code; write counts and call logs compared with a whole-buffer model")
check("C07", lambda t: parts("c07.cc", "A0", 8) + parts("c07.cc", "N", 8),
      "exploration",
      {"quick": "ranks 1-6, 21 parent shape types, 10 kinds of argument (all mixtures for ranks 1-4), all sub-ranges and indices in range; views of every view; array_ref, array, const and null parents",
       "thorough": "larger alphabets of parents"},
      RULE, technique="exhaustive bounded enumeration of parents and slice arguments on the real code; addresses compared with the reference affine map")
check("C08", lambda t: [U("c08.cc", "A"), U("c08.cc", "N"), U("c08.cc", "G")] + ([U("c08.cc", "I")] if t else []),
      "exploration",
      {"quick": "13 interval and dim types, extents 0-40, 5 mins, run-time factors 1-45; 24 compile-time splits with extents to 59; every random access from every stepped iterator (up to 12 intervals); magnitudes to 2^41; counts to 2^50 (count, random access at both ends and in the middle); tilings of arrays up to 7x7",
       "thorough": "extents to 199; 32-bit indices"},
      RULE, technique="exhaustive bounded enumeration of intervals and factors on the real code against a reference list of intervals")
check("C09", lambda t: [U("c09.cc", "A"), U("c09.cc", "N"), U("c09.cc", "G")] + ([U("c09.cc", "I")] if t else []),
      "exploration",
      {"quick": "1-6 ranges; all extents to 140 (1 range), 18 and 63-65 (2), 9 and 17 (3), 5 (4), 3 (5), 2 (6); intervals, dims, vectors, run-time and compile-time splits as ranges",
       "thorough": "extents to 40 (2 ranges), 13 (3), 7 (4), 5 (5), 3 (6)"},
      RULE, technique="exhaustive bounded enumeration of extents on the real code; call sequence compared with the sorted Morton codes")
check("C27", lambda t: [U("c27.cc", "A"), U("c27.cc", "N"), U("c27.cc", "G")] + ([U("c27.cc", "I"), U("c27.cc", "17")] if t else []),
      "exploration",
      {"quick": "11 interval types, 15 dim types, 36 pairs of interval types; mins to 2^50, extents to 40; all members, near and far non-members, all iterator positions",
       "thorough": "also 32-bit indices and C++17"},
      RULE, technique="exhaustive bounded enumeration of intervals on the real code against sets of integers")
def hist(prop, variant, n, jobs=8, extra=()):
    return [U("hist.cc", variant, ["-DPROP=%d" % prop, "-DPART=%d" % k, "-DPARTS=%d" % n] + list(extra), jobs, tag="p%d" % k) for k in range(n)]
HRULE = ("From every reachable state of the slots every enabled operation is executed on the real code beside the reference model, to the stated depth; "
         "a state is the whole memory of slots and blocks up to renaming of addresses; states reached again with no more operations left are not expanded again. ")
HB = "histories of 22 kinds of operations (those that copy also from moved-from arrays, reshapes also of them) on 2 (some 3) arrays of copyable or move-only elements, 12 shape families (static, partly static, dynamic, padded, negative-stride, ranks 0-5, image, extents to 4000 with one operation less), "
def relabel(prop):
    return [U("relabel.cc", v, ["-DPROP=%d" % prop]) for v in ("A", "N")]
RB = "; all histories of 3 operations (12 kinds, among them set_shape and move_reinterpret_shape to every one of 5 shapes at up to 3 offsets) on 2 arrays of int, ranks 1 and 2, 6 allocator kinds"
check("C10", lambda t: hist(10, "A", 4) + hist(10, "N", 4) + relabel(10), "model_checking",
      {"quick": HB + "13 allocator kinds, 34 combinations; all histories of 4 operations" + RB, "thorough": "5 operations"}, HRULE,
      technique="explicit-state exploration of operation histories on the real containers beside a reference model")

check("C11", lambda t: hist(11, "A", 4) + hist(11, "N", 4), "model_checking",
      {"quick": HB + "13 allocator kinds, 34 combinations; all histories of 4 operations; every element tracked", "thorough": "5 operations"}, HRULE,
      technique="explicit-state exploration of operation histories on the real containers with every element's lifetime tracked")
check("C12", lambda t: hist(12, "A", 4) + hist(12, "N", 4) + relabel(12), "model_checking",
      {"quick": HB + "13 allocator kinds, 34 combinations; all histories of 4 operations; every block tracked" + RB, "thorough": "5 operations"}, HRULE,
      technique="explicit-state exploration of operation histories on the real containers with every block, allocator and element transfer tracked")
check("C13", lambda t: hist(13, "A", 4, extra=["-DDQ=3", "-DDT=4"]) + hist(13, "N", 4, extra=["-DDQ=3", "-DDT=4"]), "fault_enumeration",
      {"quick": HB + "13 allocator kinds, 34 combinations; all histories of 3 operations, with every choice of up to two failing allocations in different operations", "thorough": "4 operations"}, HRULE,
      technique="exhaustive fault injection: every allocation of every operation of every history fails, on the real containers beside a reference model")
check("C14", lambda t: hist(14, "A", 2) + hist(14, "N", 2) + [U("c14.cc", "A"), U("c14.cc", "N")], "model_checking",
      {"quick": HB + "13 combinations with in-object capacities 1-32; all histories of 4 operations; 16 kinds of buffer (elements of 1-24 bytes, alignments to 4096) with 12 ways to obtain an array and all sizes to past the capacity; all histories of 4 operations on two such allocators themselves", "thorough": "5 operations"}, HRULE,
      technique="explicit-state exploration of operation histories on arrays with in-object buffers; location of every element, block and element transfer tracked")
check("C15", lambda t: hist(15, "A", 2) + hist(15, "N", 2) + parts("c15.cc", "A", 2) + parts("c15.cc", "N", 2), "model_checking",
      {"quick": HB + "12 combinations; all histories of 4 operations", "thorough": "5 operations"}, HRULE,
      technique="explicit-state exploration of operation histories on arrays with uninitialized allocators, and enumeration of constructions on poisoned memory")
check("C16", lambda t: parts("c16.cc", "A", 4) + parts("c16.cc", "N", 4) + [U("c16.cc", v, ["-DRANKED"], tag="ranked") for v in "AN"], "exploration",
      {"quick": "19 shape types of rank 0-4, all pairs of old and new shapes of the alphabets (mins, extents incl. 0, strides resolved, padded, negative), 4 allocator kinds; reshape and reshape back; elements and blocks tracked",
       "thorough": "larger alphabets for ranks 2-4"},
      RULE, technique="exhaustive bounded enumeration of pairs of shapes on the real code against a map from index to value")
check("C17", lambda t: parts("c17.cc", "A0", 6) + parts("c17.cc", "N0", 6) + [U("c17.cc", v, ["-DFAR", "-DPART=%d" % k, "-DPARTS=3"], tag="far%d" % k) for v in ("A0", "N0") for k in range(3)], "exploration",
      {"quick": "14x14 pairs of dim types; same rank: 9x9 pairs of shape types of rank 1, 8x8 of rank 2, 6x6 of rank 3, rank 4-5; 190 pairs of shape types of different rank 0-6; all values of the alphabets (mins, extents, strides incl. unresolved); five ways to convert; views",
       "thorough": "larger alphabets"},
      RULE, technique="exhaustive bounded enumeration of pairs of shape types and of values on the real code against the reference conversion; contradicting conversions must be reported")
check("C18", lambda t: parts("c18.cc", "A0", 4) + parts("c18.cc", "N0", 4) + parts("c18t.cc", "A0", 3) + parts("c18t.cc", "G", 3), "exploration",
      {"quick": "13 shape types of rank 0-4: all ordered selections of dims and, for transpose, all lists of up to 5 dims (transpositions of all or the leading dims, reorderings); rank 5-6 some; reinterpretations between 11 shape types of rank 0-3 at every offset from just outside to just outside; 8 pairs of owning arrays x 3 allocators x every offset x 8 continuations",
       "thorough": "larger alphabets"},
      RULE, technique="exhaustive bounded enumeration of permutations, shapes and offsets on the real code; addresses compared with the reference affine map, blocks tracked")

check("C19", lambda t: parts("c19.cc", "A0", 8) + parts("c19.cc", "N0", 8) + ([U("c19.cc", "F", ["-DPART=%d" % k, "-DPARTS=8"], tag="p%d" % k) for k in range(8)] if t else []), "exploration",
      {"quick": "110 expressions (all operators, 0-4 loop indices, 0-3 operands, repeated, skipped, unused and broadcast indices; views, arrays, const, scalars, pointers, C arrays, callables), all bounds of the alphabet (mins, extents incl. 0), 3-4 layouts per operand (packed, padded, reversed, broadcast), operands wider than the destination",
       "thorough": "larger bounds; also -ffast-math -march build"},
      RULE, technique="exhaustive bounded enumeration of expressions, bounds and layouts on the real code; evaluation log and whole destination memory compared with the reference loop nest")
check("C20", lambda t: parts("c20.cc", "A0", 6) + parts("c20.cc", "N0", 6), "exploration",
      {"quick": "58 expressions (0-4 loop indices, 0-4 result indices in any order, 0-3 operands, repeated, unused and broadcast indices; static, partly static and dynamic operands), all bounds of the alphabet, 4 layouts per operand, later operands wider than the result; element types, initial values, allocators",
       "thorough": "larger bounds"},
      RULE, technique="exhaustive bounded enumeration of expressions, bounds and layouts on the real code; result bounds, layout and elements compared with the reference sum")
check("C21", lambda t: parts("c21.cc", "A", 4) + parts("c21.cc", "N", 4), "exploration",
      {"quick": "11 image formats (generic, planar, interleaved with static or dynamic channels and pixel stride), 11 memory layouts (padded, mirrored, line interleaved, broadcast), 3x4 columns, 3x3 rows, 1-4 channels incl. empty; every rectangle from 2 before to 2 after the image in both directions incl. inverted ones, far away ones, both origins; views, const views, images, crops of crops, channels of crops",
       "thorough": "larger images"},
      RULE, technique="exhaustive bounded enumeration of images and rectangles on the real code; shape and address of every pixel compared with the original's")
check("C22", lambda t: parts("c22.cc", "A0", 8) + (parts("c22.cc", "N0", 8) if t else []) + [U("c22.cc", v, ["-DRANKED"], tag="ranked") for v in ["A0"]] + [U("huge.cc", v, ["-DPROP=22"], tag="huge") for v in ("A0", "N")], "exploration",
      {"quick": "all shape types of rank 1-2 over 17 dim types, rank 3 over 8, rank 4 over 4, plus matrix, image, fixed and rank-5 types; all run-time values of the alphabet (mins, extents incl. 0, strides incl. unresolved); make_compact_copy",
       "thorough": "larger run-time alphabets"},
      RULE, technique="exhaustive bounded enumeration of shape types and run-time values on the real code against brute-force offsets")
check("C23", lambda t: parts("c23.cc", "A0", 4) + parts("c23.cc", "N0", 4) + [U("c23.cc", v, ["-DRANKED"], tag="ranked") for v in ["A0", "N0"]] + [U("huge.cc", v, ["-DPROP=23"], tag="huge") for v in ("A0", "N")], "exploration",
      {"quick": "all shape types of rank 0-2 over 11 dim types, rank 3 over 4, plus rank 4-5, matrix, image and fixed types; extents to 9, strides of the alphabet (0, negative, interleaving); 13 pairs of shape types of rank 0-3 x every offset in [-12,12]",
       "thorough": "larger alphabets"},
      RULE, technique="exhaustive bounded enumeration of shapes on the real code against brute-force sets of offsets")
check("C24", lambda t: parts("c24.cc", "A", 8) + (parts("c24.cc", "N", 8) if t else []) + [U("c24.cc", v, ["-DRANKED"], tag="ranked") for v in ["A"]], "exploration",
      {"quick": "68 pairs of shape types of rank 0-4, all pairs of run-time shapes of the alphabets (mins, extents incl. 0, strides incl. 0, negative, padded, overlapping); every single differing element; elements not equal to themselves or equal with different bytes; overlapping views of the same memory; ranks to 6; three pairs of element types; different memory between the elements; views, const views, arrays; all pairs of shapes of one type",
       "thorough": "larger alphabets"},
      RULE, technique="exhaustive bounded enumeration of pairs of layouts and single-element differences on the real code")
check("C25", lambda t: parts("c25.cc", "A0", 7) + [U("c25.cc", "A0", ["-DFAR", "-DPART=%d" % k, "-DPARTS=7"], tag="far%d" % k) for k in range(7)], "exploration",
      {"quick": "every setter, constructor, conversion and assignment of 7 interval and 12 dim types; 63 pairs of shape types of different rank; 29 pairs of shape types for copies and moves and 67 for reinterpretations, every pair of run-time shapes from one inside to one outside; splits by 7 factors; 36 Einstein expressions, every combination of consistent and inconsistent bounds; all reported exactly if out of contract, before any element is touched",
       "thorough": "larger alphabets"},
      RULE, technique="exhaustive bounded enumeration of in-contract and out-of-contract calls on the real code with assertion reports intercepted")
check("C26", lambda t: parts("c26.cc", "A0", 8) + (parts("c26.cc", "N", 8) if t else []), "model_checking",
      {"quick": "17 kinds of callables (named, const, temporary, moved, move-only, immovable, type-erased, functions, lambdas with state) x 26 functions taking callables x 14 shape types of rank 0-4; all sequences of up to 2 calls with the same callable on all run-time shapes of the alphabets",
       "thorough": "sequences of up to 3 calls, larger alphabets"},
      RULE, technique="exhaustive enumeration of callable kinds, call sequences and shapes on the real code; every call, copy, move and consumption of the callable tracked")
check("C28", lambda t: [U("c28.cc", v, ["-DPART=%d" % k, "-DPARTS=2", os.path.join(HERE, "h", "c28b.cc")], tag="p%d" % k)
      for k in range(2) for v in ["A0", "N", "F", "GN", "G1", "I0", "200"] + (["A", "N0", "S", "G", "I", "IN", "17", "20", "FN", "U"] if t else [])], "exploration",
      {"quick": "programs over 12 shape types of rank 0-4 (shape queries, traversals, copies, fills), 8 container types (all histories of 3 of 17 operations), slices, crops, reinterpretations, splits, z-order, Einstein expressions over 4 element types, vectors of length 0-70, 5 image formats, two translation units; in 7 builds: clang -O0, clang -O2 -DNDEBUG, clang -O2 -ffast-math -march=x86-64-v3, g++ -O3 -DNDEBUG, g++ -O1 -DNDEBUG, clang -O0 with 32-bit indices, clang -O0 -std=c++20",
       "thorough": "larger alphabets, histories of 4 operations; also clang -O1, -O0 -DNDEBUG, AddressSanitizer, UndefinedBehaviorSanitizer, g++ -O2, 32-bit indices at -O1 and -O2, -std=c++17 and c++20 at -O1, -ffast-math -DNDEBUG"},
      RULE, compare=True, technique="exhaustive bounded enumeration of programs and inputs; complete observation streams of every execution compared between builds")

check("C29", lambda t: parts("c29.cc", "A0", 4, [STUB]) + parts("c29.cc", "N0", 2, [STUB]) + (parts("c29.cc", "I0", 2, [STUB]) + parts("c29.cc", "200", 2, [STUB]) if t else []), "exploration",
      {"quick": "9 interval types, 12 dim types, 76 shape types of rank 0-6, all run-time values of the alphabets (mins and strides incl. negative, multi-digit and beyond 32 bits, extents incl. 0, strides incl. unresolved and 0), before and after resolve; formatted alone, inside other text and into a sink",
       "thorough": "larger alphabets, 32-bit indices, C++20"},
      RULE, technique="exhaustive bounded enumeration of intervals, dims and shapes on the real code; text compared with the text of the run-time values, through a stand-in for the formatting library")
check("C30", lambda t: [U("c30.cc", "A"), U("c30.cc", "N"), U("c30.cc", "S"), dict(U("c30.cc", "A", ["-DKNOWN"], tag="known", jobs=1), known=True)] + ([U("c30.cc", "F"), U("c30.cc", "G"), U("c30.cc", "I")] if t else []), "exploration",
      {"quick": "all pairs of fractions with numerators to 10 and denominators to 9 and some large ones; 8 kernels at 2001 points; 9 rates along x (source extents to 6) and 12 along y (64-129 output rows), 3 mins, 4 output ranges and every impulse column, impulse rows 16 apart; both axes together in 3 format pairs; heights 64-257 through several strips, widths 1-200; optimised, assertion and AddressSanitizer builds",
       "thorough": "fractions with terms to 20, source extents to 9, all kernels on both axes; also -ffast-math, g++ and 32-bit indices"},
      RULE, technique="exhaustive bounded enumeration of fractions, rates, extents and impulses on the real code; every output pixel compared with a double-precision double sum")
check("C31", lambda t: parts("c31.cc", "A0", 4) + parts("c31.cc", "N0", 4) + ([U("c31.cc", "G", ["-DPART=%d" % k, "-DPARTS=4"], tag="p%d" % k) for k in range(4)] if t else []) + [U("c31.cc", v, ["-DRANKED"], tag="ranked") for v in ["A0", "N0"]], "exploration",
      {"quick": "45 shape types of rank 0-6 (constant, partly constant, dense, broadcast, negative, image and matrix shapes); mins, extents incl. 0, strides incl. 0, negative and padded; every index; 8 kinds of view and 3 allocators of array",
       "thorough": "larger alphabets; also g++"},
      RULE, technique="exhaustive bounded enumeration of shapes, views and arrays on the real code; every accessor's value, object and element address compared with the reference shape")
check("C32", lambda t: [U("c32.cc", "A"), U("c32.cc", "N"), U("c32.cc", "F"), *[dict(U("c32.cc", "A", ["-DKNOWN=%d" % k], tag="known%d" % k, jobs=1), known=True) for k in (1, 2)]] + ([U("c32.cc", "S"), U("c32.cc", "G")] if t else []), "exploration",
      {"quick": "9 products: all extents 0-4; tiled: 4-13 rows, 11 numbers of columns around 1-3 tiles, inner extents 0-5 and around 256 and 512; 3 layouts; int, float, double; 2 convolutions with extents around the tiles",
       "thorough": "extents 0-6; 4-17 rows, all numbers of columns to three tiles; also with sanitizers and g++"},
      RULE, technique="exhaustive bounded enumeration of extents and layouts on the real code; every result element compared with a direct integer sum")

check("C33", lambda t: parts("c33.cc", "A0", 7) + parts("c33.cc", "GN", 7) + (parts("c33.cc", "200", 7) + parts("c33.cc", "I0", 7) + parts("c33.cc", "17", 7) if t else []), "exploration",
      {"quick": "all programs of the grammar: calls with 0 to rank+1 indices, intervals, _ and other things on shapes, views and arrays (const or not) of rank 0-4; dim<0..100>; all pairs of 15 interval and 27 dim types in 5 operations; all pairs of 8 shape types of rank 0-5 in 37 operations; loops, generators and visitors of all arities to 5; members of const and modifiable containers; all lists of up to rank dimensions for transpose; 6 element types; ein with 0-5 indices; 11 kinds of terms under 13 operators; clang -O0 and g++ -O3 -DNDEBUG",
       "thorough": "the same programs; also in C++17, C++20 and with 32-bit indices"},
      RULE, technique="exhaustive enumeration of all programs of a bounded grammar; each presented to overload resolution of the real code and its acceptance and result type compared with the documented rule")
