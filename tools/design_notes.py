"""Per property: the oracle, the limits of what is decided, decisions taken on the way."""
N = {
"C01": dict(oracle="the affine sum over (index, min, stride) in 64-bit (128-bit for magnitudes) arithmetic, and enumeration of all indices for the flat bounds and counts.",
  limits="flat_min and flat_max of an empty shape are not specified by the library and not compared; magnitudes are limited to offsets below 2^62."),
"C02": dict(oracle="an independent implementation of the rule documented at shape::resolve (smallest candidate stride that does not overlap, innermost dimension first) and brute-force injectivity of the result.",
  limits="shapes whose explicit strides already overlap are only required to keep their explicit strides; the no-overlap clause is checked where the explicit strides are themselves non-overlapping."),
"C03": dict(oracle="complete call logs against reference loop nests in the promised order (first dimension innermost; given loop order; images with channels innermost; matrices row by row).",
  limits="for_each_index without an order on shapes whose traits do not promise one is compared as a set."),
"C04": dict(oracle="the multiset of addresses (or pairs of addresses) obtained by enumerating all indices; no order is demanded."),
"C05": dict(oracle="a model of the whole destination buffer including the gaps; per element construction/copy/move counts; allocator identities and block counts for the functions that return arrays.",
  limits="a move whose layouts differ may copy or steal where the documentation leaves it open; only transfers that the documentation promises are demanded."),
"C06": dict(oracle="whole-buffer model, per element write counts, call order of the generator or transform function."),
"C07": dict(oracle="reference affine map: address of every element of every view, min/extent/stride of every kept dimension; views of views by composition."),
"C08": dict(oracle="reference list of intervals (run-time factor: last one clamped; compile-time factor: last one shifted), random access arithmetic of the iterators, tilings of arrays cover every element.",
  limits="a compile-time factor larger than the extent is out of contract (C25 demands the report)."),
"C09": dict(oracle="the sequence of all combinations sorted by their Morton code of positions (first range least significant)."),
"C10": dict(oracle="a map from index to value per array, updated by the documented effect of each operation; a moved-from array is only required to accept every operation; what it holds is unspecified until it is assigned, cleared or reshaped. Elements: an instrumented type, the same type without copying (move-only), and int.",
  limits="values of moved-from arrays are unspecified; self-move assignment likewise."),
"C11": dict(oracle="element ledger: construction only over raw storage, use only while alive, destruction exactly once; number of live elements equals the sum of the spans of the arrays."),
"C12": dict(oracle="block ledger with owner identities and sizes; allocator identity of every array predicted from the propagation traits; steals where promised.",
  limits="swap of arrays whose allocators are unequal and do not propagate on swap may keep or exchange allocators (the library moves; both are consistent with the documentation)."),
"C13": dict(oracle="as C10-C12, after the exception: nothing leaked, no element lost or destroyed twice, every array can still be assigned, cleared, reshaped and destroyed; arrays that the operation did not modify keep their value."),
"C14": dict(oracle="addresses of storage against the object's own bytes, fallback allocator counts, alignment of every buffer."),
"C15": dict(oracle="byte patterns of pre-filled storage; counts of construct calls of the wrapped allocator; traits of the wrapped allocator for all propagation flags."),
"C16": dict(oracle="map from index to value: kept inside the intersection, value-initialised outside; moves only; no block kept."),
"C17": dict(oracle="the reference conversion (constants must agree, everything else carried over; trivial dimensions dropped or added); predicates must equal whether the conversion is reported as a violation.",
  limits="conversions whose compile-time constants contradict are rejected by the compiler and are outside (C25)."),
"C18": dict(oracle="reference affine map for every index; for owning arrays also the blocks and elements (nothing copied, nothing leaked)."),
"C19": dict(oracle="the reference loop nest over the inferred bounds; the log of every evaluation of every operand and the whole memory of the destination.",
  limits="the order of evaluation is the documented one (index 0 innermost)."),
"C20": dict(oracle="reference sum into a packed result whose bounds come from the operands; allocator of the result.",
  limits="found that clang does not elide the move in auto-returning function templates, so a result with a non-propagating allocator lost it (repaired)."),
"C21": dict(oracle="intersection of rectangle and image per axis, addresses of all pixels in the original."),
"C22": dict(oracle="brute-force offsets: same bounds, existing compile-time strides unchanged, injective, and no gaps if no compile-time stride other than 0 or 1 is present.",
  limits="padding clause limited as documented (existing constant strides are kept, so padding can remain)."),
"C23": dict(oracle="brute-force sets of offsets.",
  limits="is_one_to_one is conservative for interleaving strides (documented upstream as issue 2): the exact answer is demanded for shapes whose strides nest, and for others only that `true` is never wrong."),
"C24": dict(oracle="element by element comparison of the two index spaces with the elements' own == and !=.",
  limits="comparing views without a base is out of contract."),
"C25": dict(oracle="the contract computed from the values (constant fields agree, indices and intervals inside, spans inside, extents equal); the report must come exactly if it is broken, before any element is touched.",
  limits="`unresolved` for a constant stride is undocumented and not checked; contradictions between constants are compile errors."),
"C26": dict(oracle="a ledger inside the callable: calls, copies, moves, and calls after being consumed.",
  limits="z-order functions take `const Fn&` and Einstein operands are taken by value as documented: there only the caller's object is protected."),
"C27": dict(oracle="sets of integers."),
"C28": dict(oracle="the builds are each other's oracle: identical streams of observations.",
  limits="floating-point programs use values for which every order of evaluation is exact."),
"C29": dict(oracle="the documented textual form computed from the run-time values.",
  limits="Abseil is not installed; mc/stub/absl provides AbslStringify sinks and %v with Abseil's semantics, so the text is decided up to the correctness of that stand-in."),
"C30": dict(oracle="a direct double sum in double precision over the kernel, per output pixel; exact rational numbers for the arithmetic.",
  limits="output pixels which no source pixel reaches are not compared; ties of the box kernel's edges are accepted either way; outputs of fewer than 64 rows are a known finding and left out; division by a negative rational is only compared by value."),
"C31": dict(oracle="the reference shape; identity of the dim objects; addresses."),
"C32": dict(oracle="a direct integer sum; all values small enough to be exact in every element type.",
  limits="tiled products are only called for results at least one tile large (the library documents that a compile-time split needs it); two known findings of the z-order product are left out."),
"C33": dict(oracle="the documented rules (rank, kind of argument, constants, constness, size, permutation) computed from the types alone.",
  limits="decides acceptance by overload resolution and the result's type, not the text of the error; shapes of rank 1 claim to be constructible from anything (upstream issue 20), so conversions to them are left open; rank-mixing beyond overload resolution (static_assert) is a hard error and not enumerable; ein of an array of rank above 0 without indices is left open."),
}
