#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as one readable source; the jsonl is the committed artefact)."""
import json, os
A = "include/array/array.h"; E = "include/array/ein_reduce.h"; I = "include/array/image.h"
M = "include/array/matrix.h"; Z = "include/array/z_order.h"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state: anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=anchors))

prop("C01", "A shape is the affine map of its dims, and its queries agree with it",
 "Every index of a shape maps to the flat offset that is the sum over its dimensions of (index - min) * stride, for any rank, any mix of compile-time and run-time constants, negative, zero and padded strides, and offsets beyond 32 bits. The min, max, extent, stride, element count, emptiness and (for non-empty shapes) flat offset bounds that a shape reports are the ones obtained by enumerating its indices, and its in-range queries for an index or a sub-range are exactly set membership per dimension.",
 ["inputs","configurations"], "every shape with ranks 0-6 whose dims come from a bounded alphabet of (min, extent, stride) values, static or dynamic, and every index of it",
 "The tests evaluate a handful of offsets on a few shapes; the mapping must hold for every combination of rank, sign, padding and static/dynamic mix.",
 [A], [("dim::flat_offset, internal::flat_offset/sum", A), ("shape::flat_min/flat_max/flat_extent/size/is_in_range", A)],
 ["shape operator() and operator[]", "shape min/max/extent/stride/size/empty/flat_min/flat_max/flat_extent/is_in_range"])

prop("C02", "Automatic strides follow the documented rule and never overlap",
 "Resolving a shape keeps every explicit stride and gives each remaining dimension, innermost first, the smallest documented candidate stride (one, or stride magnitude times extent of a dimension already placed) that does not interleave with the dimensions already placed; a shape without explicit strides thus becomes packed with its first dimension contiguous. If the explicit strides do not interleave among themselves, distinct indices of the resolved shape that differ in a non-broadcast dimension get distinct offsets. Resolving a resolved shape changes nothing.",
 ["inputs","configurations"], "every shape with ranks 1-5, extents 0..5 and larger samples, each stride unresolved or explicit (positive, negative, zero, padded), static or dynamic",
 "Tests pin about twenty layouts; the greedy stride search has case analysis (inside, outside, extent one, zero extent, negative) that must be right for every combination.",
 [A], [("internal::is_stride_ok/filter_stride/candidate_stride/find_stride/resolve_unknown_strides", A)],
 ["shape::resolve/is_resolved", "shapes of arrays and array_refs constructed with unresolved strides"])

prop("C03", "Index loops visit every index exactly once in the promised order",
 "Looping over the indices of a shape calls the function exactly once for each index and for nothing else, with the first dimension innermost; an explicit loop order makes its first listed dimension innermost and still passes the indices in the shape's order. Matrix-shaped loops run rows outermost and columns innermost, and channel-interleaved image loops run channels innermost, then x, then y. An empty shape produces no calls and a rank zero shape exactly one.",
 ["inputs","configurations"], "every shape with ranks 0-6 and extents 0-3 (plus larger rank 1-2 extents), every permutation of loop orders up to rank 4, static and dynamic dims, both the tuple and the unpacked form",
 "Tests check sums or single orders for a few ranks; each rank parity and permutation instantiates different template code.",
 [A, M, I], [("internal::for_each_index_in_order_impl overloads, unshuffle", A), ("for_each_matrix_index", M), ("for_each_image_index", I)],
 ["for_each_index, for_all_indices with and without LoopOrder"])

prop("C04", "Value loops touch each addressed element exactly once per index",
 "Calling a function for each value of an array or view calls it once per index with a reference to exactly the element that index addresses, whatever the strides (reordered, negative, zero, padded, fusable or not), mins, rank and static constants; no other address is ever passed. Paired traversal of two equally indexed layouts always pairs the two elements that have the same index. Empty arrays, null or not, produce no calls.",
 ["inputs","configurations"], "all single layouts of ranks 0-5 and all pairs of layouts of ranks 0-4 over a bounded dim alphabet, including image, matrix and static shapes",
 "Traversal sorts and fuses dimensions at run time, so correctness depends on coincidences between strides and extents that a few sampled layouts do not hit.",
 [A, I, M], [("internal::dynamic_optimize_shape, can_fuse, fuse, bubble_sort", A), ("internal::dynamic_optimize_copy_shapes", A), ("for_each_value_in_order_impl", A), ("shape_traits<chunky_image_shape>::for_each_value", I)],
 ["array/array_ref::for_each_value", "copy_shape_traits::for_each_value via equal()"])

prop("C05", "Copy and move transfer exactly the destination's region",
 "After copying or moving one array or view into another, each destination element equals the source element that had the same index, nothing outside the destination's addressed elements is written, and a copied source is unchanged; only the destination's indices need to be in range of the source. The functions that return a copy (same shape, given shape, compact shape, with or without a given allocator) return exactly that, and moving functions move each element at most once.",
 ["inputs","configurations"], "all pairs of source and destination layouts (independent strides, signs, padding, mins) and all in-range sub-regions, ranks 0-4",
 "Tests copy a few layouts; correctness needs every pair of layouts because sorting and fusing is decided jointly from both.",
 [A], [("copy, move, make_copy, make_move, make_compact_copy, make_compact_move", A), ("internal::dynamic_optimize_copy_shapes", A)],
 ["guarded buffers behind array_refs", "results of make_copy/make_move"])

prop("C06", "Fill, generate and transform write every element once, in loop order",
 "Filling sets every element of the destination and nothing else; generating calls the generator exactly once per element; transforming calls the function exactly once per index, in the same order as the index loop of that shape, and stores each result at that index. Padding and elements outside a view are left untouched.",
 ["inputs","configurations"], "all layouts of ranks 0-4 over a bounded alphabet, including matrix and image shapes and views into larger buffers",
 "Tests use dense arrays; padding, negative strides, empty extents and customised traversal orders are not covered jointly.",
 [A, M, I], [("fill, generate, transform_index, transform_indices", A)], ["guarded buffers", "log of generator and function calls"])

prop("C07", "Slices and crops are exact aliasing views",
 "Indexing with any mixture of indices, intervals and whole-dimension placeholders yields a view whose dimensions are the non-index arguments (with the requested min and extent, and the original stride) and in which each in-range index addresses exactly the element the parent addresses at the corresponding index. This also holds for views of views, for compile-time intervals, for dims used as intervals, for every parent layout, and for const parents; views of a const parent are read-only, and views of a null parent stay null.",
 ["inputs","programs"], "every combination of argument kinds per dimension for ranks 1-4, every in-range sub-interval, and every composition of two such operations on ranks 1-3",
 "Each combination of argument kinds is a different template instantiation and compositions multiply; tests sample a few of them.",
 [A], [("internal::make_array_ref_at, intervals_with_strides, skip_slices, mins_of_intervals", A)], ["addresses of view elements", "view.shape()"])

prop("C08", "Splitting an interval covers it exactly",
 "Splitting by a run-time factor yields consecutive, disjoint, in-bounds, non-empty intervals of at most that size that cover the interval in order; splitting by a compile-time factor yields intervals of exactly that size, all in bounds, covering the interval, in which only the last may be shifted back to overlap. The reported count equals the number of intervals iteration yields, and the n-th interval reached by random access equals the n-th reached by stepping.",
 ["inputs"], "every min in a range around zero, every outer extent up to a bound and every factor up to a larger bound, static and dynamic, for intervals and dims, every n",
 "Tests use a few extents and only stepwise iteration; boundary arithmetic has to be right for each extent/factor remainder and each jump distance.",
 [A], [("internal::split_iterator::operator+=, operator-, split", A)], ["the intervals produced by iteration, operator[], size, iterator difference"])

prop("C09", "Z-order traversal visits every combination once, in z-order",
 "Traversing ranges in z-order calls the function exactly once for each combination of elements of the ranges, for any positive number of ranges and any (equal or unequal, power of two or not, empty) extents, and never with an element outside its range. The calls come in Morton order of the positions, with the first range's lowest bit least significant.",
 ["inputs"], "all extent tuples up to a bound for 1-4 ranges over intervals, splits and random access iterators",
 "Tests check a few square cases; truncation at non-power-of-two and unequal extents is a recursive case analysis.",
 [Z], [("internal::for_each_index_in_z_order(_impl), next_power_of_two", Z)], ["sequence of calls from for_each_in_z_order/for_all_in_z_order"])

prop("C10", "Arrays behave as independent values under any history of operations",
 "After any sequence of constructions, copy or move constructions and assignments, swaps, fills, element writes, clears, reshapes and returns to the default state, each array has the shape and element values a plain mapping from indices to values would have; modifying one array never changes another; and assigning an array to itself changes nothing. A moved-from array can be assigned, cleared, reshaped, copied, moved, swapped and destroyed. This holds for every allocator kind, including stateful ones that do or do not propagate and in-object ones, and for static, dynamic, padded and negative-stride shapes.",
 ["histories","configurations"], "all operation sequences on two or three arrays to a bounded depth (exhaustive to the bound, then deduplicated by state), per allocator kind, element type and shape type",
 "Unit tests run single fixed sequences; reuse of a buffer, moved-from, empty-but-negative-stride and self-assignment states only arise in longer histories.",
 [A], [("array constructors, operator=, assign, swap, clear, reshape, swap_except_allocator", A)], ["shape(), element values, base(), empty(), get_allocator()"],
 state=[("base_/buffer_/buffer_size_/shape_/alloc_", "ownership of the allocation and its interpretation", A)])

prop("C11", "Every element is constructed and destroyed exactly once",
 "Over any history of array operations, each element that an array addresses is constructed exactly once before it is used, destroyed exactly once before its memory is released or reused for another construction, and no operation touches an element outside its lifetime. When all arrays are gone no element is left alive. Arrays constructed from a value copy-construct each element from it, and otherwise value-initialise each element.",
 ["histories","configurations"], "all bounded operation sequences with an element type that registers its own address on construction and destruction",
 "Tests count constructor calls for single operations; leaks or double destruction appear in particular sequences of states (same-shape reassign, unequal allocators, empties, moved-from).",
 [A], [("array::construct/copy_construct/move_construct/destroy/deallocate", A)], ["element constructor, assignment and destructor calls by address"],
 state=[("set of live element addresses", "must equal the union of the addressed elements of live arrays", A)])

prop("C12", "Allocations balance and follow the allocator propagation rules",
 "Every block an array obtains is returned exactly once, with the size it was requested with, to an allocator equal to the one it came from, and no block smaller than the shape's span is ever requested. Copying and moving arrays use the allocator that the standard propagation traits prescribe; moves between arrays with equal or propagating allocators, and swaps with propagating ones, transfer the block without creating, copying, moving or destroying any element, while other moves move element by element. A reshaped or cleared array keeps its allocator's propagation semantics.",
 ["histories","configurations"], "all bounded operation sequences over allocators with identity: propagating, non-propagating, always equal, with custom selection on copy",
 "Tests use a couple of allocators on single operations; which allocator frees which block depends on the history.",
 [A], [("array::operator=, get_allocator_for_move, swap, allocate, deallocate", A)], ["allocate/deallocate calls with allocator identity and size"],
 state=[("allocator identity of each live block", "block is freed by an equal allocator", A)])

prop("C13", "A failed allocation leaks nothing and leaves every array usable",
 "If an allocation fails during any operation, the failure reaches the caller, no block or element is leaked or freed twice, arrays that are only sources keep their value, and a failed reshape leaves the array unchanged. The array being modified can still be destroyed, cleared, assigned in any way (including to the very shape that failed) and swapped, and then behaves normally.",
 ["fault_sequences","histories"], "every choice of one failing (and of two failing) allocation in every bounded operation sequence",
 "No test injects allocation failures at all.",
 [A], [("array::allocate, assign, reshape, clear ordering of deallocate/shape/allocate", A)], ["exception at caller, live blocks, live elements, subsequent operations"])

prop("C14", "In-object buffers are used when they fit and never shared",
 "An array whose allocator has an in-object buffer stores its elements in its own object exactly when the needed span fits the buffer and the buffer is free, and then performs no heap allocation; otherwise it uses the fallback allocator. Copies, moves and swaps of such arrays never leave one array addressing memory inside another object, transfer heap blocks without element moves only when that is safe, and the buffer has the requested alignment. Two such allocators compare equal exactly when each can release what the other holds, also after they are assigned, copied or moved while in use.",
 ["histories","inputs"], "all bounded operation sequences on arrays with in-object buffers of several sizes and alignments, with spans below, at and above the capacity",
 "Tests check a few single moves; allocator equality depends on the occupancy of both buffers at each point of the history.",
 [A], [("auto_allocator::allocate/deallocate/operator==, copy and move constructors", A)], ["address ranges of element storage", "fallback allocator calls"],
 state=[("auto_allocator::allocated", "whether the in-object buffer is in use", A)])

prop("C15", "Uninitialized allocation skips default construction and nothing else",
 "Arrays using the uninitialized allocators leave the bytes of default-constructed elements untouched, yet construct elements given a value, a copy or a move exactly like the wrapped allocator; allocation, propagation and equality are those of the wrapped allocator. Ordinary arrays value-initialise default-constructed elements.",
 ["inputs","histories"], "all bounded sequences of default, value, copy and move constructions, assignments, reshapes and clears over pre-patterned memory",
 "Tests only confirm that it compiles or check a single array; which construct overload is reached depends on the operation.",
 [A], [("uninitialized_allocator::construct/allocate/deallocate/select_on_container_copy_construction", A)], ["element bytes over pre-patterned blocks"])

prop("C16", "Reshape preserves exactly the common region",
 "After reshaping an array, its shape is the (resolved) new shape, every index in range of both the old and the new shape keeps its value, every other element is value-initialised, and each kept element is moved, not copied. This holds for any pair of old and new shapes, including disjoint, empty, contained, shifted, padded and partially static ones.",
 ["inputs","histories"], "all pairs (and bounded chains) of shapes of ranks 1-3 over a bounded alphabet, static and dynamic",
 "Tests try one grow/shrink; the intersection arithmetic must hold for every relative position, including no overlap.",
 [A], [("array::reshape, internal::clamp, clamp_dims", A)], ["array contents and shape after reshape"])

prop("C17", "Shape conversions preserve every dimension, and predicates predict them",
 "Converting between compile-time and run-time shapes of any compatible types preserves min, extent and stride of every dimension (unresolved strides adopt the compile-time stride); explicit rank-changing conversion adds dimensions of extent one or drops only such dimensions and addresses the same elements. The compatibility predicates answer yes exactly when the conversion succeeds without a reported error. Shapes compare equal exactly when all their dimensions' min, extent and stride are equal, independent of what is known at compile time.",
 ["inputs","configurations"], "all pairs of source and destination dim kinds (each of min, extent, stride static or dynamic) with all small run-time values, ranks 0-3 and all rank changes",
 "Each static/dynamic combination is another instantiation; tests cover a few and never the predicate/conversion agreement.",
 [A], [("interval/dim/shape converting constructors, assert_dims_compatible", A), ("is_compatible, is_explicitly_compatible, convert_shape", A)], ["converted shapes and views", "predicates versus rejected conversions"])

prop("C18", "Reinterpreting a layout permutes or relabels the same elements",
 "Transposing or reordering a shape, array or view yields dimension i equal to the selected original dimension (with its stride, or still without one), and each index addresses the element the original addresses at the correspondingly permuted index; transpose accepts exactly the permutations of the leading dimensions. Reinterpreting the shape or element type of an array or view, or setting its shape with an offset, addresses exactly base plus offset plus the new shape's flat offsets, without copying; moving an array into a reinterpreted shape also hands over the allocation so that it is released exactly once.",
 ["inputs","programs"], "all permutations and selections up to rank 4 on all small layouts; all in-range (shape, offset) pairs on small buffers with positive and negative strides and offsets",
 "Tests cover two or three permutations and no offsets with negative strides.",
 [A], [("transpose, reorder, reinterpret_shape, reinterpret, reinterpret_const, set_shape, move_reinterpret_shape", A)], ["addresses of elements", "allocator log"])

prop("C19", "Einstein reductions equal the reference loop nest",
 "An Einstein reduction evaluates its expression once for every combination of the loop indices and applies the assignment operator to the indexed destination element, in order with the lowest numbered index innermost; the bounds of an index come from the destination if it uses that index and from the operands otherwise, and unused indices run once. This holds for every supported operator and operand (arrays, views, scalars, pointers, C arrays, callables, casts, negation, min, max), repeated indices, non-zero mins, any strides and empty dimensions, and nothing but the addressed destination elements is written.",
 ["programs","inputs"], "all expressions from a bounded grammar (destination index tuples x operand index tuples x operators) over small extents, mins and layouts, with order-sensitive element values",
 "Tests run a dozen well-known contractions with commutative data; operator, order, bound and index-permutation errors need the product space.",
 [E, A], [("ein_reduce, make_ein_reduce_shape, gather_dims, reconcile_dim", E), ("ein_op and NDARRAY_MAKE_EIN_BINARY_OP expression types", E)], ["destination contents", "trace of evaluated index tuples through a recording operand"])

prop("C20", "Inferred Einstein sums have the right bounds, layout and value",
 "An Einstein sum whose result is inferred has exactly the bounds of the operand dimensions that its result indices name, in the order listed, is stored compactly, and each element equals the initial value plus the sum of the expression over all remaining indices. The result uses the requested element type, initial value and allocator.",
 ["programs","inputs"], "all result index tuples for a bounded set of expressions over operands with distinct extents, mins, strides and static constants",
 "Tests check a few contractions; inferred static extents and strides change with every operand shape type.",
 [E, A], [("make_ein_sum, make_ein_reduce_shape<ResultIs...>, with_stride", E), ("make_compact", A)], ["shape and contents of the result"])

prop("C21", "Image crops and channel slices view exactly the requested pixels",
 "Cropping an image or image view to a rectangle yields a view of exactly the pixels in the intersection of the rectangle with the image (all channels), addressed by their original coordinates or shifted to start at zero as requested; if the intersection is empty the view is empty. Slicing a channel yields the two-dimensional view of that channel. Both alias the original for planar, interleaved (compile-time or run-time channel count, padded) and generic images with any mins.",
 ["inputs"], "all rectangles (inside, straddling, outside, inverted) on all small images of each format, min and padding, both origins",
 "Tests crop a few rectangles on one image; clamping, min handling and pointer adjustment need all positions.",
 [I], [("crop, crop_image_shape, slice_channel", I)], ["addresses and shape of the view"])

prop("C22", "Compacting a shape removes padding and keeps indices",
 "The compact version of a shape has the same min and extent in every dimension, keeps every stride that is a compile-time constant, and otherwise is a valid layout without overlap; if it has no compile-time constant stride other than 0 and 1 it has no padding at all. Its compile-time strides always agree with its run-time strides, and shapes of constant extents without such strides get constant packed strides.",
 ["inputs","configurations"], "all rank 0-4 combinations of dims with static or dynamic extents and strides, each with all small run-time extents",
 "Static strides are computed by template metaprogramming from the combination of static extents and strides; tests try a handful of types.",
 [A], [("make_compact, make_compact_dims, fixed_dense_shape, dense_shape", A)], ["shape returned", "make_compact_copy/make_compact_move results"])

prop("C23", "Compactness, injectivity and containment predicates can be trusted",
 "For non-empty shapes whose dimensions do not interleave (broadcast dimensions of stride zero allowed), the compactness predicate is true exactly when the addressed offsets leave no gap in their span, and the one-to-one predicate is true exactly when distinct indices have distinct offsets; for every non-empty shape, a negative answer of either is correct. The containment predicate with an offset is exactly containment of the span of offsets.",
 ["inputs"], "all non-empty shapes of ranks 0-4 over a bounded dim alphabet, and all pairs with offsets",
 "Tests check a few shapes; off-by-one in spans only shows for particular stride and extent combinations.",
 [A], [("shape::is_compact/is_one_to_one/is_subset_of", A)], ["predicate results versus enumerated offsets"])

prop("C24", "Equality compares exactly the shape and the addressed elements",
 "Two arrays or views compare equal with the equality operators exactly when their shapes are equal and all elements at equal indices are equal, and inequality is its negation; the layout-independent comparison is true exactly when mins, extents and elements at equal indices are equal, whatever the strides and element types. Padding and unaddressed memory never influence the result, and a difference in any single element is detected.",
 ["inputs"], "all pairs of layouts of ranks 0-3 and every single-element difference",
 "Tests compare a few arrays; missing one element or reading padding depends on the pair of layouts.",
 [A], [("array_ref::operator==/!=, array::operator==/!=, equal", A)], ["comparison results over guarded buffers"])

prop("C25", "Contract violations are rejected when checks are enabled",
 "With assertions enabled, converting to a shape whose compile-time constants contradict the run-time values, copying or moving from a source that does not contain the destination, dropping a dimension whose extent is not one, reinterpreting or setting a shape that leaves the original span or is unresolved, splitting an interval by a larger compile-time factor, and Einstein reductions over mismatched bounds are all reported before any element is read or written. No program within the documented contract triggers a report.",
 ["inputs","configurations"], "every in-contract and out-of-contract combination over small values for each checked operation",
 "Tests contain a few fatal-failure checks per operation; the boundary between accepted and rejected must be exact in every dimension and direction.",
 [A, E], [("assert in copy/move/split/convert_shape/set_shape/reinterpret_shape/move_reinterpret_shape, constexpr_index, assert_dims_compatible", A), ("assert in reconcile_dim", E)], ["assertion reports, memory effects"])

prop("C26", "Callables passed by the caller are invoked, not consumed",
 "Functions, generators and predicates that the caller passes as named objects are called in place: after the call they are still usable and any state they accumulate is visible to the caller. Temporaries, move-only callables and type-erased callables are accepted wherever a function, generator or predicate is taken (operands of Einstein expressions are held by value and must be copyable).",
 ["inputs","programs"], "every function accepting a callable x every kind of callable (lambda, stateful functor, type-erased function, move-only functor) x shape kinds x repeated use",
 "Tests pass lambdas, for which moving from the argument is invisible.",
 [A, M, I, Z], [("for_each_index, for_all_indices, generate, transform_index, transform_indices", A), ("shape_traits<matrix_shape>::for_each_value", M), ("shape_traits<chunky_image_shape>::for_each_value", I)], ["the callable after the call"])

prop("C27", "Intervals are exact half-open integer ranges",
 "An interval or dimension built from any supported combination of compile-time and run-time min and extent, or from a begin/end range, contains exactly the integers from min to max inclusive: iteration forwards and backwards, iterator arithmetic, membership, interval containment, size, equality and clamping all agree with that set, and changing the min, max or extent changes just what its name says. Defaults are min zero and extent one for intervals and zero for dimensions.",
 ["inputs","configurations"], "all mins and extents in a small range and at large magnitudes, all static/dynamic combinations",
 "Tests cover a few values; agreement between all the accessors is a relation over all of them.",
 [A], [("interval, dim, index_iterator, range, r, clamp", A)], ["public accessors"])

prop("C28", "Build configuration does not change results",
 "Any program within the library's contract computes the same values whether assertions are enabled, whether indices are pointer-sized or plain integers, whichever supported compiler, optimisation level, floating point mode or language standard is used, as long as its sizes fit.",
 ["configurations","programs"], "a bounded program suite (traversals, copies, views, reductions, containers) run to exhaustion under each build configuration, comparing the complete observation streams",
 "The tests are built in exactly one configuration.",
 [A, E, I, M, Z], [("NDEBUG, NDARRAY_INT_INDICES, __restrict__, always_inline, static linkage macros", A)], ["observation stream digest per suite"])

prop("C29", "Text form of intervals, dims and shapes states their values",
 "The text form of an interval is its half-open begin and end, of a dimension its min, extent and (only when it is known) stride, and of a shape its rank and dimensions in order; compile-time and run-time values print the same.",
 ["inputs"], "all ranks 0-4 over small values, static/dynamic, resolved and unresolved",
 "Not built by the existing build at all (Abseil is not present).",
 ["absl/absl.h"], [("AbslStringify overloads", "absl/absl.h")], ["formatted text through a stand-in for the formatting library"])

prop("C30", "Resampling reproduces the exact weighted sum of source pixels",
 "Resampling an image along both axes at any rational rate and offset gives each output pixel (that the kernel around its source position reaches) the normalised, kernel-weighted sum of the source pixels in bounds that the kernel definition prescribes; weights of every output coordinate sum to one within rounding, every referenced source pixel is in bounds, and a rate of one reproduces the input for interpolating kernels. The rational arithmetic underneath is exact for positive denominators: comparisons, sums, products, quotients, floor, ceiling and rounding agree with exact rational numbers.",
 ["inputs"], "all small source and destination extents and mins, all small rational rates, each kernel, and all rational pairs with small terms",
 "The example is only compared against a few reference images.",
 ["examples/resample/resample.h", "examples/resample/rational.h"], [("build_kernels, resample_x/resample_y, resample", "examples/resample/resample.h"), ("rational", "examples/resample/rational.h")], ["output pixels against a direct double sum"])
prop("C31", "Shapes, views and arrays answer every accessor and element access alike",
 "Every named or numbered accessor of a shape, an array_ref or an array, const or not (i/j/k, x/y/z/c/w, dim<D>(), dim(d), width/height/channels, rows/columns, size, empty, bounds, is_compact, shape) gives the value or dim of the documented dimension, also after the array has been given another shape; the constants Min, Extent, Max and Stride of a dim, used by value or by reference, are its values where those are constants; changing a dim through a mutable accessor of a shape or view changes that dim of that object and nothing else. base() addresses the element at the min index and data() the lowest address of the layout; ref(), cref() and the implicit conversions to views keep shape and base; operator() and operator[] with any integer index types refer to the element at that index; a view without a base is empty; arrays and views of rank 0 convert to a reference to their element.",
 ["inputs"], "all bounded shapes of many shape types, every index, every accessor, for views, const views, null views, and arrays with several allocators",
 "Tests use a few accessors of a few arrays; every accessor has up to six separately written overloads (const and non-const, of shape, array_ref and array).",
 [A, "include/array/image.h", "include/array/matrix.h"], [("shape accessors", A), ("array_ref accessors, conversions", A), ("array accessors, conversions", A)], ["values, object identity and addresses obtained through each accessor"])
prop("C32", "The example matrix products and convolutions equal their definitions",
 "Every implementation of the matrix product in the linear algebra example (plain, Einstein, tiled, tiled in z-order) computes the product of any two matrices of agreeing extents, whatever their mins and row padding, and writes exactly the elements of the result; the tiled ones for results at least one tile large. The example convolutions compute the rectified, biased sum of products for every output.",
 ["inputs"], "all small extents, tiled results around one to three tiles, inner extents around the blocking factor, several layouts; integer-valued data so that every order of summation is exact",
 "The examples only run one size that every tile divides, and print the differences.",
 ["examples/linear_algebra/matrix.cpp", "examples/linear_algebra/conv2d_relu.cpp", A, "include/array/ein_reduce.h", "include/array/z_order.h", "include/array/matrix.h"], [("multiply_reduce_*, multiply_ein_reduce_*", "examples/linear_algebra/matrix.cpp"), ("conv2d_naive, conv2d_tiled", "examples/linear_algebra/conv2d_relu.cpp")], ["every element of the result and of its padding"])

prop("C33", "Calls whose types show them to be wrong are rejected, all others are accepted",
 "A call that its types show to be wrong is rejected by overload resolution, where it is written: a number of indices, intervals, dims or loop indices other than the rank, things that are neither indices nor intervals, a dimension beyond the rank, functions of the wrong number or kind of parameters, conversions between intervals or dims whose constants contradict each other, conversions, copies, moves and comparisons that mix ranks, writing through or modifying constant arrays and views, views of another element type, lists of dimensions that are no permutation, uninitialized allocators of types that need initialization, Einstein operands with a number of indices other than their rank, Einstein operators on things that are not operands, and reductions that are not assignments. Every such call without an error of this kind is accepted, and its result is modifiable, and has the rank and element type, as documented.",
 ["inputs"], "programs of one call: every combination of object, member or function and argument types of a bounded grammar",
 "test/errors.cpp lists a few such programs by hand; no test compiles it, and the accepted ones are only those that the tests happen to use.",
 [A, "include/array/ein_reduce.h", "include/array/matrix.h", "include/array/image.h"], [("enable_if_*, disable_if_not_equal, convertible", A), ("enable_if_ein_op, enable_if_ein_assign, ein", "include/array/ein_reduce.h"), ("crop, slice_channel", "include/array/image.h")], ["accepted or rejected", "type of the result"])

ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
