prop("C08", "Basic indexing reads and writes the right elements and views alias",
     "For every array and every key of integers, slices (any start, stop and step), Ellipsis and newaxis, x[key] has NumPy's shape, dtype "
     "and elements (a zero-dimensional result where every axis is indexed), and x[key] = value writes exactly the addressed elements, "
     "converting and broadcasting the value, overlapping source and target included. An out-of-range or over-long key raises and writes "
     "nothing. After any history of view-making operations (basic keys, T, transpose, swapaxes, moveaxis, reshape of contiguous arrays, "
     "expand_dims, squeeze, flip, ravel of contiguous arrays), copies, drops and writes, every live handle reads exactly what NumPy's "
     "handles read: a write through one view is seen through all the others, never through copies, and dropping a handle frees nothing in use.",
     ["inputs", "histories"], "all arrays and keys, and all histories of views, copies, drops and writes",
     "key, dtype, layout and history of earlier views.",
     ["src/python/pyarray/dunder_item.rs", "src/array/views.rs", "src/array/mod.rs", "src/array/buffer.rs"],
     [("view construction over shared buffers", "src/array/views.rs"), ("setitem copy loops", "src/python/pyarray/dunder_item.rs, src/array/mod.rs")],
     "stateful property-based testing against NumPy as the model")
prop("C10", "Shape manipulation and joining keep every element in its place",
     "For every array and valid parameters, the rearranging functions (reshape, ravel, flatten, transpose, swapaxes, moveaxis, rollaxis, "
     "expand_dims, squeeze, flip, fliplr/flipud, rot90, roll, repeat, tile, pad (constant and edge), resize, insert, delete, append, "
     "broadcast_to, atleast_nd, diag, diagonal, tril, triu, trim_zeros) and the joining and splitting functions (concatenate, stack, "
     "hstack/vstack/dstack/column_stack, block, split, array_split, hsplit/vsplit/dsplit, unstack, meshgrid, broadcast_arrays) return "
     "NumPy's shape, dtype and elements exactly, for every dtype (64-bit integers beyond 2**53 included) and memory layout.",
     ["inputs"], "all arrays (dtype, shape, contents, layout), functions and parameters",
     "function parameters, axis sign, dtype, layout and zero-size dimensions.",
     ["src/array/manipulation.rs", "src/array/views.rs", "src/python/shape.rs", "src/ops/indexing.rs"],
     [("byte-wise element copies over strided views", "src/array/manipulation.rs"), ("strided view construction", "src/array/views.rs")])
prop("C09", "Advanced indexing and selection pick and write the right elements",
     "For every array, boolean mask, integer index array or list (repeated and negative entries included) and parameters, x[mask], x[indices], "
     "take, take_along_axis, compress, extract, choose, select, piecewise, nonzero, argwhere, flatnonzero and count_nonzero return NumPy's "
     "shape, dtype and elements; put, put_along_axis, putmask, place, copyto and fill_diagonal write exactly the elements NumPy writes, through "
     "strided views included, and no others; index-building functions (tril/triu/diag/mask indices, unravel_index, ravel_multi_index, ix_, "
     "indices, ndindex, ndenumerate, mgrid, ogrid, packbits, unpackbits) agree with NumPy. An out-of-range index raises and never reads or "
     "writes outside the array.",
     ["inputs"], "all arrays, masks, index arrays and parameters",
     "index values (negative, repeated, out of range), index dtype, layout and zero-size dimensions.",
     ["src/ops/indexing.rs", "src/python/indexing.rs", "src/python/pyarray/dunder_item.rs", "src/python/misc.rs"],
     [("index normalisation and gather loops", "src/ops/indexing.rs"), ("scatter writes through strides", "src/ops/indexing.rs, src/python/indexing.rs")])
prop("C11", "Sorting, searching, set operations and histograms are exact",
     "For every array, sort and argsort (functions and methods, any axis) return NumPy's order (argsort: the stable one), NaN last, complex "
     "lexicographically, 64-bit integers exactly; partition and argpartition put the kth element in its sorted place with the smaller ones before; "
     "lexsort, searchsorted and digitize (increasing or decreasing bins, either side) give NumPy's indices; unique and its variants, isin, in1d, "
     "intersect1d, union1d, setdiff1d and setxor1d give NumPy's elements; bincount and histogram, histogram2d, histogramdd give NumPy's edges "
     "and counts, each in-range value counted once.",
     ["inputs"], "all arrays (dtype, shape, contents, layout), axes, kth, sides and bins",
     "contents (duplicates, NaN, signed zero, integers beyond 2**53), axis, layout.",
     ["src/ops/array_methods/sorting.rs", "src/ops/set_ops.rs", "src/ops/indexing.rs", "src/ops/statistics.rs", "src/python/indexing.rs"],
     [("element comparison per dtype", "src/array/dtype/"), ("lane-wise sort and selection", "src/ops/array_methods/sorting.rs"), ("merges over sorted values", "src/ops/set_ops.rs")])
prop("C12", "Dtype conversion, promotion and casting rules are NumPy's",
     "For every pair of dtypes and every array whose converted value is defined, astype and the dtype argument of array, asarray and "
     "ascontiguousarray convert each element as NumPy does (64-bit integers exactly, integer wrapping, float truncation, bool, complex); a "
     "widening conversion and back gives the original values; result_type, promote_types, can_cast, min_scalar_type, common_type, issubdtype, "
     "isdtype, finfo and iinfo answer as NumPy; every accepted spelling of a dtype (name, character code, alias, NumPy scalar type, dtype object) "
     "names the same dtype; view(dtype) reinterprets the same bytes.",
     ["inputs"], "all ordered pairs of dtypes, array contents and layouts, and dtype spellings",
     "source and target dtype, values near the limits of the target, layout.",
     ["src/array/dtype/mod.rs", "src/array/dtype/macros.rs", "src/python/pyarray/mod.rs", "src/python/dtype.rs"],
     [("astype element loop", "src/array/mod.rs"), ("promotion table", "src/array/dtype/mod.rs"), ("dtype parsing", "src/python/mod.rs")])
prop("C13", "Creation functions build exactly the array that was asked for",
     "For every Python list or tuple (nested, ragged, empty, mixed types, large integers, complex), shape, dtype and parameter, array "
     "and asarray give NumPy's dtype, shape and elements or refuse what NumPy refuses; arange (integers exactly, floats with NumPy's length), "
     "linspace (end points exact), logspace and geomspace, zeros, ones, full, empty and their _like forms, eye, identity, tri, diag, vander, "
     "window functions, indices, fromfunction, frombuffer and meshgrid give NumPy's result; array() never shares memory "
     "with its argument.",
     ["inputs"], "all nested sequences, shapes, dtypes and parameters",
     "element types and their mixture, nesting, dtype, step sign and size.",
     ["src/python/creation.rs", "src/array/constructors.rs", "src/array/manipulation.rs"],
     [("dtype inference from sequences", "src/python/creation.rs"), ("range and fill loops", "src/array/constructors.rs")])
prop("C14", "Exchange with NumPy and Python objects keeps values and memory straight",
     "For every array, np.asarray(x) has the same dtype, shape and elements and shares its memory (a write on either side is seen on the other), "
     "stays valid after x is dropped, and shape, strides, flags and __array_interface__ describe it truly; array/asarray of any NumPy array "
     "(strided, read-only, unaligned) or __array_interface__ object give its elements, array() a copy. NumPy ufuncs and operators accept "
     "rumpy operands; tolist, item, int(), float(), bool(), complex(), and iteration give NumPy's "
     "Python values exactly. Any history of exports, imports, writes and drops keeps every handle correct.",
     ["inputs", "histories"], "all arrays (dtype, layout) in both directions and all histories of exports, imports, writes and drops",
     "dtype, layout, alignment, read-only flag and lifetime order.",
     ["src/python/pyarray/mod.rs", "src/python/creation.rs", "src/array/mod.rs", "src/array/buffer.rs"],
     [("__array_interface__ export with a keep-alive owner", "src/python/pyarray/mod.rs"), ("strided import loops", "src/python/creation.rs")],
     "stateful property-based testing against NumPy as the model")

prop("C15", "What is saved is what is loaded, and damaged files are refused",
     "For every array (numbers, strings, bytes, times; any layout), load after save, savez, savez_compressed gives the same dtype, shape and bits, "
     "and NumPy reads rumpy's files and rumpy NumPy's with the same result; tofile/fromfile and frombuffer carry the exact bytes for every "
     "offset and count; savetxt and tofile(sep) write NumPy's text, which loadtxt and fromfile read back exactly (64-bit integers included); "
     "loadtxt and genfromtxt give NumPy's array, or refuse what NumPy refuses, for any table, comments, blank lines and parameters. A truncated or "
     "corrupted file raises an exception: no crash, panic or invented data; a path or device that cannot be read or written raises OSError.",
     ["inputs", "fault_sequences"], "all arrays, text tables, parameters and file contents",
     "dtype, layout, delimiter, comments, parameters and position of the damage.",
     ["src/ops/io.rs", "src/python/io.rs", "src/python/pyarray/mod.rs"],
     [("npy header writing and parsing", "src/ops/io.rs write_npy, read_npy"), ("text formatting and parsing", "src/ops/io.rs")],
     "property-based round-trip and differential testing, and structure-aware file fuzzing")
prop("C16", "Random numbers are reproducible, follow their distribution, and keep the data",
     "A generator made from a NumPy PCG64DXSM state gives NumPy's raw stream, random() and uniform() bit for bit; the same seed and history of calls always "
     "give the same numbers, other seeds do not, and n draws do not depend on how they are split over calls; each distribution method follows the "
     "distribution its name and parameters say (shape, dtype, support, distribution function, independence), integers covers exactly [low, high) in 64 bits, and "
     "geometric counts failures. shuffle, permutation and choice move whole rows exactly (every dtype and layout, nothing outside a view changes, without replacement no row twice); "
     "invalid parameters raise an exception and leave the generator usable.",
     ["inputs", "histories"], "all states, seeds, histories of draws, distribution parameters and arrays to rearrange",
     "state, seed, order and splitting of draws, parameters, dtype and layout of the rearranged array.",
     ["src/random/generator.rs", "src/random/pcg64.rs", "src/python/random.rs"],
     [("PCG64DXSM step", "src/random/pcg64.rs"), ("samplers", "src/random/generator.rs"), ("row moves", "src/random/generator.rs shuffle_rows")],
     "differential and statistical property-based testing against NumPy")
prop("C17", "Products and contractions compute the exact sums of products of their axes",
     "For every pair of dtypes, shapes and layouts, matmul and @ (batch dimensions broadcast, vectors as rows or columns), dot, inner (documented gufunc "
     "broadcasting), outer, kron, vdot, cross (length 3), trace, diagonal, tensordot (any axes), multi_dot, matrix_power and einsum (any subscripts with or without "
     "output, repeated and summed indices, any number of operands) give NumPy's dtype, shape and values: exactly for integers (with wrap-around) and bool, and for floating point "
     "whenever the products and sums are representable, otherwise within rounding. Shapes, axes or subscripts that do not fit raise an exception, the operands are left "
     "unchanged, and einsum_path names a complete contraction.",
     ["inputs"], "all operand dtypes, shapes, layouts, axes and subscripts",
     "dtype pair, layout (negative, zero and large strides), batch broadcasting, repeated indices, empty and size-1 dimensions, size past the blocking thresholds.",
     ["src/ops/matmul.rs", "src/ops/einsum.rs", "src/ops/linalg.rs", "src/ops/dot.rs", "src/ops/inner.rs", "src/ops/outer.rs", "src/ops/gufunc/mod.rs"],
     [("matrix product kernels", "src/ops/matmul.rs"), ("gufunc loop and broadcasting", "src/ops/gufunc/mod.rs, src/array/views.rs gufunc_subarray"),
      ("contraction planning", "src/ops/einsum.rs")],
     "differential and algebraic property-based testing against NumPy")

prop("C18", "Matrix decompositions, solvers and norms satisfy their defining equations",
     "For every well-conditioned real matrix of any dtype, layout and size, solve, inv, tensorsolve, tensorinv, qr, svd, svdvals, eigh and eigvalsh (lower triangle), eig, eigvals, cholesky, "
     "pinv and lstsq return float64 (or complex) factors of the right shape that satisfy the defining equations to backward-stable rounding (A x = b, Q R = A, orthonormal factors, sorted values, "
     "Moore-Penrose, minimum norm); det and slogdet equal the exact determinant, matrix_rank, cond, matrix_power, multi_dot and all vector and matrix norms equal NumPy's, and no operand is changed. "
     "Singular, non-square, mis-shaped, complex, non-finite (for the iterative ones) or not positive definite operands raise (LinAlgError is a ValueError) instead of returning numbers.",
     ["inputs"], "all real matrices, right-hand sides and norm orders",
     "dtype, layout, size past the blocking thresholds, scale, rank, structure (triangular, symmetric, permutation, zero row or column).",
     ["src/ops/linalg.rs", "src/ops/solve.rs", "src/python/linalg.rs", "src/ops/loops/contiguous.rs", "src/ops/loops/strided.rs"],
     [("faer decompositions", "src/ops/linalg.rs"), ("sum-of-squares reduction", "src/ops/kernels/arithmetic.rs, src/ops/loops")],
     "property-based testing of defining equations, exact rational determinants and differential norms")

prop("C19", "Fourier transforms equal the discrete Fourier transform for every length",
     "For every numeric dtype, layout and length (one, primes, powers of two, long ones), fft, ifft, rfft, irfft, hfft (any n), ihfft, fftn, ifftn, rfftn, irfftn "
     "(any distinct axes, any output shape s, odd or even) and the 2-d forms give NumPy's transform to rounding, as complex128 or float64; inverse pairs return the input, Parseval's identity, "
     "linearity and the convolution theorem hold, and rfft is the first half of fft. fftshift and ifftshift move elements exactly and undo each other, fftfreq and rfftfreq are "
     "NumPy's; complex input of a real transform, non-numbers, bad axes and bad shapes raise, and the operand is unchanged.",
     ["inputs"], "all arrays, lengths, axes and output shapes",
     "length (prime, power of two, odd, 1), dtype, layout, axes order, output length longer or shorter than the input.",
     ["src/ops/fft.rs", "src/python/fft.rs"],
     [("n-d transform over axes", "src/ops/fft.rs fft_along_axis"), ("Hermitian expansion", "src/ops/fft.rs irfftn, hfft")],
     "differential and algebraic property-based testing against NumPy and the definition")
prop("C20", "Polynomial evaluation, calculus, fitting and root finding are correct",
     "polyval evaluates by Horner's rule in the promoted dtype of coefficients and points (wrapping integers included), polyder and polyint of any order give NumPy's coefficients and dtype "
     "(constants in NumPy's order) and undo each other, and polyfit returns the exact weighted least-squares polynomial up to the error of a backward-stable solver at any scale. roots "
     "returns as many roots as the degree (zeros included), real ones as float64 and complex ones in conjugate pairs, whose product reproduces the coefficients. Complex, text, two-dimensional or mismatched operands raise where "
     "they have no meaning.",
     ["inputs"], "all coefficient arrays, points, orders, constants and weights",
     "degree, dtype, layout, leading and trailing zeros, multiplicity, scale, number of points beyond the degree.",
     ["src/ops/poly.rs", "src/python/poly.rs", "src/ops/linalg.rs"],
     [("Horner evaluation and calculus", "src/ops/poly.rs"), ("least squares and companion matrix", "src/ops/poly.rs")],
     "differential property-based testing, exact rational least squares and factorisation check")
prop("C21", "Text functions act on whole strings as Python's str methods do",
     "For every text array (any width, shape, memory layout, alphabet, embedded null characters), the char functions (case, predicates, strip, find/index/count/startswith/endswith with start and end, "
     "add, multiply, padding, zfill, replace, partition, join, expandtabs) give for each element what Python's str method gives, without truncating, and char comparisons ignore trailing white space "
     "while operators compare code points. Copying, indexing, sorting, joining and converting text or bytes moves whole strings and leaves the operand unchanged. Text in arithmetic, reductions or "
     "conversions to numbers, and numbers in text functions, raise an exception.",
     ["inputs"], "all text arrays and arguments",
     "empty strings, strings of full width, embedded or trailing nulls, non-ASCII characters, strides, start or end out of range, overlapping matches.",
     ["src/ops/char.rs", "src/python/char.rs", "src/array/dtype/string.rs"],
     [("element reads and writes at a width", "src/array/dtype/string.rs"), ("string operations", "src/ops/char.rs")],
     "differential property-based testing against Python's str methods")
prop("C22", "Dates, durations and business days follow the calendar",
     "For every datetime64 and timedelta64 array of any unit, values before 1970 included, unit conversion rounds dates towards the past (durations down), text is printed and parsed as ISO 8601 "
     "(malformed dates never become a date), and dates and durations add, subtract, scale, divide, compare, reduce, sort and accumulate exactly in the finer unit with NaT propagating, unequal to all and "
     "sorted last; combinations without meaning raise. is_busday, busday_offset and busday_count agree with counting the days one by one for every weekmask, holiday list and sign.",
     ["inputs"], "all dates, durations, units, weekmasks and holidays",
     "negative values, period boundaries, NaT, mixed units, leap days, weekmask spellings, holidays on days off, layouts, integers beyond 2^53.",
     ["src/ops/datetime.rs", "src/array/dtype/datetime64.rs", "src/python/datetime.rs"],
     [("unit conversion, civil dates and parsing", "src/array/dtype/datetime64.rs"), ("arithmetic and NaT", "src/ops/datetime.rs"), ("business days", "src/python/datetime.rs")],
     "differential property-based testing against NumPy, Python's calendar and a day-by-day model")
prop("C23", "Python functions are applied to every slice or element exactly once, in order",
     "apply_along_axis, apply_over_axes, vectorize (with otypes, several outputs or a core-dimension signature), frompyfunc, ndenumerate, ndindex, iteration and flat hand every slice or broadcast element, "
     "with its own type, to the function exactly once in C order, for every dtype, rank, axis and memory layout, and place the results at the same position (result axes in place of the reduced one) with the "
     "dtype of the first result or otypes; operands are unchanged, and an exception the function raises comes out as it is. The emath functions give the real value inside the real domain and the complex principal value outside it, and moment, skew and "
     "kurtosis equal their definitions.",
     ["inputs"], "all arrays, functions, axes and signatures",
     "rank, axis, shape and dtype of the function's result, scalar or list or array results, broadcasting, strides, negative or out-of-domain values.",
     ["src/python/functional.rs", "src/python/emath.rs", "src/python/indexing.rs", "src/ops/array_methods/reductions.rs"],
     [("apply_along_axis, vectorize and result assembly", "src/python/functional.rs"), ("domain-dependent functions", "src/python/emath.rs")],
     "differential property-based testing against NumPy with recorded calls, and exact fractions for moments")
prop("C24", "An answer depends on the elements of an array, not on its memory layout",
     "Every function, method, operator and indexing expression of the public interface gives for a view (transposed, sliced with any step, reversed, offset into a larger array, or broadcast) exactly the result - "
     "values, dtype, shape, number of results, or refusal - that it gives for a contiguous copy of the same elements; only sums of floats may round differently. Elements of the base outside the view never influence it.",
     ["inputs"], "all calls, arrays and memory layouts",
     "strides, negative steps, offsets, F order, mixed axis orders, length-one axes, dtype widths, and the vectorised fast path against the general one.",
     ["src/array/mod.rs", "src/array/views.rs", "src/array/iter.rs", "src/ops", "src/python"],
     [("strided element iteration", "src/array/iter.rs"), ("contiguous and strided loops", "src/ops/loops/strided.rs"), ("fast paths taken for contiguous input", "src/array/manipulation.rs")],
     "metamorphic property-based testing: f(view) against f(contiguous copy)")
prop("C25", "Operations change only what they write to; temporaries and views stay apart",
     "No call modifies its operands or the memory around them, and a result that NumPy makes independent of its operands (and of the other results) shares no memory with them: writing it changes nothing else. "
     "Over any program of assignments, views, slice and in-place writes, containers and nested temporaries of any size (including those whose buffers may be reused), every live array holds after every statement "
     "what NumPy's holds. In-place functions whose operands overlap, or are one and the same array, act as if the operand had been copied first.",
     ["histories", "inputs"], "all programs over arrays, views and temporaries, of any size",
     "buffer reuse for large temporaries (32768 elements and more), reference counts, views of temporaries, overlapping source and destination, the same object as source and destination.",
     ["src/python/pyarray/mod.rs", "src/ops/ufunc.rs", "src/array/mod.rs", "src/python/pyarray/dunder_item.rs", "src/python/indexing.rs"],
     [("reuse of a temporary's buffer", "src/python/pyarray/mod.rs"), ("in-place output", "src/ops/ufunc.rs"), ("assignment from overlapping views", "src/python/pyarray/dunder_item.rs")],
     "stateful model-based testing of random programs against NumPy, and aliasing invariants over generated calls")

prop("C26", "Large arrays obey the same rules as small ones",
     "Every function gives on arrays of thousands to a hundred thousand elements, in any memory layout, the result NumPy gives, element for element, as it does on small ones: "
     "integers, text, dates, indices and sorted orders exactly, floating point within rounding that grows with the size. No size of the array, length of an axis or remainder of a block changes what is computed.",
     ["inputs"], "all array sizes, including those where another algorithm, a buffer reuse or an unrolled loop takes over",
     "size thresholds (32768-element elision, FFT convolution, pairwise and blocked sums, unrolled kernels with their tails, sort algorithm switches) that small test arrays never cross.",
     ["src/ops/ufunc.rs", "src/ops/kernels/", "src/ops/array_methods/reductions.rs", "src/ops/array_methods/sorting.rs", "src/ops/numerical.rs", "src/array/manipulation.rs"],
     [("kernels and their tails", "src/ops/kernels/"), ("size thresholds", "src/ops/ufunc.rs"), ("reductions", "src/ops/array_methods/reductions.rs")],
     "differential property-based testing against NumPy with generated large arrays over a table of call expressions")

prop("C27", "What cannot be computed is refused: no crash, no made-up answer",
     "A call whose axis, count, shape, index or operand type is outside what the function can compute raises an ordinary Python exception; it never panics, aborts or reads outside its arrays, and where NumPy "
     "refuses, it does not answer with values (calls that compute nothing, and documented deviations, aside). Where a call does answer, for any dtype, any memory layout and any size down to zero, it answers what NumPy answers.",
     ["inputs"], "all arguments, valid or not, of every function",
     "arguments beyond the valid range, zero-length axes, dtypes a function was not written for (complex, dates, text, half precision), Python ints that do not fit; tests mostly exercise calls that succeed.",
     ["src/python/", "src/ops/", "src/array/"],
     [("axis and index validation", "src/python/shape.rs"), ("reductions of nothing", "src/python/reductions.rs"), ("dtype refusals", "src/python/ufuncs.rs"), ("linear algebra argument checks", "src/python/linalg.rs")],
     "property-based robustness testing: generated invalid and unusual arguments, differential against NumPy's acceptance and result, with crash attribution")

prop("C28", "The printed form of an array shows its elements, in order and in shape",
     "str, repr and format of an array show its elements in logical order, whatever the memory layout, nested in brackets as the shape nests and padded to one width: all of them up to 1000 elements, beyond that the first and last three of "
     "every axis longer than six. Integers and booleans print exactly as in NumPy without line wrapping; every float, complex number, string, date and duration shown reads back as the element (to eight decimals or significant decimals, four for float16), NaN, "
     "infinities and signed zeros included, and repr names the dtype (unless int64, float64 or bool) and the shape of what is elided or empty.",
     ["inputs"], "all arrays, dtypes, shapes and memory layouts",
     "strides, reversed views, truncation thresholds, sizes and axes just at the limits, signs and non-finite parts, tiny and huge numbers; tests print a few contiguous ranges.",
     ["src/array/format.rs", "src/array/dtype/", "src/python/pyarray/mod.rs"],
     [("layout and truncation", "src/array/format.rs"), ("one element", "src/array/dtype/macros.rs"), ("dates and durations", "src/array/dtype/datetime64.rs")],
     "property-based testing: differential against NumPy's text for integers, read-back and layout oracle for the rest")

ASAN_NOTE = "Held on every generated case (counts in the evidence file); trusts the instrumentation of AddressSanitizer and its allocator, which cover the crate and the C library calls, not precompiled dependencies."
prop("C29", "No operation reads or writes memory outside its arrays",
     "Whatever is called, on whatever arrays and views - any dtype, layout, size, operands that overlap, arguments beyond the valid range, damaged files, results used after their operands are gone - every access stays inside a live allocation: "
     "nothing is read or written before the start or past the end of a buffer, and nothing is used after it has been released.",
     ["inputs", "histories"], "all calls and programs of calls, whether their answers are right or not",
     "strides and offsets computed by hand in unsafe code, an element too many read by an unrolled loop, views that outlive their base; a stray read seldom changes an answer, so no test that looks at answers can see it.",
     ["src/array/", "src/ops/", "src/python/"],
     [("strided loops on raw pointers", "src/ops/loops/strided.rs"), ("element offsets", "src/array/iter.rs"), ("views of shared buffers", "src/array/views.rs"), ("exchange of raw memory with NumPy", "src/python/creation.rs")],
     "fuzzing with generated calls and programs against a build instrumented by AddressSanitizer")

prop("C30", "Memory that nothing refers to any more is given back",
     "However often a call or a program of calls is repeated - whether it succeeds, is refused or is interrupted by an exception raised in a Python function it calls - the memory held by the process does not grow with the number of repetitions: "
     "arrays, views, temporaries, results of conversions and whatever was built before an error are all released.",
     ["inputs", "histories"], "all calls and programs of calls, including those that fail",
     "reference cycles, buffers kept by views or by NumPy arrays made from them, work areas abandoned when a call fails half-way; tests make each call once and never measure memory.",
     ["src/array/buffer.rs", "src/array/mod.rs", "src/python/", "src/ops/"],
     [("shared buffers", "src/array/buffer.rs"), ("arrays held by Python objects", "src/python/pyarray/mod.rs"), ("callbacks into Python", "src/python/functional.rs")],
     "property-based testing: generated cases repeated under AddressSanitizer's allocator, live bytes compared")
for k in ("C29", "C30"):
    P[k]["_note"] = ASAN_NOTE
