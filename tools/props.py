# Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py).
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), level='proof', note='', technique='contract-based deductive verification of the real code (clang IR -> CBMC, obligations discharged for all inputs)'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, state=list(state), level=level, note=note, technique=technique))
def na(id, title, statement, over, qtext, why, files, mechanism, reason):
    prop(id, title, statement, over, qtext, why, files, mechanism)
    P[-1]['na'] = reason

prop('C01', 'Numeric assignment keeps the value or raises, per error mode',
 'Assigning between any two of the built-in bool, 8- to 64-bit integer, float, double and complex types writes the mathematically converted value (fraction truncated, int-to-float rounded to nearest, bool as 0/1) when it is representable. Under the overflow mode an out-of-range value or a dropped imaginary part raises, under the fractional mode also a dropped fraction, under the inexact mode any change of value, and none of them raises for a finite value that its mode permits; without checking nothing raises. An assignment that raises leaves the destination untouched, and the source is never modified.',
 ['inputs', 'configurations'], 'all source bit patterns (including NaN, infinities, 2^N boundaries) x 13x13 type pairs x 4 error modes',
 'The tests convert a few dozen hand-picked values per pair; boundary values such as 2^63 or values whose rounding crosses the range limit are not among them.',
 ['include/dynd/assignment.hpp', 'include/dynd/kernels/assignment_kernels.hpp', 'include/dynd/parse_util.hpp', 'include/dynd/math.hpp', 'include/dynd/complex.hpp'],
 'assignment_kernel<Dst,Src,mode>::single over overflow_cast / fractional_cast / check_cast / is_overflow; one kernel per (dst, src, mode)',
 note='every obligation is discharged without bounds for all 676 (dst, src, mode) kernels; choice of the kernel by the assign callable is not covered here')
prop('C02', '128-bit integers behave as two\'s complement 128-bit integers',
 'The 128-bit signed and unsigned integer types add, subtract, negate, complement, multiply and divide by a 32-bit factor, and compare exactly as two\'s complement 128-bit integers do, for all operand values. Converting between them and the other integer types preserves the value when it is representable and otherwise raises in the checked error modes (wraps without checking); converting from float or double yields the integer part of an in-range value, and converting to float or double is exact for every exactly representable value.',
 ['inputs'], 'all pairs of 128-bit operands, all 32/64-bit second operands, all finite in-range floating point values',
 'The tests construct a handful of small 128-bit values; carries, borrows, sign extension and the word boundary are never exercised.',
 ['include/dynd/int128.hpp', 'include/dynd/uint128.hpp', 'src/dynd/int128.cpp', 'src/dynd/uint128.cpp', 'include/dynd/assignment.hpp'],
 'int128/uint128 member operators on (m_hi, m_lo) and the assignment kernels instantiated with them', note='division is proved against schoolbook base-2^32 long division with the machine divide uninterpreted')

prop('C03', 'String encodings decode, encode and transcode exactly',
 'For ASCII, UCS-2, UTF-8, UTF-16 and UTF-32, checked decoding of any input raises exactly when the next sequence is malformed or truncated and otherwise returns its code point and advances past it; unchecked decoding never raises, yields a question mark for a bad sequence and always advances, never past the input. Encoding a valid code point writes exactly its encoding, and never outside the buffer: one that does not fit or is not representable raises when checked, and is replaced or zero filled when unchecked. Decoding an encoded code point gives it back. Assigning a string to a fixed-size string transfers its code points in order up to a terminator, raises or truncates when they do not fit, zero fills the rest and writes nothing past the field; assigning a fixed-size string to a string transfers all of it.',
 ['inputs', 'configurations'], 'all byte sequences and code points for every encoding and both error modes; strings and fields of every length below 64 KiB, any decoder and encoder behaviour allowed by their contracts',
 'The tests transcode a few well-formed strings; malformed and truncated sequences, code points that straddle the end of the field and buffers that must grow mid-string are hardly sampled.',
 ['src/dynd/string_encodings.cpp', 'thirdparty/utf8/source/utf8/core.h', 'thirdparty/utf8/source/utf8/checked.h', 'include/dynd/kernels/assignment_kernels.hpp'],
 'get_next_unicode_codepoint_function / get_append_unicode_codepoint_function and assignment_kernel<fixed_string, fixed_string|string>, assignment_kernel<string, fixed_string>::single',
 note='transcoding loops proved with invariants against decoder/encoder contracts; unchecked encoders are given valid code points')
prop('C04', 'String and bytes values keep exactly their bytes',
 'A string or bytes value always holds exactly the bytes it was given, whatever its length and however it got there: construction, copying, moving, assignment, append, concatenation, reserve, resize and clear leave it with the size and bytes that operation defines, every kept byte unchanged and (for strings) NUL terminated, also when the source is a range of the value itself. The capacity always covers the size and is backed by storage with a single owner: no operation reads or writes outside it, uses it after release or frees it twice; copies do not share it, and it is reallocated only when the capacity does not suffice. Equality and the prefix and suffix tests hold exactly when sizes and bytes match.',
 ['inputs', 'histories'], 'all lengths below 2^40 and all bytes, inline and allocated operands in every combination, every capacity, sources that alias the value; each operation from an arbitrary valid state',
 'The tests build a few short and long strings; the inline limit, exact capacity, aliasing sources and the terminator after each kind of resize are not covered.',
 ['include/dynd/types/sso_bytestring.hpp', 'include/dynd/string.hpp', 'include/dynd/bytes.hpp', 'include/dynd/types/string_type.hpp'],
 'sso_bytestring<0|1> (m_pointer, m_size): assign / append / reserve / resize / clear / operator== and the string and bytes operators built on them',
 note='representation invariant and byte contract at an arbitrary index, preserved by each operation from an arbitrary valid state, hence over every history')
prop('C05', 'Indexing and slicing select exactly the elements denoted, never one outside',
 'An integer index i on a dimension of size n selects element i, or n + i when i is negative, exactly when -n <= i < n, and raises otherwise. A slice (start, finish, step) selects exactly the positions start, start + step, ... lying before finish in the direction of step, for every step up to the integer limits; negative bounds count from the end, a missing bound means the end of the dimension, a bound beyond the far end (finish past the last element, start before the first one of a forward slice) is clamped, and any other bound outside the dimension raises. The irange comparison notation denotes the interval it spells. A fixed dimension turns this into addresses: the offset is the first position times the stride plus what the remaining indices give on the element dimension, a kept dimension gets the selected count and stride times step, a removed one leaves no trace, and the source arrmeta is untouched.',
 ['inputs'], 'all 64-bit indices, bounds, steps, dimension sizes and strides; any element type below a fixed dimension (behind its own indexing contract)',
 'The tests index small arrays with a few ordinary ranges; bounds exactly at, just past and far past the ends, huge steps and their combinations are sampled at best.',
 ['src/dynd/shape_tools.cpp', 'include/dynd/shape_tools.hpp', 'include/dynd/irange.hpp', 'src/dynd/types/fixed_dim_type.cpp'],
 'apply_single_linear_index, apply_single_index, irange operators, fixed_dim_type::apply_linear_index / at_single / arrmeta_copy_construct',
 note='64-bit quotients (and in the nested harnesses products) are uninterpreted functions with true axioms; the nested dimension is checked against the contract of the one-dimensional resolution')
prop('C06', 'Elementwise evaluation broadcasts and visits every element exactly once',
 'Evaluating an operation elementwise over operands of any number of dimensions applies it to exactly the elements of the broadcast result, each once and in order: dimensions are aligned at the last one, and in each of them every operand starts at its first element and advances by its own stride, or stays put when the operand lacks the dimension or has size one in it, whether its dimension is fixed, strided or var. It raises exactly when two sizes other than one differ, when a source has more dimensions than the given destination, or when the destination would have to be broadcast. A destination var dimension not allocated yet gets the common size, an allocated one keeps its storage; without a destination the result has as many dimensions as the widest operand, each of the common size.',
 ['inputs'], 'every size, stride, offset and dimension kind of 0 to 3 operands and any element operation (behind its contract); strided execution for every count',
 'The tests combine a few small shapes; size-one dimensions in every position, missing dimensions, mixtures of fixed and var dimensions and allocated var destinations are mostly not among them.',
 ['include/dynd/kernels/elwise_kernel.hpp', 'include/dynd/callables/elwise_callable.hpp', 'include/dynd/callables/base_elwise_callable.hpp', 'include/dynd/callables/elwise_dispatch_callable.hpp', 'include/dynd/callables/elwise_entry_callable.hpp', 'include/dynd/kernels/base_kernel.hpp'],
 'elwise_kernel<fixed|var, fixed|var>::single / strided and the instantiation of the per-dimension callables (resolve, arrmeta offsets, strides)',
 note='one dimension at a time against the contract of the inner callable/kernel, hence any number of dimensions by induction; 1 to 3 operands (templates over N); nullary evaluation into a var dimension is not covered')

prop('C07', 'Arithmetic, logical and comparison operators compute the C++ result',
 'For operands of the built-in bool, 8- to 64-bit integer, float and double types, every operator yields the value C++ gives in the promoted common type: integer addition, subtraction, multiplication and negation wrap modulo two to the width, logical operators treat any nonzero value as true, shifts by a count within the width match the C++ shift. Integer division or modulo by zero raises and leaves the destination untouched; the minimum divided by minus one wraps, its remainder is zero; floating division by zero does not raise. Each comparison compares the operands converted to their common type, so every pair satisfies at most one of less, equal and greater. Two tuples or structs are equal exactly when all corresponding fields are, wherever each keeps its fields, and are not comparable (raises) when their numbers of fields differ. Operands are never modified and nothing but the destination element is written.',
 ['inputs'], 'all bit patterns of both operands, for every pair of 11 element types and every operator; tuples of up to 6 fields at any offsets',
 'The tests apply each operator to a few small values of a few types; zero divisors, minimum over minus one, wrap-around, mixed signedness and NaN operands are not among them for most type pairs.',
 ['include/dynd/kernels/arithmetic.hpp', 'include/dynd/kernels/apply_function_kernel.hpp', 'include/dynd/kernels/equal_kernel.hpp', 'include/dynd/kernels/not_equal_kernel.hpp', 'include/dynd/kernels/less_kernel.hpp', 'include/dynd/kernels/less_equal_kernel.hpp', 'include/dynd/kernels/greater_kernel.hpp', 'include/dynd/kernels/greater_equal_kernel.hpp', 'include/dynd/bool1.hpp'],
 'apply_function_kernel::single around inline_<op>::f; <comparison>_kernel::single',
 note='32/64-bit products, quotients and all floating sums/products/quotients are uninterpreted functions on both sides (the operator and its operands are decided, not the arithmetic unit); tuple comparison loops are bounded at 6 fields (labelled bounded) and the instantiation of the field kernels is not decided; complex and 128-bit operands are not covered here')
