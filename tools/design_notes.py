NOTES = {}
NOTES['C01'] = '''
One contract per (dst, src) pair, all four error modes inside: the kernel `assignment_kernel<Dst,Src,mode>::single` is called on
an arbitrary source bit pattern and compared with a reference conversion written with 128-bit integers and exact floating point
(harness/conv_spec.hpp). Bit-precise SAT, no loops, no bound. Also: source unchanged, destination untouched when it raises.
'''
NOTES['C02'] = '''
Operators of int128/uint128 are compared with the compiler's native 128-bit type on arbitrary operands; conversions like C01.
Division by a 32-bit factor is proved against schoolbook base-2^32 division with the machine division uninterpreted.
'''
NOTES['C03'] = '''
enc.cpp: the function returned by get_next/append_unicode_codepoint_function for each encoding and mode against a reference
written from the Unicode well-formedness tables, over arbitrary buffers with guard bytes. transcode.cpp: the string assignment kernels with
their transcoding loop cut; decoder and encoder are contract stubs that check they are called consecutively, with input and
room left, and may consume/produce any length or raise.
'''
DEFECTS = '''
Each was first shown on the real code by a counterexample, then repaired by a "fix:" commit; after the repair the check passes.
'''
SEEDTEXT = '''
Each was validated with tools/seedtest.sh: 380 stable tests pass with it, the demo fails with it and passes without it.
'''
CAUGHT = {}
NOTES['C04'] = '''
sso_bytestring<1> (string) and sso_bytestring<0> (bytes): each operation is run from an arbitrary valid representation (inline or
heap, any size <= capacity < 2^40) and must return to one with the right size and the right byte at an arbitrary index, which
proves every history by induction. The heap is modelled sparsely (option `sparse`): live objects with their sizes, the first 8
bytes and the bytes at the tracked indices; any other byte reads as arbitrary, and every access is checked for bounds and
liveness. memcpy obligations include non-overlap. One proof per inline/heap combination keeps each below about 3 minutes.
'''
NOTES['C05'] = '''
index.cpp proves the one-dimensional resolution (real apply_single_linear_index, apply_single_index and irange) against a
reference written from the indexing rules, for all 64-bit inputs; building the exception objects is stubbed (only that one is
thrown matters). The position count is compared through quotients modelled as an uninterpreted function with linear axioms
(option `ufdiv`), because 64-bit division is out of reach of the SAT back end; an alarm is only confirmed by running the values
natively. index_nested.cpp then checks fixed_dim_type against that contract (caller against callee contract), with an arbitrary
element type whose own apply_linear_index is a recording stub (products uninterpreted and commutative, option `ufmul`).
'''
NOTES['C06'] = '''
elwise.cpp: the real call graph of one dimension is instantiated (base_elwise_callable::resolve's captured emitters) and the
kernel run on arbitrary arrmeta, dimension sizes, strides and var data; the element kernel is a contract stub that records the
pointers, strides and count it is run with, and an arbitrary destination/source arrmeta is behind it. So composition over dimensions is
caller against callee contract. Strided execution is cut with a loop invariant (one iteration = one single with dst/src at i times the stride).
elwise_resolve.cpp: resolution (result type, which dimensions are broadcast, dispatch on dimension kinds, number of dimensions)
with types fabricated as minimal subclasses with arbitrary fields; reference counting is stubbed out (norefs.hpp) and exception
construction too. Three translation units because the callee stubbed in one is the function under proof in another.
'''
NOTES['C07'] = '''
arith.cpp instantiates the kernels the callables are built from (apply_function_kernel around the inline_<op>::f functions, the
comparison kernels) for every operator and type pair and runs the compiled `single` on arbitrary bit patterns with canary
bytes around the destination. The expected value is written independently (unsigned arithmetic in a wider type, explicit
promotion table). With option `uf`, multiplication, division and remainder of 32/64-bit integers and the floating point
operations are uninterpreted functions shared by code and expectation (plus the true axioms for divisors +1/-1), so that
operator, operand order, promotion and conversions are decided and the arithmetic circuit is not re-proved. A division that can
trap (zero divisor, minimum over -1) is an obligation in the translation. Exceptions are observed as throw of the expected type.
Tuples: children are contract stubs returning arbitrary verdicts; field count bounded at 6.
'''
