// Arithmetic, bitwise, logical and comparison kernels on the built-in numbers: for one pair of types all operations, for all
// operand values.  Reference: C++ arithmetic on the native types, wrapping modulo 2^N instead of overflowing.
#include "vp.hpp"
#include <dynd/kernels/apply_function_kernel.hpp>
#include <dynd/kernels/arithmetic.hpp>
#ifdef COMPARE
#include <dynd/string.hpp>
#include <dynd/bytes.hpp>
#include <dynd/kernels/equal_kernel.hpp>
#include <dynd/kernels/not_equal_kernel.hpp>
#include <dynd/kernels/less_kernel.hpp>
#include <dynd/kernels/less_equal_kernel.hpp>
#include <dynd/kernels/greater_kernel.hpp>
#include <dynd/kernels/greater_equal_kernel.hpp>
#endif
using namespace dynd;
#ifndef VP_REPLAY
extern "C" void __vp_stub__ZN4dynd19zero_division_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, void *) {}
extern "C" void __vp_stub__ZN4dynd19zero_division_errorC1EPKc(void *, const char *) {}
#endif
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64; typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef float f32; typedef double f64; typedef bool1 b1; typedef bool b;
template <class T> struct nat { typedef T t; };
template <> struct nat<bool1> { typedef bool t; };
template <class T> T arb() { return any<T>(); }
template <> inline bool1 arb<bool1>() { return bool1(any<bool>()); }
template <class R, bool I = std::is_integral<R>::value> struct wide { typedef R t; };
template <class R> struct wide<R, true> { typedef std::make_unsigned_t<R> t; }; // integers wrap
template <class T> static bool same(T x, T y) { return x == y || (x != x && y != y); }
struct out { alignas(8) unsigned char v[16]; unsigned char old[16];
  out() { for (int i = 0; i < 16; ++i) old[i] = v[i] = any<unsigned char>(); }
  bool untouched(size_t from) { for (size_t i = 0; i < 16; ++i) if (i >= from && v[i] != old[i]) return false; return true; }
  template <class R> R get() { R r; memcpy(&r, v, sizeof(R)); return r; } };
template <class F, F f, class A, class B> static bool run(out &o, A &a, B &b) {
  typedef nd::functional::apply_function_kernel<F, f> K; alignas(K) static char self[sizeof(K)];
  char *src[2] = {(char *)&a, (char *)&b}; A a0 = a; B b0 = b;
  bool t = THROWS(((K *)self)->K::single((char *)o.v, src));
  ENSURES(!memcmp(&a, &a0, sizeof(A)) && !memcmp(&b, &b0, sizeof(B)), "the operands are not modified");
  return t;
}
template <class F, F f, class A> static bool run(out &o, A &a) {
  typedef nd::functional::apply_function_kernel<F, f> K; alignas(K) static char self[sizeof(K)];
  char *src[1] = {(char *)&a};
  return THROWS(((K *)self)->K::single((char *)o.v, src));
}
#define RUN2(NAME) { typedef decltype(&detail::inline_##NAME<A, B>::f) F; t = run<F, &detail::inline_##NAME<A, B>::f>(o, a, b); }
#define RUN1(NAME) { typedef decltype(&detail::inline_##NAME<A>::f) F; t = run<F, &detail::inline_##NAME<A>::f>(o, a); }
#define CHECK(NAME, R, VAL) ENSURES(!t, #NAME " does not raise"); ENSURES(same<R>(o.get<R>(), (R)(VAL)), #NAME " writes the result"); ENSURES(o.untouched(sizeof(R)), #NAME " writes nothing else")
#define BINARY(NAME, R, VAL) { out o; bool t; RUN2(NAME) CHECK(NAME, R, VAL); }
#define UNARY(NAME, R, VAL) { out o; bool t; RUN1(NAME) CHECK(NAME, R, VAL); }
#define ZCHECK(NAME, R, VAL, WRAP) { out o; bool t; RUN2(NAME) \
  if (y == 0) { ENSURES(t, #NAME " by zero raises"); ENSURES(o.untouched(0), #NAME " by zero writes nothing"); } \
  else if (std::is_signed<R>::value && (R)y == (R)-1) { CHECK(NAME, R, WRAP); } else { CHECK(NAME, R, VAL); } }
template <class A, class B> struct ops {
  typedef typename nat<A>::t NA; typedef typename nat<B>::t NB; typedef decltype(NA() + NB()) R; typedef typename wide<R>::t W;
  static void linear(A a, B b) { NA x = a; NB y = b; BINARY(add, R, (W)(R)x + (W)(R)y) BINARY(subtract, R, (W)(R)x - (W)(R)y) }
  static void multiply(A a, B b) { NA x = a; NB y = b; BINARY(multiply, R, (W)(R)x * (W)(R)y) }
  static void logical(A a, B b) { NA x = a; NB y = b; bool p = x != 0, q = y != 0; BINARY(logical_and, bool, p & q) BINARY(logical_or, bool, p | q) BINARY(logical_xor, int, p != q) }
  static void bitwise(A a, B b) { NA x = a; NB y = b; BINARY(bitwise_and, R, (W)(R)x & (W)(R)y) BINARY(bitwise_or, R, (W)(R)x | (W)(R)y) BINARY(bitwise_xor, R, (W)(R)x ^ (W)(R)y)
    typedef decltype(+NA()) S; typedef typename wide<S>::t V; if (y >= 0 && (u64)y < 8 * sizeof(S)) { BINARY(left_shift, S, (V)(S)x << y) BINARY(right_shift, S, (S)x < 0 ? ~(~(S)x >> y) : (S)x >> y) } }
  static void quotient(A a, B b) { NA x = a; NB y = b; ZCHECK(divide, R, (R)x / (R)y, (W)0 - (W)(R)x) }
  static void remainder(A a, B b) { NA x = a; NB y = b; ZCHECK(mod, R, (R)x % (R)y, 0) }
  static void real_quotient(A a, B b) { NA x = a; NB y = b; BINARY(divide, R, (R)x / (R)y) }
};
template <class A> struct ops1 {
  typedef typename nat<A>::t NA; typedef decltype(+NA()) R; typedef typename wide<R>::t W;
  static void all(A a) { NA x = a; UNARY(plus, R, x) UNARY(minus, R, (W)0 - (W)(R)x) UNARY(logical_not, bool, x == 0) }
  static void real(A a) { NA x = a; UNARY(plus, R, x) UNARY(minus, R, -x) UNARY(logical_not, bool, x == 0) }
  static void bits(A a) { NA x = a; UNARY(bitwise_not, R, ~(R)x) }
};
#define P(A, B) A a = arb<A>(); B b = arb<B>();
#ifdef INTS
#define INT(A, B) INT_(A, B)
#define REAL(A, B) REAL_(A, B)
#define U(A) U_(A)
#define INT_(A, B) HARNESS(a_lin_##A##_##B, "") { P(A, B) ops<A, B>::linear(a, b); ops<A, B>::logical(a, b); ops<A, B>::bitwise(a, b); } HARNESS(a_mul_##A##_##B, "uf") { P(A, B) ops<A, B>::multiply(a, b); } \
  HARNESS(a_div_##A##_##B, "uf") { P(A, B) ops<A, B>::quotient(a, b); ops<A, B>::remainder(a, b); }
#define REAL_(A, B) HARNESS(a_real_##A##_##B, "uf") { P(A, B) ops<A, B>::linear(a, b); ops<A, B>::logical(a, b); ops<A, B>::multiply(a, b); ops<A, B>::real_quotient(a, b); }
#define ROW(A) INT(A, i8) INT(A, i16) INT(A, i32) INT(A, i64) INT(A, u8) INT(A, u16) INT(A, u32) INT(A, u64) REAL(A, f32) REAL(A, f64)
ROW(INTS) INT(INTS, b1)
#define U_(A) HARNESS(a_un_##A, "") { A a = arb<A>(); ops1<A>::all(a); ops1<A>::bits(a); }
#ifndef BOOL
U(INTS)
#else
HARNESS(a_un_b1, "") { b1 a = arb<b1>(); bool x = a; typedef b1 A; UNARY(plus, bool, x) UNARY(minus, bool, x) UNARY(logical_not, bool, !x) UNARY(bitwise_not, bool, !x) }
#endif
#endif
#ifdef REALS
#define REAL(A, B) REAL_(A, B)
#define U(A) U_(A)
#define REAL_(A, B) HARNESS(a_real_##A##_##B, "uf") { P(A, B) ops<A, B>::linear(a, b); ops<A, B>::logical(a, b); ops<A, B>::multiply(a, b); ops<A, B>::real_quotient(a, b); }
#define ROW(A) REAL(A, i8) REAL(A, i16) REAL(A, i32) REAL(A, i64) REAL(A, u8) REAL(A, u16) REAL(A, u32) REAL(A, u64) REAL(A, f32) REAL(A, f64) REAL(A, b1)
ROW(REALS)
#define U_(A) HARNESS(a_un_##A, "") { A a = arb<A>(); ops1<A>::real(a); }
U(REALS)
#endif
#ifdef COMPARE
template <class K, class A, class B> static bool rel(A a, B b) {
  alignas(K) static char self[sizeof(K)]; char *src[2] = {(char *)&a, (char *)&b}; unsigned char d[8], old[8]; for (int i = 0; i < 8; ++i) old[i] = d[i] = any<unsigned char>(); A a0 = a; B b0 = b;
  ((K *)self)->K::single((char *)d, src);
  ENSURES(d[0] <= 1, "a boolean is written"); for (int i = 1; i < 8; ++i) ENSURES(d[i] == old[i], "nothing else is written");
  ENSURES(!memcmp(&a, &a0, sizeof(A)) && !memcmp(&b, &b0, sizeof(B)), "the operands are not modified");
  return d[0] != 0;
}
template <class A, class B> static void relations() {
  A a = arb<A>(); B b = arb<B>(); typedef decltype(A() + B()) P; typedef std::conditional_t<std::is_same<A, B>::value, A, P> T; T x = (T)a, y = (T)b; // as values of their common type
  ENSURES((rel<nd::equal_kernel<A, B>>(a, b)) == (x == y), "equal"); ENSURES((rel<nd::not_equal_kernel<A, B>>(a, b)) == !(x == y), "not_equal");
  ENSURES((rel<nd::less_kernel<A, B>>(a, b)) == (x < y), "less"); ENSURES((rel<nd::greater_kernel<A, B>>(a, b)) == (x > y), "greater");
  ENSURES((rel<nd::less_equal_kernel<A, B>>(a, b)) == (x <= y), "less_equal"); ENSURES((rel<nd::greater_equal_kernel<A, B>>(a, b)) == (x >= y), "greater_equal");
}
#define REL(A, B) REL_(A, B)
#define REL_(A, B) HARNESS(a_rel_##A##_##B, "uf") { relations<A, B>(); }
#define ROW(A) REL(A, b) REL(A, i8) REL(A, i16) REL(A, i32) REL(A, i64) REL(A, u8) REL(A, u16) REL(A, u32) REL(A, u64) REL(A, f32) REL(A, f64)
ROW(COMPARE)
#endif
#ifdef TUPLES
#include <dynd/kernels/equal_kernel.hpp>
#include <dynd/kernels/not_equal_kernel.hpp>
// tuples: equal exactly when every field is, whatever the fields' own comparisons do
enum { MAXF = 6 };
template <class K> struct object { alignas(16) char k[sizeof(K)]; size_t kernel_offset[MAXF]; };
struct vp_gs { uint64_t n; bool hit; }; vp_gs g_vp; static size_t *g_off0, *g_off1; static char *g_s0, *g_s1; static bool g_stop;
static void field(nd::kernel_prefix *, char *dst, char *const *src) {
  ENSURES(src[0] == g_s0 + g_off0[g_vp.n] && src[1] == g_s1 + g_off1[g_vp.n], "field i is compared with field i, at its offsets");
  ENSURES(!g_vp.hit, "the first differing field decides"); bool r = any<bool>(); *(bool1 *)dst = r; if (r == g_stop) g_vp.hit = true; g_vp.n++;
}
template <class K> static void tuple_rel(bool eq) {
  g_off0 = (size_t *)__vp_alloc(MAXF * sizeof(size_t)); g_off1 = (size_t *)__vp_alloc(MAXF * sizeof(size_t)); static object<K> o; static char s0[1], s1[1]; g_s0 = s0; g_s1 = s1; g_stop = !eq; g_vp.n = 0; g_vp.hit = false;
  K *k = (K *)o.k; k->function = (void *)&field; size_t n = any<size_t>(); REQUIRES(n <= MAXF); k->field_count = n; k->src0_data_offsets = g_off0; k->src1_data_offsets = g_off1;
  
  char *src[2] = {s0, s1}; unsigned char d[1] = {any<unsigned char>()};
  k->K::single((char *)d, src);
  ENSURES(d[0] == (g_vp.hit ? g_stop : !g_stop), "equal exactly when all fields are"); ENSURES(g_vp.hit || g_vp.n == n, "every field is compared");
}
typedef nd::equal_kernel<ndt::tuple_type, ndt::tuple_type> KE; typedef nd::not_equal_kernel<ndt::tuple_type, ndt::tuple_type> KN;
HARNESS(a_tuple_equal, "unwind=8 bounded=tuples_of_up_to_6_fields") { tuple_rel<KE>(true); }
HARNESS(a_tuple_not_equal, "unwind=8 bounded=tuples_of_up_to_6_fields") { tuple_rel<KN>(false); }
#endif
