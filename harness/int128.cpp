#include "conv_spec.hpp"
#include <dynd/int128.hpp>
#include <dynd/uint128.hpp>
using vp::nat; using vp::arb;
typedef __int128 I; typedef unsigned __int128 U;
template <class T> static typename nat<T>::t N(T v) { return nat<T>::to(v); }
template <class T> static void addsub() {
  T a = arb<T>(), b = arb<T>();
  const U x = (U)N(a), y = (U)N(b);
  ENSURES((U)N(a + b) == x + y, "sum modulo 2^128");
  ENSURES((U)N(a - b) == x - y, "difference modulo 2^128");
  ENSURES((U)N(-a) == -x, "negation modulo 2^128");
  ENSURES((U)N(~a) == ~x, "complement");
  ENSURES((U)N(+a) == x, "unary plus");
  ENSURES((!a) == (x == 0), "logical not");
  ENSURES((U)N(a) == x && (U)N(b) == y, "operands unchanged");
}
template <class T> static void compare() {
  T a = arb<T>(), b = arb<T>();
  const typename nat<T>::t x = N(a), y = N(b);
  ENSURES((a < b) == (x < y), "less");
  ENSURES((a <= b) == (x <= y), "less or equal");
  ENSURES((a > b) == (x > y), "greater");
  ENSURES((a >= b) == (x >= y), "greater or equal");
  ENSURES((a == b) == (x == y), "equal");
  ENSURES((a != b) == (x != y), "not equal");
  int k = any<int>();
  ENSURES((a == k) == ((I)k == (I)x && (k >= 0 || vp::is_sgn<typename nat<T>::t>::value)), "equal to an int");
  ENSURES((a != k) == !((I)k == (I)x && (k >= 0 || vp::is_sgn<typename nat<T>::t>::value)), "not equal to an int");
  ENSURES((bool)a == (x != 0), "conversion to bool");
}
template <class T> static void mul() {
  T a = arb<T>();
  uint32_t k = any<uint32_t>();
  const U x = (U)N(a);
  const U lo = (uint64_t)(uint32_t)x * (uint64_t)k, mid = (uint64_t)(uint32_t)(x >> 32) * (uint64_t)k;
  const U hi = (uint64_t)(x >> 64) * (uint64_t)k;
  ENSURES((U)N(a * k) == (U)(lo + (mid << 32) + (hi << 64)), "product modulo 2^128");
}
HARNESS(g_i128_addsub, "") { addsub<dynd::int128>(); }
HARNESS(g_u128_addsub, "") { addsub<dynd::uint128>(); }
HARNESS(g_i128_compare, "") { compare<dynd::int128>(); }
HARNESS(g_u128_compare, "") { compare<dynd::uint128>(); }
HARNESS(g_i128_mul, "smt=cvc5") { mul<dynd::int128>(); }
HARNESS(g_u128_mul, "smt=cvc5") { mul<dynd::uint128>(); }
HARNESS(g_i128_addassign, "") {
  dynd::int128 a = arb<dynd::int128>(), b = arb<dynd::int128>();
  const U x = (U)N(a), y = (U)N(b);
  a += b;
  ENSURES((U)N(a) == x + y, "compound sum modulo 2^128");
  const U z = (U)N(a);
  a.negate();
  ENSURES((U)N(a) == -z, "in-place negation modulo 2^128");
  ENSURES(a.is_negative() == ((I)(U)N(a) < 0), "sign test");
}
HARNESS(g_u128_small, "") {
  dynd::uint128 a = arb<dynd::uint128>();
  const U x = N(a);
  uint64_t k = any<uint64_t>(); uint32_t m = any<uint32_t>();
  ENSURES(N(a + k) == x + k, "sum with 64-bit operand");
  ENSURES(N(a + m) == x + m, "sum with 32-bit operand");
  ENSURES(N(a - k) == x - k, "difference with 64-bit operand");
  ENSURES((a == k) == (x == k), "equal to 64-bit");
  ENSURES((a != k) == (x != k), "not equal to 64-bit");
  ENSURES((a == m) == (x == m), "equal to 32-bit");
  ENSURES((a != m) == (x != m), "not equal to 32-bit");
}
HARNESS(g_u128_div, "ufdiv") {
  dynd::uint128 a = arb<dynd::uint128>();
  uint32_t k = any<uint32_t>();
  REQUIRES(k != 0);
  const U x = N(a);
  dynd::uint128 q = a / k;
  uint32_t r = any<uint32_t>();
  dynd::uint128 b = a;
  b.divrem(k, r);
  // long division in base 2^32 over 64-bit words (the schoolbook definition)
  const uint64_t h = (uint64_t)(x >> 64), l = (uint64_t)x;
  const uint64_t q2 = h / k, m = ((h % k) << 32) | (l >> 32), q1 = m / k, z = ((m % k) << 32) | (uint32_t)l, q0 = z / k;
  ENSURES(q.m_hi == q2 && q.m_lo == ((q1 << 32) | q0), "quotient");
  ENSURES(b.m_hi == q2 && b.m_lo == ((q1 << 32) | q0), "quotient of divrem");
  ENSURES(r == (uint32_t)(z % k), "remainder");
  ENSURES(N(a) == x, "dividend unchanged");
}

template <class T, class F> static void from_real() {
  F v = any<F>();
  typedef typename nat<T>::t NT;
  REQUIRES(vp::tfits<NT>(v));
  COVER(v > F(1e30));
  T r(v);
  ENSURES(N(r) == (NT)v, "integer part of the value");
}
HARNESS(g_i128_from_f32, "t=600") { from_real<dynd::int128, float>(); }
HARNESS(g_i128_from_f64, "t=600") { from_real<dynd::int128, double>(); }
HARNESS(g_u128_from_f32, "t=600") { from_real<dynd::uint128, float>(); }
HARNESS(g_u128_from_f64, "t=600") { from_real<dynd::uint128, double>(); }
// a value with at most 24 (53) significant bits converts exactly
template <class T, class F, class M> static void to_real() {
  typedef typename nat<T>::t NT;
  M m = any<M>();
  REQUIRES(m < ((M)1 << (sizeof(F) == 4 ? 24 : 53)));
  unsigned sh = any<unsigned char>();
  REQUIRES(sh < 128);
  bool neg = vp::is_sgn<NT>::value && any<bool>();
  U u = (U)m << sh;
  REQUIRES((u >> sh) == (U)m && (!vp::is_sgn<NT>::value || u <= ((U)1 << 127) - !neg));
  COVER(sh > 64);
  U w = neg ? -u : u;
  T a((uint64_t)(w >> 64), (uint64_t)w);
  F want = (F)u;
  ENSURES((F)a == (neg ? -want : want), "exactly representable value is preserved");
}
HARNESS(g_i128_to_f32, "t=600") { to_real<dynd::int128, float, uint32_t>(); }
HARNESS(g_i128_to_f64, "t=600") { to_real<dynd::int128, double, uint64_t>(); }
HARNESS(g_u128_to_f32, "t=600") { to_real<dynd::uint128, float, uint32_t>(); }
HARNESS(g_u128_to_f64, "t=600") { to_real<dynd::uint128, double, uint64_t>(); }
