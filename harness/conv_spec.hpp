// Ideal semantics of a conversion between built-in numeric types, independent of dynd's code.
#pragma once
#include "vp.hpp"
#include <dynd/assignment.hpp>
#include <dynd/kernels/assignment_kernels.hpp>
#include <dynd/complex.hpp>
namespace vp {
using namespace dynd;
typedef dynd::complex<float> cf;
typedef dynd::complex<double> cd;
// the mathematical value of the library's 128-bit integer classes
template <class T> struct nat { typedef T t; static T to(T v) { return v; } };
template <> struct nat<dynd::int128> { typedef __int128 t; static t to(dynd::int128 v) { return (t)(((unsigned __int128)v.m_hi << 64) | v.m_lo); } };
template <> struct nat<dynd::uint128> { typedef unsigned __int128 t; static t to(dynd::uint128 v) { return ((t)v.m_hi << 64) | v.m_lo; } };
template <class T> struct is_cx : std::false_type {};
template <class T> struct is_cx<dynd::complex<T>> : std::true_type {};
template <class T> struct bits { static const int n = 8 * sizeof(T); };
template <class T> struct is_int { static const bool value = !std::is_floating_point<T>::value && !is_cx<T>::value && !std::is_same<T, bool1>::value; };
template <class T> struct is_sgn { static const bool value = T(-1) < T(0); };
template <class T> T arb() { return any<T>(); }
template <> inline dynd::int128 arb<dynd::int128>() { uint64_t h = any<uint64_t>(); return dynd::int128(h, any<uint64_t>()); }
template <> inline dynd::uint128 arb<dynd::uint128>() { uint64_t h = any<uint64_t>(); return dynd::uint128(h, any<uint64_t>()); }
template <> inline bool1 arb<bool1>() { return bool1(any<bool>()); }
template <> inline cf arb<cf>() { float a = any<float>(); return cf(a, any<float>()); }
template <> inline cd arb<cd>() { double a = any<double>(); return cd(a, any<double>()); }
template <class T> T imax() { return is_sgn<T>::value ? (T)(((unsigned __int128)1 << (bits<T>::n - 1)) - 1) : (T) ~(T)0; }
template <class T> T imin() { return is_sgn<T>::value ? (T)(-imax<T>() - 1) : (T)0; }
// is the integer v representable as D?
template <class D, class S> bool fits(S v) {
  if (is_sgn<S>::value && v < 0) return is_sgn<D>::value && (__int128)v >= (__int128)imin<D>();
  return (unsigned __int128)v <= (unsigned __int128)imax<D>();
}
template <class V> V pow2(int n) { return (V)((uint64_t)1 << (n / 4)) * (V)((uint64_t)1 << (n / 4)) * (V)((uint64_t)1 << (n / 4)) * (V)((uint64_t)1 << (n - 3 * (n / 4))); }
// does trunc(v) lie in D's range?
template <class D, class V> bool tfits(V v) {
  const int n = bits<D>::n - (is_sgn<D>::value ? 1 : 0);
  V hi = pow2<V>(n);
  if (is_sgn<D>::value) return v < hi && (bits<D>::n <= (sizeof(V) == 4 ? 24 : 53) ? v > -hi - 1 : v >= -hi);
  return v < hi && v > -1;
}
template <class V> bool nan(V v) { return v != v; }
template <class V> bool fin(V v) { return v - v == 0; }
template <class V> bool eqn(V a, V b) { return a == b || (a != a && b != b); }
enum mode { nocheck, overflow, fractional, inexact };

// --- int -> int
template <class D, class S, mode M, bool DI = is_int<D>::value, bool SI = is_int<S>::value> struct core;
template <class D, class S, mode M> struct core<D, S, M, true, true> {
  static bool may_throw(S v) { return M != nocheck && !fits<D>(v); }
  static bool may_pass(S v) { return M == nocheck || fits<D>(v); }
  static bool right(S v, D d) { return d == (D)v; }
};
// --- float -> int
template <class D, class S, mode M> struct core<D, S, M, true, false> {
  static bool integral(S v) { return tfits<D>(v) && (S)(D)v == v; }
  static bool may_throw(S v) {
    if (M == nocheck) return false;
    if (!tfits<D>(v)) return true;
    D t = (D)v;
    if (M == overflow) return (t == imax<D>() && v > (S)t) || (t == imin<D>() && v < (S)t);
    return (S)t != v;
  }
  static bool may_pass(S v) {
    if (M == nocheck) return true;
    return M == overflow ? tfits<D>(v) : integral(v);
  }
  static bool right(S v, D d) { return !tfits<D>(v) || d == (D)v; }
};
// --- int -> float
template <class D, class S, mode M> struct core<D, S, M, false, true> {
  static bool exact(S v) {
    D r = (D)v;
    return tfits<S>(r) && (S)r == v;
  }
  static bool may_throw(S v) { return M == inexact && !exact(v); }
  static bool may_pass(S v) { return M != inexact || exact(v); }
  // 64-bit sources: nearest value; 128-bit sources: exact whenever the value is representable
  static bool right(S v, D d) { return sizeof(S) == 16 ? (!exact(v) || d == (D)v) : d == (D)v; }
};
// --- float -> float
template <class D, class S, mode M> struct core<D, S, M, false, false> {
  static const bool narrow = sizeof(D) < sizeof(S);
  static bool toobig(S v) { return narrow && (v > (S)std::numeric_limits<D>::max() || v < -(S)std::numeric_limits<D>::max()); }
  static bool may_throw(S v) {
    if (M == nocheck) return false;
    if (!fin(v)) return true; // left open for infinities and NaN
    if (!narrow) return false;
    if (toobig(v)) return true;
    return M == inexact && (S)(D)v != v;
  }
  static bool may_pass(S v) {
    if (!narrow || M == nocheck || !fin(v)) return true;
    if (toobig(v)) return false;
    return M != inexact || (S)(D)v == v;
  }
  static bool right(S v, D d) { return eqn(d, (D)v); }
};

template <mode M> struct dmode;
template <> struct dmode<nocheck> { static const assign_error_mode m = assign_error_nocheck; };
template <> struct dmode<overflow> { static const assign_error_mode m = assign_error_overflow; };
template <> struct dmode<fractional> { static const assign_error_mode m = assign_error_fractional; };
template <> struct dmode<inexact> { static const assign_error_mode m = assign_error_inexact; };

// generic scalar/complex dispatch
template <class D, class S, mode M> struct spec {
  typedef core<D, S, M> C;
  static bool may_throw(S v) { return C::may_throw(v); }
  static bool may_pass(S v) { return C::may_pass(v); }
  static bool right(S v, D d) { return C::right(v, d); }
};
template <class S, mode M> struct spec<bool1, S, M> {
  static bool ok(S v) { return v == S(0) || v == S(1); }
  static bool may_throw(S v) { return M != nocheck && !ok(v); }
  static bool may_pass(S v) { return M == nocheck || ok(v); }
  static bool right(S v, bool1 d) { return (bool)d == !(v == S(0)); }
};
template <mode M> struct spec<bool1, bool1, M> {
  static bool may_throw(bool1) { return false; }
  static bool may_pass(bool1) { return true; }
  static bool right(bool1 v, bool1 d) { return (bool)d == (bool)v; }
};
template <class D, mode M> struct spec<D, bool1, M> {
  static bool may_throw(bool1) { return false; }
  static bool may_pass(bool1) { return true; }
  static bool right(bool1 v, D d) { return d == ((bool)v ? D(1) : D(0)); }
};
template <class D, class T, mode M> struct spec<D, dynd::complex<T>, M> {
  typedef core<D, T, M> C;
  static bool may_throw(dynd::complex<T> v) { return M != nocheck && (v.imag() != 0 || C::may_throw(v.real()) || !fin(v.real())); }
  static bool may_pass(dynd::complex<T> v) { return M == nocheck || (v.imag() == 0 && C::may_pass(v.real())); }
  static bool right(dynd::complex<T> v, D d) { return C::right(v.real(), d); }
};
template <class T, mode M> struct spec<bool1, dynd::complex<T>, M> {
  typedef dynd::complex<T> X;
  static bool ok(X v) { return v.imag() == 0 && (v.real() == 0 || v.real() == 1); }
  static bool may_throw(X v) { return M != nocheck && !ok(v); }
  static bool may_pass(X v) { return M == nocheck || ok(v); }
  static bool right(X v, bool1 d) { return (bool)d == !(v.real() == 0 && v.imag() == 0); }
};
template <class T, class S, mode M> struct spec<dynd::complex<T>, S, M> {
  typedef core<T, S, M> C;
  static bool may_throw(S v) { return C::may_throw(v); }
  static bool may_pass(S v) { return C::may_pass(v); }
  static bool right(S v, dynd::complex<T> d) { return d.imag() == 0 && C::right(v, d.real()); }
};
template <class T, mode M> struct spec<dynd::complex<T>, bool1, M> {
  static bool may_throw(bool1) { return false; }
  static bool may_pass(bool1) { return true; }
  static bool right(bool1 v, dynd::complex<T> d) { return d.imag() == 0 && d.real() == ((bool)v ? 1 : 0); }
};
template <class T, class U, mode M> struct spec<dynd::complex<T>, dynd::complex<U>, M> {
  typedef core<T, U, M> C;
  typedef dynd::complex<U> X;
  static bool may_throw(X v) { return C::may_throw(v.real()) || C::may_throw(v.imag()) ; }
  static bool may_pass(X v) { return C::may_pass(v.real()) && C::may_pass(v.imag()); }
  static bool right(X v, dynd::complex<T> d) { return C::right(v.real(), d.real()) && C::right(v.imag(), d.imag()); }
};

template <class T> bool same_bytes(const T &a, const T &b) {
  const unsigned char *p = (const unsigned char *)&a, *q = (const unsigned char *)&b;
  bool r = true;
  for (size_t i = 0; i < sizeof(T); ++i) r = r & (p[i] == q[i]);
  return r;
}
template <class D, class S, mode M> static inline void conv1(S s) {
  D d = arb<D>(), d0 = d;
  S s0 = s;
  typedef typename nat<D>::t ND;
  typedef typename nat<S>::t NS;
  const NS n0 = nat<S>::to(s);
  bool thr = false;
  typedef nd::detail::assignment_kernel<D, S, dmode<M>::m> K;
  K k;
  char *const src[1] = {(char *)&s};
  try {
    k.single((char *)&d, src);
  } catch (...) {
    thr = true;
  }
#define MN (M == nocheck ? "nocheck" : M == overflow ? "overflow" : M == fractional ? "fractional" : "inexact")
  if (thr) {
    ENSURES((spec<ND, NS, M>::may_throw(n0)), M == nocheck ? "nocheck: never raises" : M == overflow ? "overflow: raises only for out-of-range values" : M == fractional ? "fractional: raises only when range or fraction is lost" : "inexact: raises only when the value is not exactly representable");
    ENSURES(same_bytes(d, d0), "destination unchanged when the conversion raises");
  } else {
    ENSURES((spec<ND, NS, M>::may_pass(n0)), M == nocheck ? "nocheck: passes" : M == overflow ? "overflow: an out-of-range value must raise" : M == fractional ? "fractional: a lost fraction or range must raise" : "inexact: an inexact conversion must raise");
    ENSURES((!spec<ND, NS, M>::may_pass(n0) || spec<ND, NS, M>::right(n0, nat<D>::to(d))), M == nocheck ? "nocheck: converted value" : M == overflow ? "overflow: converted value" : M == fractional ? "fractional: converted value" : "inexact: converted value");
    __vp_cover(true, M == nocheck ? "nocheck passes" : M == overflow ? "overflow passes" : M == fractional ? "fractional passes" : "inexact passes");
  }
  ENSURES(same_bytes(s, s0), "source unchanged");
}
template <class D, class S> static inline void conv() {
  S s = arb<S>();
  conv1<D, S, nocheck>(s);
  conv1<D, S, overflow>(s);
  conv1<D, S, fractional>(s);
  conv1<D, S, inexact>(s);
}
}
using vp::cf;
using vp::cd;
using dynd::bool1;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef float f32; typedef double f64; typedef bool1 b1;
typedef dynd::int128 i128; typedef dynd::uint128 u128;
#define CONV2(D, S) HARNESS(h_##D##_from_##S, VPOPTS) { vp::conv<D, S>(); }
#define CONV(D, S) CONV2(D, S)
