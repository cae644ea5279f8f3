// C04: string and bytes values (sso_bytestring): every operation against the abstract value (size, byte at an arbitrary index).
#include "vp.hpp"
#include <algorithm>
#include <dynd/types/string_type.hpp>
#include <dynd/string.hpp>
using namespace dynd;
#ifndef NUL
#define NUL 1
#endif
#if NUL
typedef dynd::string S;
#else
typedef dynd::bytes S;
#endif
static const size_t SSO = 15 - NUL;
struct raw { int64_t p, n; };
static_assert(sizeof(S) == sizeof(raw), "");
// ---- representation invariant, restricted to the tracked index gi ----
struct val { size_t size; char c; }; // size and the byte at gi (when gi < size)
struct str {
  raw r;
  S &s() { return reinterpret_cast<S &>(r); }
  bool heap() const { return r.n < 0; }
  size_t size() const { return heap() ? (size_t)~r.n : (size_t)((uint64_t)r.n >> 56); }
  char *buf() { return heap() ? (char *)r.p + 8 : (char *)&r; }
  size_t cap() { return heap() ? *(size_t *)r.p : SSO; }
  void keep(size_t i) { if (heap() && i < cap() + NUL) __vp_track(buf() + i); }
  char at(size_t i) { return buf()[i]; }
  bool ok() {
    if (heap()) return size() <= cap() && __vp_valid((char *)r.p, cap() + 8 + NUL) && (!NUL || buf()[size()] == 0);
    if (size() > SSO) return false;
    for (size_t i = 0; i < 15; i++) if (i >= size() && ((char *)&r)[i] != 0) return false;
    return true;
  }
  // arbitrary valid value
  void any_value(size_t gi, bool heap_) {
    if (heap_) {
      size_t c = __vp_size_any(), n = __vp_size_any();
      REQUIRES(n <= c);
      char *b = new char[c + 8 + NUL];
      *(size_t *)b = c;
      if (gi < c) { __vp_track(b + 8 + gi); b[8 + gi] = any<char>(); }
      if (NUL) { __vp_track(b + 8 + n); b[8 + n] = 0; }
      r.p = (int64_t)b; r.n = ~(int64_t)n;
    } else {
      r.p = (int64_t)any<uint64_t>(); r.n = (int64_t)(any<uint64_t>() & 0x0fffffffffffffffull);
      size_t n = any<uint8_t>();
      REQUIRES(n <= SSO);
      for (size_t i = 0; i < 16; i++) if (i >= n) ((char *)&r)[i] = 0;
      ((char *)&r)[15] = (char)n;
    }
  }
};
// a foreign byte range
struct range_ { char *p; size_t n; };
static range_ foreign(size_t gi) {
  range_ f; f.n = __vp_size_any(); f.p = (char *)__vp_alloc(f.n + 1);
  if (gi < f.n) { __vp_track(f.p + gi); f.p[gi] = any<char>(); }
  return f;
}
// ranges that were found to be different really differ somewhere
static bool differs(const char *a, const char *b, size_t n) {
#ifdef VP_REPLAY
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return true;
  return false;
#else
  size_t w = __vp_witness();
  return w < n && a[w] != b[w];
#endif
}
#define NEWTRACK(gi, n) __vp_track_new((gi) + 8, (n) + 8) // keep byte gi and the terminator at n
// each case (operand kept inside the object / on the heap) is a proof of its own
#define ONE(n, o) HARNESS(s_##n##_in, o) { f_##n<0>(); } HARNESS(s_##n##_heap, o) { f_##n<1>(); }
#define TWO(n, o) HARNESS(s_##n##_in_in, o) { f_##n<0>(); } HARNESS(s_##n##_heap_in, o) { f_##n<1>(); } HARNESS(s_##n##_in_heap, o) { f_##n<2>(); } HARNESS(s_##n##_heap_heap, o) { f_##n<3>(); }
HARNESS(s_ctor, "sparse") {
  size_t gi = __vp_size_any(); range_ f = foreign(gi); NEWTRACK(gi, f.n);
  str x; new (&x.r) S(f.p, f.n);
  ENSURES(x.ok(), "valid representation");
  ENSURES(x.size() == f.n && x.s().size() == f.n, "size is that of the source");
  ENSURES(x.s().end() == x.s().begin() + f.n && x.s().begin() == x.s().data(), "begin/end delimit the bytes");
  if (gi < f.n) ENSURES(x.at(gi) == f.p[gi] && x.s().data()[gi] == f.p[gi], "bytes are those of the source");
  ENSURES(x.s().capacity() >= f.n && x.s().capacity() == x.cap(), "capacity covers the size");
  ENSURES(x.s().empty() == (f.n == 0), "empty");
  ENSURES(!x.heap() == (f.n <= SSO), "short values need no allocation");
  COVER(x.heap()); COVER(!x.heap() && f.n == SSO);
}
template <int K> static void f_copy() {
  size_t gi = __vp_size_any(); str y; y.any_value(gi, K & 1); raw old = y.r; NEWTRACK(gi, y.size());
  char c = gi < y.size() ? y.at(gi) : 0;
  str x; new (&x.r) S((const S &)y.s());
  ENSURES(x.ok() && y.ok() && y.r.p == old.p && y.r.n == old.n, "valid, source unchanged");
  ENSURES(x.size() == y.size(), "same size");
  if (gi < y.size()) ENSURES(x.at(gi) == c && y.at(gi) == c, "same bytes");
  ENSURES(!(x.heap() && y.heap()) || x.r.p != y.r.p, "copies do not share storage");
  if (K) { COVER(x.heap()); COVER(!x.heap() && y.heap()); } else COVER(!x.heap() && !y.heap());
}
ONE(copy, "sparse")
template <int K> static void f_move() {
  size_t gi = __vp_size_any(); str y; y.any_value(gi, K & 1); size_t n = y.size();
  char c = gi < n ? y.at(gi) : 0;
  str x; NEWTRACK(gi, n);
  new (&x.r) S(std::move(y.s()));
  ENSURES(x.ok() && y.ok(), "both valid");
  ENSURES(x.size() == n, "value moved");
  if (gi < n) ENSURES(x.at(gi) == c, "value moved");
  ENSURES(!(x.heap() && y.heap()) || x.r.p != y.r.p, "storage has one owner");
}
ONE(move, "sparse")
template <int K> static void f_move_assign() {
  size_t gi = __vp_size_any(); str x, y; x.any_value(0, K & 1); y.any_value(gi, K & 2); size_t n = y.size();
  char c = gi < n ? y.at(gi) : 0;
  x.s() = std::move(y.s());
  ENSURES(x.ok() && y.ok(), "both valid");
  ENSURES(x.size() == n, "value moved");
  if (gi < n) ENSURES(x.at(gi) == c, "value moved");
  ENSURES(!(x.heap() && y.heap()) || x.r.p != y.r.p, "storage has one owner");
}
TWO(move_assign, "sparse")
template <int K> static void f_assign() {
  size_t gi = __vp_size_any(); str x; x.any_value(gi, K & 1); range_ f = foreign(gi); NEWTRACK(gi, f.n); x.keep(f.n);
  x.s().assign(f.p, f.n);
  ENSURES(x.ok(), "valid representation");
  ENSURES(x.size() == f.n, "size is that of the source");
  if (gi < f.n) ENSURES(x.at(gi) == f.p[gi], "bytes are those of the source");
  COVER(x.heap()); if (!K) COVER(!x.heap());
}
ONE(assign, "sparse cost=3")
template <int K> static void f_assign_copy() {
  size_t gi = __vp_size_any(); str x, y; x.any_value(gi, K & 1); y.any_value(gi, K & 2); NEWTRACK(gi, y.size()); x.keep(y.size());
  size_t n = y.size(); char c = gi < n ? y.at(gi) : 0; raw oy = y.r;
  x.s() = (const S &)y.s();
  ENSURES(x.ok() && y.ok() && y.r.p == oy.p && y.r.n == oy.n, "valid, source unchanged");
  ENSURES(x.size() == n && y.size() == n, "same size");
  if (gi < n) ENSURES(x.at(gi) == c && y.at(gi) == c, "same bytes");
  ENSURES(!(x.heap() && y.heap()) || x.r.p != y.r.p, "copies do not share storage");
}
TWO(assign_copy, "sparse cost=3")
template <int K> static void f_assign_own() { // a range of the value itself, including all of it
  size_t gi = __vp_size_any(), off = __vp_size_any(), n = __vp_size_any(); str x; x.any_value(gi, K & 1); size_t old = x.size();
  REQUIRES(off <= old && n <= old - off);
  if (gi < n) x.keep(off + gi);
  x.keep(n);
  char c = gi < n ? x.at(off + gi) : 0; NEWTRACK(gi, n);
  x.s().assign(x.s().data() + off, n);
  ENSURES(x.ok(), "valid representation");
  ENSURES(x.size() == n, "size is that of the range");
  if (gi < n) ENSURES(x.at(gi) == c, "bytes are those of the range");
  if (K) COVER(x.heap() && off > 0 && n > 0); else COVER(!x.heap() && off > 0);
}
ONE(assign_own, "sparse cost=3")
template <int K> static void f_append() {
  size_t gi = __vp_size_any(), gj = __vp_size_any(); str x; x.any_value(gi, K & 1); size_t n = x.size(); range_ f = foreign(gj);
  char c = gi < n ? x.at(gi) : (gi - n < f.n ? f.p[gi - n] : 0);
  if (gi >= n) REQUIRES(gj == gi - n);
  NEWTRACK(gi, n + f.n); x.keep(n + f.n);
  size_t cap0 = x.cap();
  x.s().append(f.p, f.n);
  ENSURES(x.ok(), "valid representation");
  ENSURES(x.size() == n + f.n, "sizes add up");
  if (gi < n + f.n) ENSURES(x.at(gi) == c, "old bytes followed by the new ones");
  ENSURES(x.cap() == cap0 || n + f.n > cap0, "no reallocation when it fits");
  ENSURES(x.cap() <= cap0 * 3 / 2 || x.cap() <= n + f.n, "growth is bounded");
  COVER(x.heap() && gi >= n && gi < n + f.n); if (!K) COVER(!x.heap() && f.n > 0);
}
ONE(append, "sparse cost=3")
template <int K> static void f_append_own() {
  size_t gi = __vp_size_any(), off = __vp_size_any(), m = __vp_size_any(); str x; x.any_value(gi, K & 1); size_t n = x.size();
  REQUIRES(off <= n && m <= n - off);
  REQUIRES(K & 4 ? gi >= n && gi < n + m : gi < n); // a byte of the old value, or a byte of the appended range
  if ((K & 5) == 5) REQUIRES((n + m > x.cap()) == !!(K & 8));
  size_t k = gi < n ? gi : off + (gi - n);
  x.keep(k); x.keep(n + m);
  char c = x.at(k); NEWTRACK(gi, n + m); __vp_track_new_also(8 + k);
  x.s().append(x.s().data() + off, m);
  ENSURES(x.ok(), "valid representation");
  ENSURES(x.size() == n + m, "sizes add up");
  ENSURES(x.at(gi) == c, "old bytes followed by the appended range of the value itself");
  COVER(x.heap() && m > 0); if (!(K & 1)) COVER(!x.heap() && m > 0);
}
HARNESS(s_append_own_old_in, "sparse cost=3") { f_append_own<0>(); } HARNESS(s_append_own_old_heap, "sparse cost=9") { f_append_own<1>(); }
HARNESS(s_append_own_new_in, "sparse cost=3") { f_append_own<4>(); } HARNESS(s_append_own_new_heap_fits, "sparse cost=9") { f_append_own<5>(); } HARNESS(s_append_own_new_heap_grows, "sparse cost=9 sat=cadical") { f_append_own<13>(); }
template <int K> static void f_clear() {
  str x; x.any_value(0, K & 1);
  x.s().clear();
  ENSURES(x.ok() && x.size() == 0 && !x.heap(), "empty, storage released");
}
ONE(clear, "sparse")
template <int K> static void f_dtor() {
  str x; x.any_value(0, K & 1); char *b = (char *)x.r.p; bool h = x.heap();
  x.s().~S();
}
ONE(dtor, "sparse")
template <int K> static void f_reserve() {
  size_t gi = __vp_size_any(), want = __vp_size_any(); str x; x.any_value(gi, K & 1); size_t n = x.size(), cap0 = x.cap(); char c = gi < n ? x.at(gi) : 0;
  NEWTRACK(gi, n);
  x.s().reserve(want);
  ENSURES(x.ok() && x.size() == n, "same size");
  if (gi < n) ENSURES(x.at(gi) == c, "same bytes");
  ENSURES(x.s().capacity() >= want && x.s().capacity() >= cap0, "capacity as requested, never smaller");
  COVER(cap0 < want); COVER(cap0 >= want);
}
ONE(reserve, "sparse")
template <int K, bool Grow> static void do_resize() {
  size_t gi = __vp_size_any(), want = __vp_size_any(); str x; x.any_value(gi, K & 1); size_t n = x.size(), cap0 = x.cap(); char c = gi < n ? x.at(gi) : 0;
  NEWTRACK(gi, want); x.keep(want);
  Grow ? x.s().resize_grow(want) : x.s().resize(want);
  ENSURES(x.ok(), "valid representation");
  ENSURES(x.size() == want && x.s().size() == want, "exactly the requested size");
  if (gi < n && gi < want) ENSURES(x.at(gi) == c, "kept bytes are unchanged");
  ENSURES(x.s().capacity() >= want && x.s().capacity() >= cap0, "capacity covers the size");
  ENSURES(x.s().capacity() == cap0 || want > cap0, "no reallocation when it fits");
  COVER(want > n && want <= cap0); COVER(want < n); COVER(want > cap0);
}
template <int K> static void f_resize() { do_resize<K, false>(); }
template <int K> static void f_resize_grow() { do_resize<K, true>(); }
ONE(resize, "sparse")
ONE(resize_grow, "sparse")
// comparison: equal exactly when the sizes are the same and so is every byte
template <int K> static void f_eq_sound() {
  size_t gi = __vp_size_any(); str x, y; x.any_value(gi, K & 1); y.any_value(gi, K & 2); raw ox = x.r, oy = y.r;
  bool e = any<bool>() ? x.s() == y.s() : !(x.s() != y.s());
  if (e) {
    ENSURES(x.size() == y.size(), "equal values have equal sizes");
    if (gi < x.size()) ENSURES(x.at(gi) == y.at(gi), "equal values have equal bytes");
  }
  else if (x.size() == y.size()) ENSURES(differs(x.buf(), y.buf(), x.size()), "values of the same size are unequal only when a byte differs");
  ENSURES(x.r.p == ox.p && x.r.n == ox.n && y.r.p == oy.p && y.r.n == oy.n, "operands unchanged");
  COVER(e); COVER(!e && x.size() == y.size());
}
TWO(eq_sound, "sparse cost=3")
template <int K> static void f_plus() {
  size_t gi = __vp_size_any(), gj = __vp_size_any(); str x, y; x.any_value(gi, K & 1); y.any_value(gj, K & 2); size_t n = x.size(), m = y.size();
  if (gi >= n) REQUIRES(gj == gi - n);
  char c = gi < n ? x.at(gi) : (gi - n < m ? y.at(gi - n) : 0); raw ox = x.r, oy = y.r;
  NEWTRACK(gi, n + m);
  str z; new (&z.r) S(x.s() + y.s());
  ENSURES(z.ok() && x.r.p == ox.p && x.r.n == ox.n && y.r.p == oy.p && y.r.n == oy.n, "valid, operands unchanged");
  ENSURES(z.size() == n + m, "sizes add up");
  if (gi < n + m) ENSURES(z.at(gi) == c, "bytes of the left operand followed by those of the right one");
  COVER(z.heap() && gi >= n && gi < n + m); COVER(n > 0 && m > 0);
}
TWO(plus, "sparse cost=6")
template <int K> static void f_pluseq() {
  size_t gi = __vp_size_any(), gj = __vp_size_any(); str x, y; x.any_value(gi, K & 1); y.any_value(gj, K & 2); size_t n = x.size(), m = y.size();
  if (gi >= n) REQUIRES(gj == gi - n);
  char c = gi < n ? x.at(gi) : (gi - n < m ? y.at(gi - n) : 0); raw oy = y.r;
  NEWTRACK(gi, n + m); x.keep(n + m);
  x.s() += y.s();
  ENSURES(x.ok() && y.r.p == oy.p && y.r.n == oy.n, "valid, operand unchanged");
  ENSURES(x.size() == n + m, "sizes add up");
  if (gi < n + m) ENSURES(x.at(gi) == c, "old bytes followed by those of the operand");
}
TWO(pluseq, "sparse cost=3")
template <int K> static void f_pluseq_self() {
  size_t gi = __vp_size_any(); str x; x.any_value(gi, K & 1); size_t n = x.size();
  REQUIRES(gi < 2 * n);
  x.keep(gi < n ? gi : gi - n); x.keep(2 * n);
  char c = x.at(gi < n ? gi : gi - n);
  NEWTRACK(gi, 2 * n); __vp_track_new_also(8 + (gi < n ? gi : gi - n));
  x.s() += x.s();
  ENSURES(x.ok() && x.size() == 2 * n && x.at(gi) == c, "the value twice");
}
ONE(pluseq_self, "sparse cost=3")
template <int K> static void f_startswith() {
  size_t gi = __vp_size_any(); str x, y; x.any_value(gi, K & 1); y.any_value(gi, K & 2);
  bool b = string_startswith(x.s(), y.s());
  if (b) {
    ENSURES(y.size() <= x.size(), "a prefix is not longer");
    if (gi < y.size()) ENSURES(x.at(gi) == y.at(gi), "a prefix has the same bytes");
  } else if (y.size() <= x.size()) ENSURES(differs(x.buf(), y.buf(), y.size()), "rejected only when a byte differs");
  COVER(b && y.size() > 0); COVER(!b && y.size() <= x.size());
}
TWO(startswith, "sparse cost=3")
template <int K> static void f_endswith() {
  size_t gi = __vp_size_any(), gj = __vp_size_any(); str x, y; x.any_value(gi, K & 1); y.any_value(gj, K & 2);
  bool b = string_endswith(x.s(), y.s());
  if (b) {
    ENSURES(y.size() <= x.size(), "a suffix is not longer");
    if (gj < y.size() && gi == x.size() - y.size() + gj) ENSURES(x.at(gi) == y.at(gj), "a suffix has the same bytes");
  } else if (y.size() <= x.size()) ENSURES(differs(x.buf() + (x.size() - y.size()), y.buf(), y.size()), "rejected only when a byte differs");
  COVER(b && y.size() > 0); COVER(!b && y.size() <= x.size());
}
TWO(endswith, "sparse cost=3")
