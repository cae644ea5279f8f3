// C05: index and slice resolution of one dimension.
#include "index_ref.hpp"
struct out_ { bool rm; i64 start, stride, size; bool threw; };
static out_ run(const irange &r, i64 n) {
  bool rm = any<bool>(); intptr_t a = any<i64>(), b = any<i64>(), c = any<i64>();
  out_ o; o.threw = THROWS(apply_single_linear_index(r, n, 0, NULL, rm, a, b, c));
  o.rm = rm; o.start = a; o.stride = b; o.size = c;
  return o;
}
HARNESS(x_single_index, "") {
  i64 i = any<i64>(), n = any<i64>(); REQUIRES(n >= 0);
  out_ o = run(irange(i), n);
  ENSURES(o.threw == !(i >= -n && i < n), "an index raises exactly when it is outside [-n, n)");
  if (!o.threw) ENSURES(o.rm && o.start == (i < 0 ? i + n : i) && o.size == 1, "a valid index selects that element, negative ones from the end");
  COVER(o.threw); COVER(!o.threw && i < 0);
}
HARNESS(x_apply_single_index, "") {
  i64 i = any<i64>(), n = any<i64>(), r = any<i64>(); REQUIRES(n >= 0);
  bool t = THROWS(r = apply_single_index(i, n, NULL));
  ENSURES(t == !(i >= -n && i < n), "an index raises exactly when it is outside [-n, n)");
  if (!t) ENSURES(r == (i < 0 ? i + n : i), "a valid index selects that element, negative ones from the end");
}
// the selected positions: start, start + stride, ... (size of them), exactly those before the bound
static void check_slice(const irange &ir, i64 n, const range_ &w) {
  out_ o = run(ir, n); i64 step = ir.step();
  ENSURES(o.threw == w.err, "a slice raises exactly when a bound is out of range");
  if (o.threw) return;
  ENSURES(!o.rm, "a slice keeps the dimension");
  bool fwd = step > 0;
  if (fwd ? w.lo >= w.hi : w.lo <= w.hi) { ENSURES(o.size == 0, "an empty range selects nothing"); return; }
  ENSURES(o.start == w.lo && o.start >= 0 && o.start < n, "first position");
  ENSURES(o.stride == step, "step");
  uint64_t len = fwd ? w.hi - w.lo : w.lo - w.hi, st = fwd ? (uint64_t)step : 0 - (uint64_t)step;
  ENSURES((uint64_t)o.size == (len - 1) / st + 1, "number of positions before the bound");
  ENSURES(o.size >= 1 && o.size <= n, "never more positions than elements");
}
HARNESS(x_slice, "ufdiv") {
  i64 s = any<i64>(), f = any<i64>(), step = any<i64>(), n = any<i64>(); REQUIRES(n >= 0 && step != 0);
  range_ w = resolve(s, f, step, n);
  check_slice(irange(s, f, step), n, w);
  COVER(!w.err && step > 1 && w.lo + 3 < w.hi); COVER(!w.err && step < -1 && w.hi + 3 < w.lo); COVER(w.err);
}
HARNESS(x_slice_unit, "") { // unit steps without abstraction of the division
  i64 s = any<i64>(), f = any<i64>(), n = any<i64>(); bool fwd = any<bool>(); REQUIRES(n >= 0);
  range_ w = resolve(s, f, fwd ? 1 : -1, n);
  out_ o = run(irange(s, f, fwd ? 1 : -1), n);
  ENSURES(o.threw == w.err, "a slice raises exactly when a bound is out of range");
  if (!o.threw && o.size != 0) ENSURES(o.start == w.lo && o.size == (fwd ? w.hi - w.lo : w.lo - w.hi) && o.start < n && o.start >= 0, "exactly the positions between the bounds");
  if (!o.threw) ENSURES((o.size == 0) == (fwd ? w.lo >= w.hi : w.lo <= w.hi), "empty exactly when the bounds are");
}
HARNESS(x_full, "") { // irange() is the identity
  i64 n = any<i64>(); REQUIRES(n > 0);
  ENSURES(irange().is_nop(), "the default range is the identity");
  out_ o = run(irange(), n);
  ENSURES(!o.threw && !o.rm && o.start == 0 && o.stride == 1 && o.size == n, "the default range selects everything");
  out_ q = run(irange().by(-1), n);
  ENSURES(!q.threw && !q.rm && q.start == n - 1 && q.stride == -1 && q.size == n, "the default range with step -1 reverses");
}
HARNESS(x_notation, "ufdiv") { // the comparison notation denotes the interval it spells
  i64 a = any<i64>(), b = any<i64>(), n = any<i64>(), step = any<i64>(); REQUIRES(n > 0 && a >= 0 && a < n && b >= 0 && b < MAX && step != 0);
  uint8_t k = any<uint8_t>() % 3, k2 = any<uint8_t>() % 3;
  irange r = irange().by(step); i64 s = step > 0 ? 0 : n - 1, f = step > 0 ? n : -1; // [s, f) in the direction of step
  if (step > 0) {
    if (k == 1) { r = a <= r; s = a; }
    if (k == 2) { REQUIRES(a + 1 < n); r = a < r; s = a + 1; }
    if (k2 == 1) { r = r < b; f = b < n ? b : n; }
    if (k2 == 2) { r = r <= b; f = b < n ? b + 1 : n; }
  } else {
    if (k == 1) { r = a >= r; s = a; }
    if (k == 2) { REQUIRES(a > 0); r = a > r; s = a - 1; }
    if (k2 == 1) { REQUIRES(b < n); r = r > b; f = b; }
    if (k2 == 2) { REQUIRES(b <= n); r = r >= b; f = b - 1; }
  }
  range_ w = {false, s, f};
  check_slice(r, n, w);
}
