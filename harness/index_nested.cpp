// C05: indexing through nested dimensions; apply_single_linear_index by its contract (proved in index.cpp).
#include "index_ref.hpp"
struct out_ { bool rm; i64 start, stride, size; bool threw; };
static out_ run(const irange &r, i64 n) {
  out_ o; i64 st = r.step(); o.rm = st == 0;
  if (st == 0) { i64 i = r.start(); o.threw = !(i >= -n && i < n); o.start = i < 0 ? i + n : i; o.stride = 1; o.size = 1; return o; }
  range_ w = resolve(r.start(), r.finish(), st, n); o.threw = w.err;
  if (st > 0 ? w.lo >= w.hi : w.lo <= w.hi) { o.start = 0; o.stride = 1; o.size = 0; return o; }
  o.start = w.lo; o.stride = st; o.size = count_(w.lo, w.hi, st); return o;
}
static out_ g_o; static const irange *g_ir; static i64 g_n;
static out_ setup(const irange *r, i64 n) { g_ir = r; g_n = n; return g_o = run(*r, n); }
#ifndef VP_REPLAY
extern "C" void __vp_stub__ZN4dynd25apply_single_linear_indexERKNS_6irangeEllPKNS_3ndt4typeERbRlS8_S8_(const irange &r, intptr_t n, intptr_t, const ndt::type *, bool &rm, intptr_t &a, intptr_t &b, intptr_t &c) {
  ENSURES(&r == g_ir && n == g_n, "the dimension is resolved with its own size and index");
  out_ &o = g_o;
  if (o.threw) throw std::exception();
  rm = o.rm; a = o.start; b = o.stride; c = o.size;
}
#endif
struct call_ { int n; intptr_t nind; const irange *ind; const char *am; char *oam; bool lead; char **data; nd::memory_block *ref; const ndt::type *res, *root; size_t ci; };
static call_ g_call; static i64 g_ret; static bool g_throw; static char *g_data0, *g_data1;
struct any_element : ndt::base_type {
  any_element() : base_type(string_id, 0, 1, type_flag_none, 0, 0, 0) {}
  void print_type(std::ostream &) const {}
  bool operator==(const base_type &r) const { return this == &r; }
  ndt::type apply_linear_index(intptr_t, const irange *, size_t, const ndt::type &, bool) const { return ndt::type(); }
  intptr_t apply_linear_index(intptr_t nind, const irange *ind, const char *am, const ndt::type &res, char *oam, const nd::memory_block &, size_t ci, const ndt::type &root, bool lead, char **data, nd::memory_block &ref) const {
    g_call.n++; g_call.nind = nind; g_call.ind = ind; g_call.am = am; g_call.oam = oam; g_call.lead = lead; g_call.data = data; g_call.ref = &ref; g_call.res = &res; g_call.root = &root; g_call.ci = ci;
    if (data) { g_data0 = *data; *data = g_data1; }
    if (g_throw) throw std::exception();
    return g_ret;
  }
};
struct dim { // a fixed_dim type of any size with the given element type
  alignas(16) char m[sizeof(ndt::fixed_dim_type)];
  ndt::fixed_dim_type &t() { return *(ndt::fixed_dim_type *)m; }
  dim(i64 n, const ndt::base_type *el) { memset(m, 0, sizeof m); t().m_id = fixed_dim_id; t().m_dim_size = n; *(const ndt::base_type **)&t().m_element_tp = el; }
};
HARNESS(x_nested, "ufdiv ufmul") {
  alignas(16) static char elm[sizeof(any_element)]; any_element &el = *new (elm) any_element(); i64 n = any<i64>(), n2 = any<i64>(); REQUIRES(n >= 0);
  dim d(n, &el), res(n2, &el);
  size_stride_t am[2] = {{any<i64>(), any<i64>()}, {any<i64>(), any<i64>()}}, oam[2] = {{7, 7}, {9, 9}};
  REQUIRES(am[0].dim_size == n);
  size_stride_t am0 = am[0];
  irange ir[2] = {irange(any<i64>(), any<i64>(), any<i64>()), irange(any<i64>())};
  intptr_t nind = any<bool>() ? 1 : 2; bool lead = any<bool>();
  char buf[1]; char *data = buf; g_data1 = (char *)any<uint64_t>(); g_ret = any<i64>(); g_throw = any<bool>(); g_call.n = 0;
  nd::memory_block ref, eref;
  const ndt::type &root = *(const ndt::type *)&eref;
  ndt::type rt; *(const ndt::base_type **)&rt = &res.t();
  out_ o = setup(ir, n);
  intptr_t off = 0;
  bool t = THROWS(off = d.t().ndt::fixed_dim_type::apply_linear_index(nind, ir, (const char *)am, rt, (char *)oam, eref, 3, *(const ndt::type *)&rt, lead, lead ? &data : NULL, ref));
  *(const ndt::base_type **)&rt = NULL;
  ENSURES(t == (o.threw || g_throw), "raises exactly when this or an inner index does");
  ENSURES(am[0].dim_size == am0.dim_size && am[0].stride == am0.stride, "the source is not modified");
  if (t) { COVER(o.threw); COVER(!o.threw); return; }
  i64 shift = (i64)((uint64_t)o.start * (uint64_t)am0.stride);
  ENSURES(g_call.n == 1 && g_call.nind == nind - 1 && g_call.ind == ir + 1 && g_call.am == (const char *)(am + 1) && g_call.ci == 4, "the remaining indices apply to the element dimension");
  if (o.rm) {
    ENSURES(g_call.oam == (char *)oam, "a removed dimension leaves no trace in the result");
    if (lead) ENSURES(g_call.lead && g_call.data == &data && g_data0 == buf + shift && data == g_data1 && off == g_ret, "leading dimension: the data pointer moves by index times stride before the element is indexed");
    else ENSURES(!g_call.lead && data == buf && off == (i64)((uint64_t)shift + (uint64_t)g_ret), "offset is index times stride plus the inner offset");
  } else {
    ENSURES(g_call.oam == (char *)(oam + 1) && !g_call.lead, "the element dimension follows in the result");
    ENSURES(oam[0].dim_size == o.size && oam[0].stride == (i64)((uint64_t)am0.stride * (uint64_t)o.stride), "result size and stride");
    ENSURES(off == (i64)((uint64_t)shift + (uint64_t)g_ret) && data == buf, "offset is start times stride plus the inner offset");
  }
  COVER(o.rm && lead); COVER(o.rm && !lead); COVER(!o.rm);
}
HARNESS(x_nested_leaf, "ufdiv ufmul") { // builtin elements
  i64 n = any<i64>(); REQUIRES(n >= 0);
  dim d(n, (const ndt::base_type *)(uintptr_t)float64_id);
  size_stride_t am[1] = {{any<i64>(), any<i64>()}}, oam[2] = {{7, 7}, {9, 9}};
  size_stride_t am0 = am[0];
  irange ir[1] = {irange(any<i64>(), any<i64>(), any<i64>())};
  intptr_t nind = 1; bool lead = any<bool>();
  char buf[1]; char *data = buf;
  nd::memory_block ref, eref; ndt::type rt;
  out_ o = setup(ir, n); intptr_t off = 0;
  bool t = THROWS(off = d.t().ndt::fixed_dim_type::apply_linear_index(nind, ir, (const char *)am, rt, (char *)oam, eref, 3, rt, lead, lead ? &data : NULL, ref));
  ENSURES(t == o.threw, "raises exactly when the index does");
  if (t) return;
  ENSURES(data == buf && oam[1].stride == 9 && oam[1].dim_size == 9, "nothing else is written");
  ENSURES(off == (i64)((uint64_t)o.start * (uint64_t)am0.stride), "offset is start times stride");
  if (!o.rm) ENSURES(oam[0].dim_size == o.size && oam[0].stride == (i64)((uint64_t)am0.stride * (uint64_t)o.stride), "result size and stride");
  else ENSURES(oam[0].dim_size == 7 && oam[0].stride == 7, "a removed dimension leaves no trace in the result");
}
HARNESS(x_at_single, "ufmul") {
  i64 n = any<i64>(), i = any<i64>(); REQUIRES(n >= 0);
  dim d(n, (const ndt::base_type *)(uintptr_t)float64_id);
  size_stride_t am[1] = {{any<i64>(), any<i64>()}};
  const char *a = (const char *)am, *p = (const char *)&am, *p0 = p; ndt::type et;
  bool t = THROWS(et = d.t().ndt::fixed_dim_type::at_single(i, &a, &p));
  ENSURES(t == !(i >= -n && i < n), "raises exactly when the index is outside [-n, n)");
  if (t) { ENSURES(a == (const char *)am && p == p0, "nothing changes when it raises"); return; }
  ENSURES(a == (const char *)(am + 1), "arrmeta of the element");
  ENSURES(p == p0 + (i64)((uint64_t)(i < 0 ? i + n : i) * (uint64_t)am[0].stride), "data moves by index times stride");
  ENSURES(et.get_id() == float64_id, "element type");
}
HARNESS(x_no_index, "") { // without further indices the dimension is kept as it is
  i64 n = any<i64>();
  dim d(n, (const ndt::base_type *)(uintptr_t)float64_id);
  size_stride_t am[1] = {{any<i64>(), any<i64>()}}, oam[2] = {{7, 7}, {9, 9}}, am0 = am[0]; nd::memory_block eref;
  bool t = THROWS(d.t().ndt::fixed_dim_type::arrmeta_copy_construct((char *)oam, (const char *)am, eref));
  ENSURES(!t && oam[0].dim_size == am0.dim_size && oam[0].stride == am0.stride, "the dimension is copied");
  ENSURES(oam[1].stride == 9 && oam[1].dim_size == 9, "nothing else is written");
}
