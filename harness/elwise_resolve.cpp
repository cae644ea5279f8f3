// C06: the type level of an elementwise evaluation: which operands have the dimension, which sizes broadcast, which
// kernel factory is chosen and what type results. Types are minimal subclasses with arbitrary sizes and dimension counts;
// callees (the next dimension, the element operation, the per-dimension factory) are recording contract stubs.
#include "vp.hpp"
#include <sstream>
#include <dynd/callables/elwise_dispatch_callable.hpp>
#include <dynd/callables/elwise_entry_callable.hpp>
#include "norefs.hpp"
using namespace dynd; using namespace dynd::nd; using namespace dynd::nd::functional;
typedef long long i64;
template <typename T> struct slot { union { T v; }; slot() {} ~slot() {} T *operator->() { return &v; } T &operator*() { return v; } };
struct leaf : ndt::base_type {
  leaf() : base_type(int32_id, 4, 4, type_flag_none, 0, 0, 0) { m_use_count = 1000; }
  void print_type(std::ostream &) const {}
  bool operator==(const base_type &r) const { return this == &r; }
};
struct dimtype : ndt::base_dim_type { // same layout as fixed_dim_type: the size follows the base
  intptr_t m_dim_size;
  dimtype() : base_dim_type(fixed_dim_id, ndt::type(), 0, 1, 0, type_flag_none, false) { m_use_count = 1000; }
  void print_type(std::ostream &) const {}
  bool operator==(const base_type &r) const { return this == &r; }
  intptr_t get_dim_size(const char *, const char *) const { return m_id == fixed_dim_id ? m_dim_size : -1; }
  size_t arrmeta_copy_construct_onedim(char *, const char *, const nd::memory_block &) const { return 0; }
  ndt::type with_element_type(const ndt::type &) const { return ndt::type(); }
};
static const ndt::type &as_type(const ndt::base_type *const &p) { return reinterpret_cast<const ndt::type &>(p); }
struct call_ { int n; base_callable *self, *caller; char *codata; call_graph *cg; const ndt::base_type *res; size_t narg; const ndt::base_type *arg[3]; size_t nkwd; const array *kwds; const std::map<std::string, ndt::type> *vars; };
static call_ g_call; static const ndt::base_type *g_ret; static bool g_throws;
static ndt::type record(base_callable *self, base_callable *caller, char *codata, call_graph &cg, const ndt::type &res, size_t narg, const ndt::type *arg, size_t nkwd, const array *kwds, const std::map<std::string, ndt::type> &vars) {
  g_call.n++; g_call.self = self; g_call.caller = caller; g_call.codata = codata; g_call.cg = &cg; g_call.res = res.m_ptr; g_call.narg = narg; g_call.nkwd = nkwd; g_call.kwds = kwds; g_call.vars = &vars;
  for (size_t i = 0; i < 3; ++i) if (i < narg) g_call.arg[i] = arg[i].m_ptr;
  if (g_throws) throw std::exception();
  return as_type(g_ret);
}
struct callee : base_callable {
  callee() : base_callable(ndt::type()) {}
  ndt::type resolve(base_callable *caller, char *codata, call_graph &cg, const ndt::type &res, size_t narg, const ndt::type *arg, size_t nkwd, const array *kwds, const std::map<std::string, ndt::type> &vars) {
    return record(this, caller, codata, cg, res, narg, arg, nkwd, kwds, vars);
  }
};
template <size_t N> struct operands {
  slot<dimtype> d[N + 1]; slot<leaf> el[N + 1], ct[N + 1]; const ndt::base_type *tp[N + 1], *ctp[N + 1]; // [N] is the result
  bool absent[N], var[N]; i64 size[N], ndim, rsize; bool variadic, ignore;
  slot<callee> child, caller; slot<ndt::callable_type> ctype; slot<ndt::tuple_type> tuple; slot<call_graph> cg;
  void init() {
    ndim = any<i64>(); REQUIRES(ndim >= 1 && ndim < 64);
    for (size_t i = 0; i <= N; ++i) {
      new (&*el[i]) leaf(); new (&*ct[i]) leaf(); new (&*d[i]) dimtype();
      *(const ndt::base_type **)&d[i]->m_element_tp = &*el[i]; tp[i] = &*d[i]; ctp[i] = &*ct[i];
    }
    for (size_t i = 0; i < N; ++i) {
      i64 cn = any<i64>(), n = any<i64>(); REQUIRES(cn >= 0 && cn < 64 && n >= cn && n - cn <= ndim);
      absent[i] = n - cn < ndim; var[i] = any<bool>(); size[i] = any<i64>(); REQUIRES(size[i] >= 0);
      d[i]->m_ndim = n; ct[i]->m_ndim = cn; d[i]->m_id = n == 0 ? int32_id : var[i] ? var_dim_id : fixed_dim_id; d[i]->m_dim_size = size[i];
      if (absent[i] || var[i]) var[i] = var[i] && !absent[i];
    }
    ignore = any<bool>(); variadic = any<bool>(); bool rvar = any<bool>(); rsize = any<i64>(); REQUIRES(rsize >= 0);
    d[N]->m_id = variadic ? ellipsis_dim_id : rvar ? var_dim_id : fixed_dim_id; d[N]->m_dim_size = rsize; d[N]->flags = variadic ? type_flag_variadic : type_flag_none;
    if (rvar) rsize = -1;
    new (&*child) callee(); new (&*caller) callee();
    *(const ndt::base_type **)&child->m_tp = &*ctype; *(const ndt::base_type **)&ctype->m_return_type = &*ct[N]; *(const ndt::base_type **)&ctype->m_pos_tuple = &*tuple;
    tuple->m_field_types._M_impl._M_start = (ndt::type *)ctp; tuple->m_field_types._M_impl._M_finish = (ndt::type *)(ctp + N);
    ctype->m_id = callable_id; ctype->m_use_count = 1000; tuple->m_id = tuple_id; tuple->m_use_count = 1000;
    g_ret = &*el[N]; g_call.n = 0; g_throws = any<bool>();
  }
};
template <size_t N> struct one_dim : base_elwise_callable<N> {
  typedef typename base_elwise_callable<N>::data_type data; typedef typename base_elwise_callable<N>::codata_type codata_type;
  int n_sub, n_ret; data sub; i64 ret_size; const ndt::base_type *ret_el; call_graph *cg; bool sub_throws;
  void subresolve(call_graph &c, const char *d) { n_sub++; cg = &c; sub = *(const data *)d; ENSURES(g_call.n == 0, "kernel factories are added outermost first"); if (sub_throws) throw std::exception(); }
  ndt::type with_return_type(intptr_t size, const ndt::type &el) { n_ret++; ret_size = size; ret_el = el.m_ptr; return el; }
};
template <size_t N> static void resolve_one() {
  static operands<N> o; o.init();
  static slot<one_dim<N>> c; new (&*c) one_dim<N>(); c->n_sub = c->n_ret = 0; c->sub_throws = any<bool>();
  typename one_dim<N>::codata_type co = {&*o.child, o.ignore, any<bool>(), (size_t)o.ndim, any<bool>()};
  // the common size of the sources; a destination fixes it instead
  i64 size = o.variadic || o.ignore ? 1 : o.rsize; bool bad = false;
  if (o.variadic && !o.ignore) for (size_t i = 0; i < N; ++i) if (!o.absent[i] && !o.var[i] && size == 1) size = o.size[i];
  if (!o.ignore) for (size_t i = 0; i < N; ++i) if (!o.absent[i] && !o.var[i] && o.size[i] != 1 && size != -1 && o.size[i] != size) bad = true;
  bool last = o.ndim == 1, inner_tp = !o.variadic && !o.ignore; size_t nkwd = any<size_t>(); const array &kw = *(const array *)&co; const auto &vars = *(const std::map<std::string, ndt::type> *)&co;
  const ndt::base_type *r = NULL;
  bool t = THROWS(ndt::type x = c->base_elwise_callable<N>::resolve(&*o.caller, (char *)&co, *o.cg, as_type(o.tp[N]), N, (const ndt::type *)o.tp, nkwd, &kw, vars); r = x.m_ptr);
  ENSURES(t == (bad || c->sub_throws || g_throws), "raises exactly when the sizes do not broadcast (or an inner step raises)");
  COVER(bad); COVER(!t && last); COVER(!t && !last); COVER(!t && o.variadic && !o.ignore); COVER(!t && o.ignore);
  if (bad) { ENSURES(c->n_sub == 0 && g_call.n == 0, "nothing is evaluated when it raises"); return; }
  ENSURES(c->n_sub == 1 && c->cg == &*o.cg && c->sub.res_ignore == o.ignore, "one kernel factory for this dimension");
  for (size_t i = 0; i < N; ++i) ENSURES(c->sub.arg_broadcast[i] == o.absent[i] && c->sub.arg_var[i] == o.var[i], "operands without this dimension broadcast; var operands are marked");
  if (c->sub_throws) return;
  ENSURES(g_call.n == 1 && g_call.self == (last ? &*o.child : &*o.caller) && g_call.caller == &*c && g_call.codata == (last ? NULL : (char *)&co) && g_call.cg == &*o.cg && g_call.narg == N && g_call.nkwd == nkwd && g_call.kwds == &kw && g_call.vars == &vars, "the next dimension, or the element operation after the last one, is resolved");
  ENSURES(co.ndim == (size_t)o.ndim - 1 && co.child == &*o.child && co.res_ignore == o.ignore, "one dimension fewer remains");
  for (size_t i = 0; i < N; ++i) ENSURES(g_call.arg[i] == (o.absent[i] ? o.tp[i] : &*o.el[i]), "an operand with this dimension is reduced to its element type, another is kept");
  ENSURES(g_call.res == (last && o.variadic ? o.ctp[N] : inner_tp ? &*o.el[N] : o.tp[N]), "the destination is reduced likewise");
  if (t) return;
  if (o.ignore) ENSURES(r == g_ret && c->n_ret == 0, "an ignored result has no dimension");
  else ENSURES(c->n_ret == 1 && c->ret_size == size && c->ret_el == g_ret && r == g_ret, "the result has the common size and the type of the rest");
}
#ifdef ONE
HARNESS(r_resolve_1, "ptrbuf") { resolve_one<1>(); }
HARNESS(r_resolve_2, "ptrbuf") { resolve_one<2>(); }
HARNESS(r_resolve_3, "ptrbuf") { resolve_one<3>(); }
#endif
#ifdef ENTRY
// the number of dimensions an elementwise evaluation runs over
static int g_dispatched; static elwise_entry_callable::data_type g_data; static slot<leaf> g_state, g_plain; static unsigned g_state_args; static const ndt::type *g_args; static const ndt::base_type *g_dt;
#ifndef VP_REPLAY
extern "C" void __vp_stub__ZN4dynd15broadcast_errorC1ERKNS_3ndt4typeEPKcS4_S6_(void *, void *, const char *, void *, const char *) {}
extern "C" ndt::type __vp_stub__ZNK4dynd3ndt4type9get_dtypeEmPPc(const ndt::type *t, size_t, char **) { size_t i = t - g_args; g_dt = i < 8 && (g_state_args >> i & 1) ? &*g_state : &*g_plain; return as_type(g_dt); }
#define STUB(N) extern "C" ndt::type __vp_stub__ZN4dynd2nd10functional24elwise_dispatch_callableILm##N##EE7resolveEPNS0_13base_callableEPcRNS0_10call_graphERKNS_3ndt4typeEmPSB_mPKNS0_5arrayERKSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_St4lessISN_ESaISt4pairIKSN_SA_EEE( \
  base_callable *self, base_callable *caller, char *codata, call_graph &cg, const ndt::type &res, size_t narg, const ndt::type *arg, size_t nkwd, const array *kwds, const std::map<std::string, ndt::type> &vars) { g_dispatched = N; g_data = *(elwise_entry_callable::data_type *)codata; return record(self, caller, codata, cg, res, narg, arg, nkwd, kwds, vars); }
STUB(0) STUB(1) STUB(2) STUB(3) STUB(4) STUB(5) STUB(6) STUB(7)
#endif
template <size_t N> static void entry() {
  static operands<N> o; o.init(); new (&*g_state) leaf(); new (&*g_plain) leaf(); g_state->m_id = state_id;
  static slot<elwise_entry_callable> c; memset(&*c, 0, sizeof(elwise_entry_callable)); bool own = any<bool>(); *(base_callable **)&c->m_child = own ? &*o.child : NULL; c->m_res_ignore = o.ignore;
  *(const ndt::base_type **)&o.caller->m_tp = &*o.ctype; // without a child of its own the caller is the element operation
  g_args = (const ndt::type *)o.ctp; g_state_args = any<bool>() ? any<unsigned>() & ((1u << N) - 1) : 0; new (&*o.cg) call_graph(); g_dispatched = -1;
  for (size_t i = 0; i < N; ++i) o.absent[i] = false;
  o.d[N]->m_ndim = any<i64>(); o.ct[N]->m_ndim = any<i64>(); i64 rn = o.d[N]->m_ndim - o.ct[N]->m_ndim; REQUIRES(o.ct[N]->m_ndim >= 0 && o.ct[N]->m_ndim < 64 && rn >= 0 && rn < 64);
  i64 ndim = 0; for (size_t i = 0; i < N; ++i) { i64 k = o.d[i]->m_ndim - o.ct[i]->m_ndim; if (k > ndim) ndim = k; }
  bool given = !o.ignore && !o.variadic, bad = given && rn < ndim; if (given && rn > ndim) ndim = rn;
  size_t nkwd = any<size_t>(); const array &kw = *(const array *)&o; const auto &vars = *(const std::map<std::string, ndt::type> *)&o;
  const ndt::base_type *r = NULL; base_callable *op = own ? &*o.child : &*o.caller;
  bool t = THROWS(ndt::type x = c->elwise_entry_callable::resolve(&*o.caller, NULL, *o.cg, as_type(o.tp[N]), N, (const ndt::type *)o.tp, nkwd, &kw, vars); r = x.m_ptr);
  ENSURES(t == (bad || g_throws), "raises exactly when the destination has fewer dimensions than a source");
  COVER(bad); COVER(!t && ndim == 0); COVER(!t && ndim == 5 && o.variadic); COVER(!t && ndim == 5 && !o.variadic);
  if (bad) { ENSURES(g_call.n == 0, "nothing is evaluated when it raises"); return; }
  ENSURES(g_call.n == 1 && g_call.caller == &*c && g_call.cg == &*o.cg && g_call.narg == N && g_call.nkwd == nkwd && g_call.kwds == &kw && g_call.vars == &vars && (t || r == g_ret), "evaluated once, with its result");
  for (size_t i = 0; i < N; ++i) ENSURES(g_call.arg[i] == o.tp[i], "operands are passed on unchanged");
  if (ndim == 0) { ENSURES(g_dispatched == -1 && g_call.self == op && g_call.codata == NULL && g_call.res == (o.variadic ? o.ctp[N] : o.tp[N]), "no dimensions: the element operation itself"); return; }
  ENSURES(g_dispatched == (int)N && g_call.res == o.tp[N], "otherwise dimension by dimension");
  ENSURES(g_data.ndim == (size_t)ndim && g_data.child == op && g_data.res_ignore == o.ignore && g_data.state == (g_state_args != 0) && g_data.first, "over the largest number of dimensions of any operand");
}
HARNESS(r_entry_1, "ptrbuf") { entry<1>(); }
HARNESS(r_entry_2, "ptrbuf") { entry<2>(); }
HARNESS(r_entry_3, "ptrbuf") { entry<3>(); }
#endif
#ifdef DISPATCH
#define C_(d, s, T, N) elwise_callable<d##_dim_id, s##_dim_id, T##_traits, N>
#ifndef VP_REPLAY
#define STUB(N) extern "C" ndt::type __vp_stub__ZN4dynd2nd10functional20base_elwise_callableILm##N##EE7resolveEPNS0_13base_callableEPcRNS0_10call_graphERKNS_3ndt4typeEmPSB_mPKNS0_5arrayERKSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_St4lessISN_ESaISt4pairIKSN_SA_EEE( \
  base_callable *self, base_callable *caller, char *codata, call_graph &cg, const ndt::type &res, size_t narg, const ndt::type *arg, size_t nkwd, const array *kwds, const std::map<std::string, ndt::type> &vars) { return record(self, caller, codata, cg, res, narg, arg, nkwd, kwds, vars); }
STUB(1) STUB(2) STUB(3)
#endif
template <size_t N> static void dispatch() {
  static operands<N> o; o.init();
  static slot<elwise_dispatch_callable<N>> c; new (&*c) elwise_dispatch_callable<N>();
  bool first = any<bool>(), state = any<bool>();
  typename elwise_dispatch_callable<N>::data_type co = {&*o.child, o.ignore, state, (size_t)o.ndim, first};
  bool has_var = false, all_one = true; // of the sources that have this dimension
  for (size_t i = 0; i < N; ++i) if (!o.absent[i]) { if (o.var[i]) has_var = true; else if (o.size[i] != 1) all_one = false; }
  REQUIRES(!o.ignore || !has_var);
  bool rvar = !o.variadic && o.rsize == -1; REQUIRES(!o.ignore || !rvar);
  size_t nkwd = any<size_t>(); const array &kw = *(const array *)&co; const auto &vars = *(const std::map<std::string, ndt::type> *)&co;
  const ndt::base_type *r = NULL;
  bool t = THROWS(ndt::type x = c->elwise_dispatch_callable<N>::resolve(&*o.caller, (char *)&co, *o.cg, as_type(o.tp[N]), N, (const ndt::type *)o.tp, nkwd, &kw, vars); r = x.m_ptr);
  COVER(has_var && all_one && o.variadic); COVER(N == 1 || has_var && !all_one && o.variadic); COVER(rvar); COVER(state && !first && !t);
  ENSURES(g_call.n == 1 && t == g_throws && (t || r == g_ret), "exactly one kind of dimension is evaluated, with its result");
  int want = rvar || (o.variadic && has_var && all_one) ? 3 : has_var ? 2 : state && !first ? 1 : 0;
  static slot<C_(fixed, fixed, no, N)> k0; static slot<C_(fixed, fixed, state, N)> k1; static slot<C_(fixed, var, no, N)> k2; static slot<C_(var, fixed, no, N)> k3;
  new (&*k0) C_(fixed, fixed, no, N)(); new (&*k1) C_(fixed, fixed, state, N)(); new (&*k2) C_(fixed, var, no, N)(); new (&*k3) C_(var, fixed, no, N)();
  base_callable *k[4] = {&*k0, &*k1, &*k2, &*k3};
  ENSURES(*(void **)g_call.self == *(void **)k[want], "fixed sources give a fixed dimension, var ones a var dimension unless a fixed size determines it; the destination decides if given");
  ENSURES(g_call.caller == &*c && g_call.codata == (char *)&co && g_call.cg == &*o.cg && g_call.res == o.tp[N] && g_call.narg == N && g_call.nkwd == nkwd && g_call.kwds == &kw && g_call.vars == &vars, "the call is passed on unchanged");
  for (size_t i = 0; i < N; ++i) ENSURES(g_call.arg[i] == o.tp[i], "operands are passed on unchanged");
  ENSURES(!co.first && co.state == state && co.ndim == (size_t)o.ndim && co.res_ignore == o.ignore && co.child == &*o.child, "only the first-dimension mark is cleared");
}
HARNESS(r_dispatch_1, "ptrbuf") { dispatch<1>(); }
HARNESS(r_dispatch_2, "ptrbuf") { dispatch<2>(); }
HARNESS(r_dispatch_3, "ptrbuf") { dispatch<3>(); }
#endif
#ifdef ONE
template <typename C> static void return_type(int kind) { // 0: fixed, 1: var, 2: var if the size is 1, else fixed
  static slot<C> c; new (&*c) C(); static slot<leaf> el; new (&*el) leaf(); const ndt::base_type *e = &*el;
  el->m_data_size = any<size_t>(); el->m_metadata_size = any<uint32_t>(); el->m_ndim = any<uint32_t>();
  i64 n = any<i64>(); REQUIRES(n >= 0);
  ndt::type r = c->with_return_type(n, as_type(e));
  const ndt::base_dim_type *d = (const ndt::base_dim_type *)r.m_ptr;
  ENSURES(d->m_element_tp.m_ptr == e && d->m_ndim == el->m_ndim + 1, "a dimension of the element type");
  if (kind == 1 || kind == 2 && n == 1) { ENSURES(d->m_id == var_dim_id, "a var dimension"); return; }
  ENSURES(d->m_id == fixed_dim_id && ((const ndt::fixed_dim_type *)d)->m_dim_size == n, "a fixed dimension of the common size");
}
typedef elwise_callable<fixed_dim_id, fixed_dim_id, no_traits, 2> C_ff; typedef elwise_callable<fixed_dim_id, var_dim_id, no_traits, 2> C_fv; typedef elwise_callable<var_dim_id, fixed_dim_id, no_traits, 2> C_vf;
HARNESS(r_type_ff, "ptrbuf ufmul") { return_type<C_ff>(0); }
HARNESS(r_type_fv, "ptrbuf ufmul") { return_type<C_fv>(2); }
HARNESS(r_type_vf, "ptrbuf ufmul") { return_type<C_vf>(1); }
#endif
