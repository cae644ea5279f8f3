// C07: resolution of tuple/struct comparison: operands of different numbers of fields are refused.
#include "vp.hpp"
#include <sstream>
#include <dynd/callables/equal_callable.hpp>
#include <dynd/callables/not_equal_callable.hpp>
#include "norefs.hpp"
using namespace dynd; using namespace dynd::nd;
template <typename T> struct slot { union { T v; }; slot() {} ~slot() {} T *operator->() { return &v; } T &operator*() { return v; } };
enum { F = NF };
static const ndt::type &as_type(const ndt::base_type *const &p) { return reinterpret_cast<const ndt::type &>(p); }
struct leaf : ndt::base_type {
  leaf() : base_type(int32_id, 4, 4, type_flag_none, 0, 0, 0) { m_use_count = 1000; }
  void print_type(std::ostream &) const {}
  bool operator==(const base_type &r) const { return this == &r; }
};
static slot<leaf> g_leaf[2][F], g_bool; static int g_resolved; static bool g_throws; static const void *g_cg, *g_kwds; static base_callable *g_self;
static uintptr_t *g_amoff[2];
struct callee : base_callable {
  callee() : base_callable(ndt::type()) {}
  ndt::type resolve(base_callable *caller, char *, call_graph &cg, const ndt::type &res, size_t, const ndt::type *arg, size_t, const array *kwds, const std::map<std::string, ndt::type> &) {
    ENSURES(g_resolved < F && &cg == g_cg && kwds == g_kwds, "one comparison per field, in the same graph");
    ENSURES(arg[0].m_ptr == &*g_leaf[0][g_resolved] && arg[1].m_ptr == &*g_leaf[1][g_resolved], "field i of one is compared with field i of the other");
    g_resolved++; if (g_throws) throw std::exception();
    return res;
  }
};
template <class C, class K, class T> static void compare(callable &global, size_t n0, size_t n1) {
  static slot<C> c; static slot<T> tp[2]; static slot<callee> sub; static const ndt::base_type *ftp[2][F], *arg[2]; static slot<call_graph> cg; static char kb[16]; const size_t n[2] = {n0, n1};
  new (&*sub) callee(); *(base_callable **)&global = &*sub; new (&*g_bool) leaf();
  for (int i = 0; i < 2; ++i) {
    tp[i]->m_id = std::is_same<T, ndt::tuple_type>::value ? tuple_id : struct_id; tp[i]->m_use_count = 1000; tp[i]->m_field_count = n[i];
    for (int j = 0; j < F; ++j) { new (&*g_leaf[i][j]) leaf(); ftp[i][j] = &*g_leaf[i][j]; }
    tp[i]->m_field_types._M_impl._M_start = (ndt::type *)ftp[i]; tp[i]->m_field_types._M_impl._M_finish = (ndt::type *)(ftp[i] + F);
    g_amoff[i] = (uintptr_t *)__vp_alloc(F * sizeof(uintptr_t)); for (int j = 0; j < F; ++j) REQUIRES(g_amoff[i][j] < 64); tp[i]->m_arrmeta_offsets._M_impl._M_start = g_amoff[i]; tp[i]->m_arrmeta_offsets._M_impl._M_finish = g_amoff[i] + F; tp[i]->m_arrmeta_offsets._M_impl._M_end_of_storage = g_amoff[i] + F;
    arg[i] = &*tp[i];
  }
  new (&*cg) call_graph(); g_cg = &*cg; g_resolved = 0; g_throws = false; const array &kw = *(const array *)&kb; g_kwds = &kw; const ndt::base_type *bt = &*g_bool, *r = NULL;
  bool t = THROWS(ndt::type x = c->C::resolve(&*sub, NULL, *cg, as_type(bt), 2, (const ndt::type *)arg, 0, &kw, *(const std::map<std::string, ndt::type> *)&kb); r = x.m_ptr);
  ENSURES(t && g_resolved == 0, "tuples of different numbers of fields are not comparable");
}
#define CMP(OP, T) HARNESS(t_##OP##_##T##_mismatch, "unwind=12 ptrbuf bounded=tuples_of_1_and_2_fields") { bool b = any<bool>(); if (b) compare<OP##_callable<ndt::T##_type, ndt::T##_type>, OP##_kernel<ndt::T##_type, ndt::T##_type>, ndt::T##_type>(nd::OP, 1, 2); else compare<OP##_callable<ndt::T##_type, ndt::T##_type>, OP##_kernel<ndt::T##_type, ndt::T##_type>, ndt::T##_type>(nd::OP, 2, 1); }
CMP(equal, tuple) CMP(equal, struct) CMP(not_equal, tuple) CMP(not_equal, struct)
