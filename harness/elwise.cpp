// C06: one dimension of an elementwise evaluation: kernel factory (subresolve) + kernel, for any child kernel.
#include "vp.hpp"
#include <sstream>
#include <dynd/callables/elwise_callable.hpp>
#include <dynd/kernels/constant_kernel.hpp>
#include <dynd/kernels/elwise_kernel.hpp>
using namespace dynd; using namespace dynd::nd; using namespace dynd::nd::functional;
typedef long long i64;
static const int MAXN = 3;
#ifndef VP_REPLAY
extern "C" void __vp_stub__ZN4dynd15broadcast_errorC1EllPKcS2_(void *, long, long, const char *, const char *) {}
#endif
// static storage: objects are built but never destroyed (destruction is not the subject here)
template <typename T> struct slot { union { T v; }; slot() {} ~slot() {} T *operator->() { return &v; } T &operator*() { return v; } };
#ifndef LOOPS
// ---- recording child kernel ----
struct rec_ { uint64_t n, count; char *dst; i64 dst_stride; char *src[MAXN]; i64 src_stride[MAXN]; kernel_prefix *self; };
static rec_ g_rec; static int g_n; // number of sources
static bool g_child_throws;
static void child_strided(kernel_prefix *self, char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
  g_rec.n++; g_rec.self = self; g_rec.dst = dst; g_rec.dst_stride = dst_stride; g_rec.count = count;
  for (int i = 0; i < MAXN; ++i) if (i < g_n) { g_rec.src[i] = src[i]; g_rec.src_stride[i] = src_stride[i]; }
  if (g_child_throws) throw std::exception();
}
// ---- the node below in the call graph ----
struct node_ { int n; kernel_request_t req; char *data; const char *dst; size_t nsrc; const char *src[MAXN]; };
static node_ g_node;
static void add_child(call_graph &cg) {
  cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta, size_t nsrc, const char *const *src_arrmeta) {
    g_node.n++; g_node.req = kernreq; g_node.data = data; g_node.dst = dst_arrmeta; g_node.nsrc = nsrc;
    for (int i = 0; i < MAXN; ++i) if (i < g_n) g_node.src[i] = src_arrmeta[i];
    size_t off = kb.size();
    kb.emplace_back(sizeof(kernel_prefix));
    kernel_prefix::init(kb.get_at<kernel_prefix>(off), (void *)child_strided);
  });
}
template <typename C> struct access_ : C { using typename C::data_type; };
template <size_t N> struct D_ : base_elwise_callable<N> { typedef typename base_elwise_callable<N>::data_type type; };
struct probe_block : base_memory_block {
  char *ret; size_t asked; int n;
  char *alloc(size_t count) { n++; asked = count; return ret; }
  void debug_print(std::ostream &, const std::string &) {}
};
typedef ndt::var_dim_type::metadata_type var_md; typedef ndt::var_dim_type::data_type var_data;
// one source operand in this dimension: absent, fixed or var
struct source { bool absent, var; i64 size, stride, offset; char *data; var_data vd; alignas(16) char am[64]; const char *inner; };
template <size_t N> struct fixture {
  slot<call_graph> cg; slot<kernel_builder> kb; typename D_<N>::type d; source s[N]; const char *sam[N]; alignas(16) char dam[64];
  i64 dsize, dstride, doffset; probe_block *pb; slot<probe_block> pbs; kernel_request_t req; char state[16];
  void sources(bool allow_var) {
    g_n = N; g_rec.n = 0; g_node.n = 0; g_child_throws = any<bool>();
    for (size_t i = 0; i < N; ++i) {
      source &x = s[i]; x.absent = any<bool>(); x.var = allow_var && !x.absent && any<bool>();
      x.size = any<i64>(); x.stride = any<i64>(); x.offset = 0; x.data = (char *)(any<uint64_t>() & 0xffffffffffff); REQUIRES(x.size >= 0);
      if (x.var) { x.offset = any<i64>(); x.vd.begin = x.data; x.vd.size = x.size; x.data = (char *)&x.vd; var_md *m = (var_md *)x.am; m->stride = x.stride; m->offset = x.offset; x.inner = x.am + sizeof(var_md); }
      else { size_stride_t *m = (size_stride_t *)x.am; m->dim_size = x.size; m->stride = x.stride; x.inner = x.absent ? x.am : x.am + sizeof(size_stride_t); }
      sam[i] = x.am; d.arg_broadcast[i] = x.absent; d.arg_var[i] = x.var;
    }
    d.res_ignore = false; d.res_alignment = 1; d.ndim = 1;
    dsize = any<i64>(); dstride = any<i64>(); REQUIRES(dsize >= 0);
    req = any<bool>() ? kernel_request_single : kernel_request_strided;
    new (&*cg) call_graph();
  }
  void dst_fixed() { size_stride_t *m = (size_stride_t *)dam; m->dim_size = dsize; m->stride = dstride; }
  void dst_var() {
    pb = new (&*pbs) probe_block(); pb->ret = (char *)(any<uint64_t>() & 0xffffffffffff); pb->n = 0; doffset = any<i64>();
    var_md *m = (var_md *)dam; *(base_memory_block **)&m->blockref = pb; m->stride = dstride; m->offset = doffset;
  }
  kernel_prefix *build(size_t dst_am_size, char *expect_data) {
    add_child(*cg);
    new (&*kb) kernel_builder(cg->get());
    (*kb)(req, state, dam, N, sam);
    ENSURES(g_node.n == 1 && g_node.req == kernel_request_strided && g_node.nsrc == N, "the element operation is requested once, strided");
    ENSURES(g_node.dst == dam + dst_am_size, "destination element arrmeta follows this dimension");
    ENSURES(g_node.data == expect_data, "state passed to the inner dimension");
    for (size_t i = 0; i < N; ++i) ENSURES(g_node.src[i] == s[i].inner, "source element arrmeta: past this dimension, or the same when the source does not have it");
    return kb->get();
  }
  bool run(kernel_prefix *k, char *dst, bool &threw) {
    char *src[N];
    for (size_t i = 0; i < N; ++i) src[i] = s[i].data;
    if (req == kernel_request_single) threw = THROWS(k->single(dst, src));
    else { // one element of the enclosing dimension, through the strided entry point
      intptr_t ss[N]; for (size_t i = 0; i < N; ++i) ss[i] = any<i64>();
      threw = THROWS(k->strided(dst, any<i64>(), src, ss, 1));
    }
    for (size_t i = 0; i < N; ++i) ENSURES(src[i] == s[i].data, "the caller's source pointers are not modified");
    return threw;
  }
  char *first(size_t i) { return s[i].var ? s[i].vd.begin + s[i].offset : s[i].data; }
  i64 step(size_t i) { return s[i].absent || s[i].size == 1 ? 0 : s[i].stride; }
  void check_sources(i64 size) { // source i supplies element j at first(i) + j * step(i)
    for (size_t i = 0; i < N; ++i) {
      ENSURES(g_rec.src[i] == first(i), "each source starts at its first element");
      ENSURES(size <= 1 || g_rec.src_stride[i] == step(i), "each source advances by its stride, or stays when it broadcasts");
    }
  }
};
template <size_t N, typename Traits> static void fixed_fixed() {
  typedef elwise_callable<fixed_dim_id, fixed_dim_id, Traits, N> C;
  static slot<C> c; fixture<N> f; f.sources(false); f.dst_fixed();
  for (size_t i = 0; i < N; ++i) REQUIRES(f.s[i].absent || f.s[i].size == 1 || f.s[i].size == f.dsize); // ensured by resolve()
  c->C::subresolve(*f.cg, (const char *)&f.d);
  kernel_prefix *k = f.build(sizeof(size_stride_t), Traits::child_data(f.state));
  char dst[1]; bool t; f.run(k, dst, t);
  ENSURES(t == g_child_throws && g_rec.n == 1, "the element operation runs once over the dimension");
  ENSURES(g_rec.dst == dst && g_rec.dst_stride == f.dstride && g_rec.count == (size_t)f.dsize, "over every element of the destination");
  f.check_sources(f.dsize);
  ENSURES(g_rec.self == k->get_child(sizeof(elwise_kernel<fixed_dim_id, fixed_dim_id, Traits, N>)), "with the child kernel itself");
}
HARNESS(e_fixed_fixed_0, "ptrbuf") { fixed_fixed<0, no_traits>(); }
HARNESS(e_fixed_fixed_1, "ptrbuf") { fixed_fixed<1, no_traits>(); }
HARNESS(e_fixed_fixed_2, "ptrbuf") { fixed_fixed<2, no_traits>(); }
HARNESS(e_fixed_fixed_3, "ptrbuf") { fixed_fixed<3, no_traits>(); }
HARNESS(e_fixed_fixed_state, "ptrbuf") { fixed_fixed<2, state_traits>(); }
HARNESS(e_fixed_fixed_ignored, "ptrbuf") { // a result that is ignored: the size comes from the source
  typedef elwise_callable<fixed_dim_id, fixed_dim_id, no_traits, 2> C;
  static slot<C> c; fixture<2> f; f.sources(false); f.d.res_ignore = true;
  REQUIRES(!f.s[0].absent && (f.s[1].absent || f.s[1].size == 1 || f.s[1].size == f.s[0].size));
  c->C::subresolve(*f.cg, (const char *)&f.d);
  kernel_prefix *k = f.build(0, f.state);
  char dst[1]; bool t; f.run(k, dst, t);
  ENSURES(g_rec.n == 1 && g_rec.dst == dst && g_rec.dst_stride == 0 && g_rec.count == (size_t)f.s[0].size, "over every element of the source");
  f.check_sources(f.s[0].size);
}
template <size_t N> static void fixed_var() {
  typedef elwise_callable<fixed_dim_id, var_dim_id, no_traits, N> C;
  static slot<C> c; fixture<N> f; f.sources(true); f.dst_fixed();
  bool bad = false;
  for (size_t i = 0; i < N; ++i) {
    REQUIRES(f.s[i].var || f.s[i].absent || f.s[i].size == 1 || f.s[i].size == f.dsize);
    if (f.s[i].var && f.s[i].size != 1 && f.s[i].size != f.dsize) bad = true;
  }
  c->C::subresolve(*f.cg, (const char *)&f.d);
  kernel_prefix *k = f.build(sizeof(size_stride_t), NULL);
  char dst[1]; bool t; f.run(k, dst, t);
  ENSURES(t == (bad || g_child_throws) && g_rec.n == (bad ? 0 : 1), "raises exactly when a var source does not broadcast to the destination");
  COVER(!N || bad); COVER(!bad);
  if (bad) return;
  ENSURES(g_rec.dst == dst && g_rec.dst_stride == f.dstride && g_rec.count == (size_t)f.dsize, "over every element of the destination");
  f.check_sources(f.dsize);
}
HARNESS(e_fixed_var_0, "ptrbuf") { fixed_var<0>(); }
HARNESS(e_fixed_var_1, "ptrbuf") { fixed_var<1>(); }
HARNESS(e_fixed_var_2, "ptrbuf") { fixed_var<2>(); }
HARNESS(e_fixed_var_3, "ptrbuf") { fixed_var<3>(); }
template <size_t N> static void to_var() {
  typedef elwise_callable<var_dim_id, fixed_dim_id, no_traits, N> C;
  static slot<C> c; fixture<N> f; f.sources(true); f.dst_var();
  bool fresh = any<bool>(); var_data dst; dst.begin = fresh ? NULL : (char *)16 + (any<uint64_t>() & 0xffffffffff); dst.size = fresh ? 0 : f.dsize;
  var_data dst0 = dst;
  i64 size = fresh ? 1 : f.dsize; bool bad = fresh && f.doffset != 0;
  for (size_t i = 0; i < N; ++i) {
    i64 n = f.s[i].absent ? 1 : f.s[i].size;
    if (n == 1) continue;
    if (fresh && size == 1) size = n; else if (n != size) bad = true;
  }
  c->C::subresolve(*f.cg, (const char *)&f.d);
  kernel_prefix *k = f.build(sizeof(var_md), NULL);
  bool t; f.run(k, (char *)&dst, t);
  ENSURES(t == (bad || g_child_throws) && g_rec.n == (bad ? 0 : 1), "raises exactly when the sizes do not broadcast");
  COVER(bad && !fresh); COVER(bad && fresh); COVER(!bad && fresh); COVER(!bad && !fresh);
  if (bad || !fresh) ENSURES(dst.begin == dst0.begin && dst.size == dst0.size && f.pb->n == 0, "an allocated destination is kept");
  if (bad) return;
  if (fresh) ENSURES(f.pb->n == 1 && f.pb->asked == (size_t)size && dst.begin == f.pb->ret && dst.size == (size_t)size, "a new destination gets the common size");
  ENSURES(g_rec.dst == dst.begin + f.doffset && g_rec.count == (size_t)size && (size <= 1 || g_rec.dst_stride == f.dstride), "over every element of the destination");
  f.check_sources(size);
}
HARNESS(e_to_var_1, "ptrbuf") { to_var<1>(); }
HARNESS(e_to_var_2, "ptrbuf") { to_var<2>(); }
HARNESS(e_to_var_3, "ptrbuf") { to_var<3>(); }

#else
static int g_n;
#endif
// ---- strided entry points: any count, in order, every operand advancing by its own stride ----
struct vp_gs { char *dst, *s0, *s1, *s2; uint64_t n; i64 ds, t0, t1, t2; };
vp_gs g_vp;
static void step_(char *dst, char *const *src, int n) {
  ENSURES(dst == g_vp.dst, "destination of element i is dst + i * stride");
  if (n > 0) ENSURES(src[0] == g_vp.s0, "source 0 of element i is src + i * stride");
  if (n > 1) ENSURES(src[1] == g_vp.s1, "source 1 of element i is src + i * stride");
  if (n > 2) ENSURES(src[2] == g_vp.s2, "source 2 of element i is src + i * stride");
  g_vp.dst += g_vp.ds; g_vp.s0 += g_vp.t0; g_vp.s1 += g_vp.t1; g_vp.s2 += g_vp.t2; g_vp.n++;
}
template <int N> struct probe : base_strided_kernel<probe<N>, N> { void single(char *dst, char *const *src) { step_(dst, src, N); } };
// an elwise kernel runs its child once per element of the outer dimension
static i64 g_cs, g_t[3]; static uint64_t g_cc;
static void inner_strided(kernel_prefix *, char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
  ENSURES(count == g_cc && dst_stride == g_cs, "inner dimension covered completely");
  step_(dst, src, g_n);
}
template <typename K> static void strided_loop(K *k, int n) {
  static char b[4]; g_vp.dst = b; g_vp.s0 = b + 1; g_vp.s1 = b + 2; g_vp.s2 = b + 3; g_vp.n = 0; g_n = n;
  g_vp.ds = any<i64>(); g_vp.t0 = any<i64>(); g_vp.t1 = any<i64>(); g_vp.t2 = any<i64>();
  uint64_t count = any<uint64_t>();
  char *src[3] = {b + 1, b + 2, b + 3}; intptr_t ss[3] = {g_vp.t0, g_vp.t1, g_vp.t2};
  K::strided_wrapper(k, b, g_vp.ds, src, ss, count);
  ENSURES(g_vp.n == count, "every element, exactly once");
  ENSURES(src[0] == b + 1 && src[1] == b + 2 && src[2] == b + 3, "the caller's source pointers are not modified");
}
#ifndef LOOPS
template <int N> static void strided_probe() { probe<N> k; strided_loop(&k, N); }
HARNESS(e_strided_0, "cut=all") { strided_probe<0>(); }
HARNESS(e_strided_1, "cut=all") { strided_probe<1>(); }
HARNESS(e_strided_2, "cut=all") { strided_probe<2>(); }
HARNESS(e_strided_3, "cut=all") { strided_probe<3>(); }

#endif
// elwise kernels with their own strided entry point: single() behind its contract (proved in the other unit), the loop proved here
#ifdef LOOPS
typedef elwise_kernel<fixed_dim_id, var_dim_id, no_traits, 2> K_fv2; typedef elwise_kernel<var_dim_id, fixed_dim_id, no_traits, 2> K_vf2;
typedef elwise_kernel<fixed_dim_id, var_dim_id, no_traits, 3> K_fv3; typedef elwise_kernel<var_dim_id, fixed_dim_id, no_traits, 3> K_vf3;
#ifndef VP_REPLAY
#define STUB(d, s, n) extern "C" void __vp_stub__ZN4dynd2nd10functional13elwise_kernelILNS_9type_id_tE##d##ELS3_##s##ENS1_9no_traitsELm##n##EE6singleEPcPKS6_(void *, char *dst, char *const *src) { step_(dst, src, n); }
STUB(39, 40, 2) STUB(40, 39, 2) STUB(39, 40, 3) STUB(40, 39, 3)
#endif
template <typename K> static void own_strided(int n) {
#ifdef VP_REPLAY
  return; // single() is replaced by its contract here
#endif
  static slot<K> k; strided_loop(&*k, n); }
HARNESS(e_own_strided_fv2, "cut=all") { own_strided<K_fv2>(2); }
HARNESS(e_own_strided_vf2, "cut=all") { own_strided<K_vf2>(2); }
HARNESS(e_own_strided_fv3, "cut=all") { own_strided<K_fv3>(3); }
HARNESS(e_own_strided_vf3, "cut=all") { own_strided<K_vf3>(3); }
#endif
