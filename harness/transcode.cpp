// C03: string assignment kernels transcode code point by code point, for strings of every length.
// The decoder/encoder are contract stubs (their contracts are proved in enc.cpp).
#include "vp.hpp"
#include <dynd/kernels/assignment_kernels.hpp>
using namespace dynd;

struct vp_gs { const char *src, *srcbase, *srcend; char *dst, *dstbase, *dstend; uint64_t pending, nul, thrown, n, trunc; };
vp_gs g_vp;
static void begin(const char *s, const char *se, char *d, char *de) { g_vp = {s, s, se, d, d, de, 0, 0, 0, 0, 0}; }

static uint32_t next_stub(const char *&it, const char *end) {
  ENSURES(it == g_vp.src, "code points are decoded consecutively");
  ENSURES(end == g_vp.srcend, "decoder is given the end of the source");
  ENSURES(it < end, "decoder is only called with input left");
  ENSURES(g_vp.pending == 0, "every decoded code point is encoded before the next is decoded");
  if (any<bool>()) { g_vp.thrown = 1; throw 1; }
  size_t k = 1 + any<uint8_t>() % 4;
  REQUIRES(k <= (size_t)(end - it));
  it += k; g_vp.src += k;
  uint32_t cp = any<uint32_t>();
  REQUIRES(cp <= 0x10ffff);
  if (cp == 0) g_vp.nul = 1;
  g_vp.pending = (uint64_t)cp + 1;
  g_vp.n++;
  return cp;
}
static void append_stub(uint32_t cp, char *&it, char *end) {
  ENSURES(g_vp.pending == (uint64_t)cp + 1, "the decoded code point is the one encoded");
  ENSURES(it == g_vp.dst, "code points are encoded consecutively");
  ENSURES(end == g_vp.dstend, "encoder is given the end of the destination");
  ENSURES(it < end, "encoder is only called with room left");
  g_vp.pending = 0;
  if (any<bool>()) { g_vp.thrown = 1; throw 1; }
  size_t k = 1 + any<uint8_t>() % 4;
  if (k <= (size_t)(end - it)) { it += k; g_vp.dst += k; }
  else if (any<bool>()) { it = end; g_vp.dst = end; g_vp.trunc = 1; }
  else { g_vp.thrown = 1; throw 1; }
}
extern "C" bool transcode_inv() {
  return (g_vp.srcbase <= g_vp.src) & (g_vp.src <= g_vp.srcend) & (g_vp.dstbase <= g_vp.dst) & (g_vp.dst <= g_vp.dstend);
}
struct fixture {
  size_t dn, sn, gi;
  char *db, *sb;
  char oldb;
  fixture() {
    dn = any<uint16_t>(); sn = any<uint16_t>(); gi = any<uint16_t>();
    REQUIRES(dn >= 1);
    REQUIRES(gi < dn + 8);
    db = (char *)__vp_alloc(dn + 8); sb = (char *)__vp_alloc(sn + 8) + 8;
    oldb = any<char>(); db[gi] = oldb; __vp_track(db + gi);
    begin(sb, sb + sn, db, db + dn);
  }
  void check(bool t, bool overflow_check, bool nulterm) {
    bool consumed = g_vp.src == g_vp.srcend || (nulterm && g_vp.nul);
    if (t) { ENSURES(g_vp.thrown || (overflow_check && !consumed && g_vp.dst == g_vp.dstend), "raises only on a bad code point or when the source does not fit"); }
    else {
      ENSURES(consumed || (g_vp.dst == g_vp.dstend && !overflow_check), "all of the source is transferred unless truncation is allowed");
      ENSURES(g_vp.pending == 0 || (nulterm && g_vp.nul), "no decoded code point is dropped");
      if (db + gi < g_vp.dst || gi >= dn) ENSURES(db[gi] == oldb, "bytes of encoded code points and beyond the field are untouched");
      else ENSURES(db[gi] == 0, "the rest of the field is zero filled");
    }
    if (gi >= dn) ENSURES(db[gi] == oldb, "nothing is written past the field");
  }
};
typedef nd::detail::assignment_kernel<ndt::fixed_string_type, ndt::fixed_string_type, assign_error_nocheck> k_ff;
typedef nd::detail::assignment_kernel<ndt::fixed_string_type, string, assign_error_nocheck> k_fs;
HARNESS(t_fixed_from_fixed, "cut=all inv=transcode_inv track cost=5") {
  fixture f;
  bool oc = any<bool>();
  k_ff k(&next_stub, &append_stub, (intptr_t)f.dn, (intptr_t)f.sn, oc);
  char *src[1] = {f.sb};
  bool t = THROWS(k.single(f.db, src));
  f.check(t, oc, true);
  ENSURES(src[0] == f.sb, "source pointer array unchanged");
  COVER(!t && g_vp.n > 3); COVER(t && !g_vp.thrown); COVER(!t && g_vp.nul);
}
struct raw_bytes { char *b; size_t n; };
HARNESS(t_fixed_from_string, "cut=all inv=transcode_inv track cost=5") {
  fixture f;
  bool oc = any<bool>();
  k_fs k(&next_stub, &append_stub, (intptr_t)f.dn, oc);
  raw_bytes s = {f.sb - 8, ~(uint64_t)f.sn};
  static_assert(sizeof(string) == sizeof(raw_bytes), "");
  char *src[1] = {(char *)&s};
  bool t = THROWS(k.single(f.db, src));
  f.check(t, oc, false);
  ENSURES(s.b == f.sb - 8 && s.n == ~(uint64_t)f.sn, "source string unchanged");
  COVER(!t && g_vp.n > 3); COVER(t && !g_vp.thrown);
}

// ---- destination is a (growing) string: its resize() is replaced by its contract (proved in C04) ----
struct vp_str { char *heap; int64_t nsize; };
vp_str *g_vp_str;
static char *vp_newbuf(size_t n) { return (char *)__vp_alloc(n + 8); }
#ifndef VP_REPLAY
extern "C" void __vp_stub__ZN4dynd14sso_bytestringILm1EE6resizeEm(vp_str *s, size_t n) {
  REQUIRES(n < ((size_t)1 << 40));
  size_t used = (size_t)(g_vp.dst - g_vp.dstbase);
  ENSURES(n >= used, "no encoded character is cut off");
  s->heap = vp_newbuf(n); s->nsize = ~(int64_t)n;
  g_vp.dstbase = s->heap + 8; g_vp.dst = g_vp.dstbase + used; g_vp.dstend = g_vp.dstbase + n;
}
#endif
extern "C" bool transcode_str_inv() {
  return (g_vp.srcbase <= g_vp.src) & (g_vp.src <= g_vp.srcend) & (g_vp.dstbase <= g_vp.dst) & (g_vp.dst <= g_vp.dstend) & (g_vp.dstend - g_vp.dstbase >= 17) & (g_vp.dstend - g_vp.dstbase < ((intptr_t)1 << 40)) &
         __vp_same_object(g_vp.dstbase, g_vp.dstend) & (g_vp_str->heap + 8 == g_vp.dstbase) & (g_vp_str->nsize == ~(int64_t)(g_vp.dstend - g_vp.dstbase));
}
static void append_str_stub(uint32_t cp, char *&it, char *end) {
#ifdef VP_REPLAY
  size_t used = (size_t)(g_vp.dst - g_vp.dstbase);
  g_vp.dstbase = ((string *)g_vp_str)->begin(); g_vp.dst = g_vp.dstbase + used; g_vp.dstend = ((string *)g_vp_str)->end();
#endif
  ENSURES(end - it >= 4, "there is room for any code point before it is encoded into a string");
  append_stub(cp, it, end);
  REQUIRES(g_vp.trunc == 0);
}
typedef nd::detail::assignment_kernel<string, ndt::fixed_string_type, assign_error_nocheck> k_sf;
HARNESS(t_string_from_fixed, "cut=all inv=transcode_str_inv track cost=5 cexunwind=24") {
  size_t sn = any<uint16_t>();
  char *sb = (char *)__vp_alloc(sn + 1);
  string_encoding_t se = any<bool>() ? string_encoding_utf_8 : any<bool>() ? string_encoding_utf_16 : string_encoding_utf_32;
#ifdef VP_REPLAY
  string str; g_vp_str = (vp_str *)&str; vp_str &s = *g_vp_str;
#else
  char *ob = vp_newbuf(0);
  vp_str s = {ob, ~(int64_t)0};
  g_vp_str = &s;
#endif
  __vp_region(&s, sizeof(s));
  begin(sb, sb + sn, 0, 0);
  k_sf k(string_encoding_utf_8, se, (intptr_t)sn, &next_stub, &append_str_stub);
  char *src[1] = {sb};
  size_t fin = 0;
  bool t = THROWS(k.single((char *)&s, src));
  if (!t) {
    ENSURES(g_vp.src == g_vp.srcend || g_vp.nul, "the whole source is transferred");
    ENSURES(g_vp.pending == 0 || g_vp.nul, "no decoded code point is dropped");
    ENSURES(((string *)&s)->size() == (size_t)(g_vp.dst - g_vp.dstbase), "the result has exactly the encoded length");
  } else ENSURES(g_vp.thrown, "raises only on a bad code point");
  COVER(!t && g_vp.n > 3); COVER(!t && g_vp.nul); COVER(t);
}
