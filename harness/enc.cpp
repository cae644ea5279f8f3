// C03: code point decoders and encoders against an independent Unicode reference.
#include "vp.hpp"
#include <dynd/string_encodings.hpp>
using namespace dynd;

// ---- reference: Unicode well-formedness tables (UTF-8 per table 3-7) ----
struct ref { bool ok; uint32_t cp; size_t len; };
static bool is_scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static bool in(uint8_t b, uint8_t lo, uint8_t hi) { return b >= lo && b <= hi; }
static ref ref8(const uint8_t *b, size_t n) {
  ref bad = {false, 0, 0};
  uint8_t a = b[0];
  if (a <= 0x7F) return {true, a, 1};
  if (in(a, 0xC2, 0xDF)) {
    if (n < 2 || !in(b[1], 0x80, 0xBF)) return bad;
    return {true, uint32_t(a & 0x1F) << 6 | uint32_t(b[1] & 0x3F), 2};
  }
  if (in(a, 0xE0, 0xEF)) {
    if (n < 3) return bad;
    uint8_t lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF;
    if (!in(b[1], lo, hi) || !in(b[2], 0x80, 0xBF)) return bad;
    return {true, uint32_t(a & 0x0F) << 12 | uint32_t(b[1] & 0x3F) << 6 | uint32_t(b[2] & 0x3F), 3};
  }
  if (in(a, 0xF0, 0xF4)) {
    if (n < 4) return bad;
    uint8_t lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
    if (!in(b[1], lo, hi) || !in(b[2], 0x80, 0xBF) || !in(b[3], 0x80, 0xBF)) return bad;
    return {true, uint32_t(a & 7) << 18 | uint32_t(b[1] & 0x3F) << 12 | uint32_t(b[2] & 0x3F) << 6 | uint32_t(b[3] & 0x3F), 4};
  }
  return bad;
}
static ref ref16(const uint8_t *p, size_t n) {
  uint32_t u = p[0] | p[1] << 8;
  if (u < 0xD800 || u > 0xDFFF) return {true, u, 2};
  if (u > 0xDBFF || n < 4) return {false, 0, 0};
  uint32_t v = p[2] | p[3] << 8;
  if (v < 0xDC00 || v > 0xDFFF) return {false, 0, 0};
  return {true, 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00), 4};
}
static ref refdec(string_encoding_t e, const uint8_t *p, size_t n) {
  uint32_t u;
  switch (e) {
  case string_encoding_ascii: return {p[0] < 0x80, p[0], 1};
  case string_encoding_ucs_2: u = p[0] | p[1] << 8; return {is_scalar(u), u, 2};
  case string_encoding_utf_8: return ref8(p, n);
  case string_encoding_utf_16: return ref16(p, n);
  default: u = p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; return {is_scalar(u), u, 4};
  }
}
static size_t refenc(string_encoding_t e, uint32_t c, uint8_t *o) { // 0: not representable
  switch (e) {
  case string_encoding_ascii: if (c > 0x7F) return 0; o[0] = c; return 1;
  case string_encoding_ucs_2: if (c > 0xFFFF || !is_scalar(c)) return 0; o[0] = c; o[1] = c >> 8; return 2;
  case string_encoding_utf_8:
    if (c < 0x80) { o[0] = c; return 1; }
    if (c < 0x800) { o[0] = 0xC0 + c / 64; o[1] = 0x80 + c % 64; return 2; }
    if (c < 0x10000) { o[0] = 0xE0 + c / 4096; o[1] = 0x80 + c / 64 % 64; o[2] = 0x80 + c % 64; return 3; }
    o[0] = 0xF0 + c / 262144; o[1] = 0x80 + c / 4096 % 64; o[2] = 0x80 + c / 64 % 64; o[3] = 0x80 + c % 64; return 4;
  case string_encoding_utf_16:
    if (c < 0x10000) { o[0] = c; o[1] = c >> 8; return 2; }
    { uint32_t d = c - 0x10000, h = 0xD800 + d / 1024, l = 0xDC00 + d % 1024; o[0] = h; o[1] = h >> 8; o[2] = l; o[3] = l >> 8; return 4; }
  default: o[0] = c; o[1] = c >> 8; o[2] = c >> 16; o[3] = c >> 24; return 4;
  }
}
static size_t unit(string_encoding_t e) { return e == string_encoding_ucs_2 || e == string_encoding_utf_16 ? 2 : e == string_encoding_utf_32 ? 4 : 1; }

static void dec(string_encoding_t e, assign_error_mode m) {
  size_t n = any<size_t>();
  REQUIRES(n >= unit(e) && n <= 4096 && n % unit(e) == 0);
  char *buf = (char *)__vp_alloc(n);
  uint8_t orig[4] = {0, 0, 0, 0};
  for (int i = 0; i < 4; i++) { uint8_t v = any<uint8_t>(); if ((size_t)i < n) { buf[i] = (char)v; orig[i] = v; } }
  ref r = refdec(e, orig, n);
  const char *it = buf, *end = buf + n;
  uint32_t cp = 0;
  bool t = THROWS(cp = get_next_unicode_codepoint_function(e, m)(it, end));
  if (m == assign_error_nocheck) {
    ENSURES(!t, "unchecked decoding does not raise");
    ENSURES(it > buf && it <= end, "unchecked decoding advances and stays inside the input");
    if (r.ok) { ENSURES(cp == r.cp, "decoded code point"); ENSURES((size_t)(it - buf) == r.len, "bytes consumed"); }
    else ENSURES(cp == '?', "malformed input is replaced by the substitute character");
  } else {
    ENSURES(t == !r.ok, "decoding raises exactly on malformed or truncated input");
    if (!t) { ENSURES(cp == r.cp, "decoded code point"); ENSURES((size_t)(it - buf) == r.len, "bytes consumed"); }
    else ENSURES(it == buf, "failed decoding leaves the input position");
  }
  for (int i = 0; i < 4; i++) if ((size_t)i < n) ENSURES((uint8_t)buf[i] == orig[i], "input is not modified");
  COVER((e != string_encoding_utf_8 && e != string_encoding_utf_16) || (r.ok && r.cp > 0xFFFF));
  COVER(r.ok); COVER(!r.ok);
}
static void enc(string_encoding_t e, assign_error_mode m) {
  size_t n = any<size_t>();
  size_t u = unit(e);
  REQUIRES(n >= u && n <= 4096 && n % u == 0);
  char *buf = (char *)__vp_alloc(n);
  uint8_t orig[8];
  for (int i = 0; i < 8; i++) { orig[i] = any<uint8_t>(); if ((size_t)i < n) buf[i] = (char)orig[i]; }
  uint32_t cp = any<uint32_t>();
  REQUIRES(is_scalar(cp));
  char *it = buf, *end = buf + n;
  uint8_t w[4];
  size_t len = refenc(e, cp, w);
  bool t = THROWS(get_append_unicode_codepoint_function(e, m)(cp, it, end));
  if (len != 0 && len <= n) {
    ENSURES(!t, "encoding a representable code point that fits does not raise");
    ENSURES((size_t)(it - buf) == len, "bytes produced");
    for (size_t i = 0; i < 4; i++) if (i < len) ENSURES((uint8_t)buf[i] == w[i], "encoded bytes");
    for (size_t i = 0; i < 8; i++) if (i >= len && i < n) ENSURES((uint8_t)buf[i] == orig[i], "bytes after the code point are untouched");
    ref r = refdec(e, w, len);
    ENSURES(r.ok && r.cp == cp, "reference round trip");
  } else if (m != assign_error_nocheck) {
    ENSURES(t, "encoding raises when the code point cannot be represented or does not fit");
  } else {
    ENSURES(!t, "unchecked encoding does not raise");
    ENSURES(it > buf && it <= end, "unchecked encoding stays inside the output");
    if (len == 0) { uint8_t q[4]; size_t k = refenc(e, '?', q); ENSURES((size_t)(it - buf) == k, "bytes of the substitute character"); for (size_t i = 0; i < 2; i++) if (i < k) ENSURES((uint8_t)buf[i] == q[i], "unrepresentable code points become the substitute character"); }
    else { ENSURES(it == end, "a code point that does not fit ends the output"); for (size_t i = 0; i < 4; i++) if (i < n) ENSURES(buf[i] == 0, "the rest of the output is zero filled"); }
  }
  COVER(len != 0 && len <= n); COVER((e != string_encoding_utf_8 && e != string_encoding_utf_16) || len > n);
  COVER((e != string_encoding_ascii && e != string_encoding_ucs_2) || len == 0);
}
#define B(e, k, m) \
  HARNESS(h_dec_##e##_##k, "unwind=10 cost=3") { dec(string_encoding_##e, m); } \
  HARNESS(h_enc_##e##_##k, "unwind=10 cost=3") { enc(string_encoding_##e, m); }
#define A(e) B(e, n, assign_error_nocheck) B(e, o, assign_error_overflow) B(e, i, assign_error_inexact) B(e, f, assign_error_fractional)
A(ascii) A(ucs_2) A(utf_8) A(utf_16) A(utf_32)

// real encoder followed by real decoder is the identity
static void rt(string_encoding_t e) {
  uint32_t cp = any<uint32_t>();
  REQUIRES(is_scalar(cp));
  char b[8]; uint8_t w[4];
  char *o = b;
  bool t = THROWS(get_append_unicode_codepoint_function(e, assign_error_inexact)(cp, o, b + 8));
  if (t) { ENSURES(refenc(e, cp, w) == 0, "only unrepresentable code points raise"); return; }
  const char *i = b; uint32_t c = 0;
  ENSURES(!THROWS(c = get_next_unicode_codepoint_function(e, assign_error_inexact)(i, o)), "encoded code point decodes");
  ENSURES(c == cp && i == o, "decode(encode(cp)) == cp");
}
#define R(e) HARNESS(h_roundtrip_##e, "unwind=10 cost=2") { rt(string_encoding_##e); }
R(ascii) R(ucs_2) R(utf_8) R(utf_16) R(utf_32)
