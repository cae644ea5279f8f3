// native replay of a counterexample (or random search) on the real code
#include "vp.hpp"
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <vector>
std::map<std::string, void (*)()> &vp_registry() { static std::map<std::string, void (*)()> m; return m; }
static std::vector<unsigned long long> vals; static size_t pos; static bool rnd; static unsigned long long st;
static jmp_buf jb; static std::vector<unsigned long long> used; static std::vector<void *> allocs;
static unsigned long long r64() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static unsigned long long gen(int bits) {
  unsigned long long v; unsigned k = r64() % 10;
  if (k < 3) v = r64() % 10;
  else if (k < 4) v = 0 - (r64() % 10);
  else if (k < 5) v = (1ull << (r64() % 64)) + (r64() % 5) - 2;
  else if (k < 6) { static const unsigned long long sp[] = {0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x43e0000000000000ull, 0x43f0000000000000ull, 0xc3e0000000000000ull, 0x7f800000ull, 0xff800000ull, 0x7fc00000ull, 0x80000000ull, 0x3f800000ull, 0x5f000000ull, 0x5f800000ull, 0x4f000000ull}; v = sp[r64() % 16]; }
  else if (k < 7) { static const char cs[] = "0123456789+-.eE \"\\[]{},:nulltrefasNaAInf\n\t\xc3\xa9\xe2\x82\xac\xf0\x9f"; v = (unsigned char)cs[r64() % (sizeof(cs) - 1)]; }
  else if (k < 8) { double d = (double)(long long)r64() / (double)(1ull << (r64() % 63)); memcpy(&v, &d, 8); if (bits == 32) { float f = (float)d; unsigned u; memcpy(&u, &f, 4); v = u; } }
  else v = r64() >> (r64() % 64);
  return bits == 64 ? v : v & ((1ull << bits) - 1);
}
static unsigned long long nx(int bits) { unsigned long long v = rnd ? gen(bits) : (pos < vals.size() ? vals[pos] : 0); pos++; if (rnd) used.push_back(v); return v; }
extern "C" {
bool nd_bool() noexcept { return nx(8) & 1; }
uint8_t nd_u8() noexcept { return nx(8); }
uint16_t nd_u16() noexcept { return nx(16); }
uint32_t nd_u32() noexcept { return nx(32); }
uint64_t nd_u64() noexcept { return nx(64); }
void __vp_assert(bool c, const char *m) noexcept {
  if (!c) {
    printf("VP-FAIL: %s\n", m);
    if (rnd) { printf("VP-INPUT:"); for (auto v : used) printf(" %llu", v); printf("\n"); }
    fflush(stdout); _exit(3);
  }
}
void __vp_cover(bool, const char *) noexcept {}
void __vp_assume(bool c) noexcept { if (!c) { if (rnd) longjmp(jb, 1); printf("VP-ASSUME-FALSE\n"); fflush(stdout); _exit(4); } }
void __vp_region(void *, size_t) noexcept {}
void *__vp_alloc(size_t n) noexcept { void *p = malloc(n); for (size_t i = 0; i < n; i++) ((char *)p)[i] = rnd ? (char)gen(8) : (char)(0x41 + i % 25); allocs.push_back(p); return p; }
void __vp_free(void *p) noexcept { }
void __vp_havoc(void *p, size_t n) noexcept { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)nx(8); }
void __vp_track(void *) noexcept {}
void __vp_track_new(size_t, size_t) noexcept {}
uint64_t __vp_size_any() noexcept { if (rnd) { uint64_t v = r64() % (r64() % 3 ? 20 : 120); used.push_back(v); pos++; return v; } uint64_t v = nx(64); __vp_assume(v < (1ull << 28)); return v; }
bool __vp_valid(const void *, size_t) noexcept { return true; }
bool __vp_same_object(const void *, const void *) noexcept { return true; }
size_t __vp_offset(const void *) noexcept { return 0; }
void __vp_track_new_also(size_t) noexcept {}
uint64_t __vp_witness() noexcept { return 0; }
}
int main(int argc, char **argv) {
  std::string h = argv[1];
  auto it = vp_registry().find(h);
  if (it == vp_registry().end()) { printf("no harness %s\n", h.c_str()); return 5; }
  if (std::string(argv[2]) == "-random") {
    unsigned long long n = strtoull(argv[3], 0, 10), seed = strtoull(argv[4], 0, 10); rnd = true; volatile unsigned long long done = 0;
    for (volatile unsigned long long i = 0; i < n; i++) {
      st = (seed * 1000003ull + i) * 0x9E3779B97F4A7C15ull | 1; r64(); r64(); used.clear(); pos = 0;
      if (!setjmp(jb)) { it->second(); done = done + 1; }
      for (void *p : allocs) free(p); allocs.clear();
    }
    printf("VP-RANDOM-OK %llu of %llu\n", (unsigned long long)done, n); return 0;
  }
  std::ifstream f(argv[2]); unsigned long long v; while (f >> v) vals.push_back(v);
  it->second();
  for (void *p : allocs) free(p);
  printf("VP-OK\n"); return 0;
}
