// Contract/harness vocabulary.  Under clang -> ll2c -> CBMC the nd_* functions are
// arbitrary values and __vp_assert/__vp_assume are obligations/preconditions.  The
// same file compiled natively (-DVP_REPLAY) replays a counterexample on the real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
bool nd_bool() noexcept; uint8_t nd_u8() noexcept; uint16_t nd_u16() noexcept; uint32_t nd_u32() noexcept; uint64_t nd_u64() noexcept;
void __vp_assert(bool, const char *) noexcept;
void __vp_cover(bool, const char *) noexcept;
void __vp_assume(bool) noexcept;
void __vp_region(void *, size_t) noexcept;
void *__vp_alloc(size_t) noexcept;
void __vp_free(void *) noexcept;
void __vp_havoc(void *, size_t) noexcept;
void __vp_track(void *) noexcept; // option track: bulk copies/fills keep only the tracked bytes precise
void __vp_track_new(size_t, size_t) noexcept; // ... and the bytes at these offsets of every new array
void __vp_track_new_also(size_t) noexcept;
uint64_t __vp_size_any() noexcept; // any size below 2^40
bool __vp_valid(const void *, size_t) noexcept;
bool __vp_same_object(const void *, const void *) noexcept;
size_t __vp_offset(const void *) noexcept;
uint64_t __vp_witness() noexcept; // index of the difference that the last memcmp() found (verifier only)
}
#define REQUIRES(c) __vp_assume(c)
#define ENSURES(c, msg) __vp_assert((c), msg)
#define COVER(c) __vp_cover((c), #c)
#ifdef VP_REPLAY
#include <map>
#include <string>
std::map<std::string, void (*)()> &vp_registry();
#define HARNESS(name, opts)                                                                                            \
  extern "C" void name();                                                                                              \
  static bool vp_reg_##name = (vp_registry()[#name] = &name, true);                                                    \
  extern "C" void name()
#else
#define HARNESS(name, opts)                                                                                            \
  extern "C" const char __vp_opts_##name[] __attribute__((used)) = opts;                                               \
  extern "C" void name();                                                                                              \
  extern "C" __attribute__((used)) void name()
#endif
template <typename T> inline T any();
template <> inline bool any<bool>() { return nd_bool(); }
template <> inline unsigned char any<unsigned char>() { return nd_u8(); }
template <> inline signed char any<signed char>() { return (signed char)nd_u8(); }
template <> inline char any<char>() { return (char)nd_u8(); }
template <> inline unsigned short any<unsigned short>() { return nd_u16(); }
template <> inline short any<short>() { return (short)nd_u16(); }
template <> inline unsigned int any<unsigned int>() { return nd_u32(); }
template <> inline int any<int>() { return (int)nd_u32(); }
template <> inline unsigned long any<unsigned long>() { return nd_u64(); }
template <> inline long any<long>() { return (long)nd_u64(); }
template <> inline unsigned long long any<unsigned long long>() { return nd_u64(); }
template <> inline long long any<long long>() { return (long long)nd_u64(); }
template <> inline float any<float>() { uint32_t b = nd_u32(); float f; memcpy(&f, &b, 4); return f; }
template <> inline double any<double>() { uint64_t b = nd_u64(); double f; memcpy(&f, &b, 8); return f; }
// run a call that may throw; true when it threw
#define THROWS(stmt) ([&]() -> bool { try { stmt; return false; } catch (...) { return true; } }())
