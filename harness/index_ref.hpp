// C05: reference for index and slice resolution.
#pragma once
#include "vp.hpp"
#include <sstream>
#include <dynd/shape_tools.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/memory_block.hpp>
using namespace dynd;
typedef long long i64; typedef __int128 i128;
static const i64 MIN = INT64_MIN, MAX = INT64_MAX;
// reference: which half-open (or reversed) range of positions an irange denotes in a dimension of size n
struct range_ { bool err; i64 lo, hi; };
static range_ resolve(i64 s, i64 f, i64 step, i64 n) {
  range_ r = {false, 0, 0};
  if (step > 0) {
    if (s >= n) r.err = true;
    r.lo = s >= 0 ? s : s >= -n ? s + n : 0;
    if (f < -n) r.err = true;
    r.hi = f >= n ? n : f >= 0 ? f : f + n;
    return r;
  }
  if (s >= n || (s < -n && s != MIN)) r.err = true;
  r.lo = s >= 0 ? s : s == MIN ? n - 1 : s + n;
  if (f >= n && f != MAX) r.err = true;
  r.hi = f == MAX ? -1 : f >= 0 ? f : f >= -n ? f + n : -1;
  return r;
}
// number of positions lo, lo + step, ... before hi
static i64 count_(i64 lo, i64 hi, i64 step) { return step > 0 ? (i64)((uint64_t)(hi - lo - 1) / (uint64_t)step) + 1 : (i64)((uint64_t)(lo - hi - 1) / (0 - (uint64_t)step)) + 1; }
// building the exception objects (message text) is outside the contract
#ifndef VP_REPLAY
extern "C" {
void __vp_stub__ZN4dynd19index_out_of_boundsC1Ell(void *, long, long) {}
void __vp_stub__ZN4dynd19index_out_of_boundsC1ElmlPKl(void *, long, unsigned long, long, const long *) {}
void __vp_stub__ZN4dynd20irange_out_of_boundsC1ERKNS_6irangeEl(void *, const void *, long) {}
void __vp_stub__ZN4dynd20irange_out_of_boundsC1ERKNS_6irangeEmlPKl(void *, const void *, unsigned long, long, const long *) {}
}
#endif
