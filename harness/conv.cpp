#ifndef VPOPTS
#define VPOPTS ""
#endif
#include "conv_spec.hpp"
#define ALLS(D) CONV(D,b1) CONV(D,i8) CONV(D,i16) CONV(D,i32) CONV(D,i64) CONV(D,u8) CONV(D,u16) CONV(D,u32) CONV(D,u64) CONV(D,f32) CONV(D,f64) CONV(D,cf) CONV(D,cd)
ALLS(DST1)
#ifdef DST2
ALLS(DST2)
#endif
