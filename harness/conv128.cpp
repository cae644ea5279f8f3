#define VPOPTS ""
#include "conv_spec.hpp"
#define ALL(X) X(i8) X(i16) X(i32) X(i64) X(u8) X(u16) X(u32) X(u64)
#ifdef TO
#define T(S) CONV(TO,S)
ALL(T) T(i128) T(u128)
#endif
#ifdef FROM
#define F(D) CONV(D,FROM)
ALL(F) F(b1)
#endif
