/* prelude of every generated C file (CBMC only) */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32;
typedef unsigned long long u64; typedef unsigned __int128 u128;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64; typedef __int128 s128;
typedef char *ptr;
extern double fabs(double); extern float fabsf(float); extern double floor(double); extern float floorf(float);
extern double ceil(double); extern float ceilf(float); extern double trunc(double); extern float truncf(float);
extern double copysign(double,double); extern float copysignf(float,float);
extern void *malloc(__CPROVER_size_t); extern void free(void*);
static float vp_bf(u32 b){ union{u32 i; float f;} x; x.i=b; return x.f; }
static double vp_bd(u64 b){ union{u64 i; double f;} x; x.i=b; return x.f; }
static u32 vp_fb(float b){ union{u32 i; float f;} x; x.f=b; return x.i; }
static u64 vp_db(double b){ union{u64 i; double f;} x; x.f=b; return x.i; }
_Bool __exc = 0; ptr __exc_ti; ptr __exc_obj; struct { u64 w[32]; } __exc_buf;
#ifdef VP_REACH
/* vacuity run: every obligation must be reachable */
#define VP_COVER(c,m) __CPROVER_assert(!(c), "COVER: " m)
#define VP_END() __CPROVER_assert(0, "COVER: end of harness")
#else
#define VP_COVER(c,m) ((void)0)
#define VP_END() ((void)0)
#endif
#ifdef VP_CANDS
extern const unsigned char vp_on[VP_CANDS];
#endif
#define VP_CAND_ASSERT(i,c,m) do { if(VP_ON_##i) __CPROVER_assert(c, "cand " #i " " m); } while(0)
#define VP_CAND_ASSUME(i,c) do { if(VP_ON_##i) __CPROVER_assume(c); } while(0)
#ifdef VP_CANDFILE
#include VP_CANDFILE
#endif
/* declared write frame ("assigns") of the function under a cut loop */
u32 vp_cut_depth; ptr vp_fresh[4]; u8 vp_nfresh;
#define VP_FRESH(p) do { if(vp_cut_depth && vp_nfresh<4) vp_fresh[vp_nfresh++]=p; } while(0)
 ptr vp_reg_p[4]; u64 vp_reg_n[4]; u8 vp_reg_k;
#define VP_U4(S) S(0) S(1) S(2) S(3)
static void vp_region_check(ptr p, u64 n){
  if(!vp_cut_depth || !__CPROVER_DYNAMIC_OBJECT(p)) return;
  _Bool ok=0;
#define S(i) if(i<vp_nfresh && __CPROVER_same_object(p,vp_fresh[i])) ok=1; if(i<vp_reg_k && __CPROVER_POINTER_OBJECT(p)==__CPROVER_POINTER_OBJECT(vp_reg_p[i])) ok=1;
  VP_U4(S)
#undef S
  __CPROVER_assert(ok, "frame: store inside the declared assigns set");
}
static void vp_region_havoc(void){
#define S(i) if(i<vp_reg_k) __CPROVER_havoc_object(vp_reg_p[i]);
  VP_U4(S)
#undef S
}
/* a signed division whose quotient overflows traps like a division by zero */
static u64 vp_sdivisor64(u64 a,u64 b){ __CPROVER_assert(!((s64)b==-1 && a==1ull<<63),"signed division overflow"); return b; }
static u32 vp_sdivisor32(u32 a,u32 b){ __CPROVER_assert(!((s32)b==-1 && a==1u<<31),"signed division overflow"); return b; }
/* opt "uf": multiplication, division and floating point arithmetic as uninterpreted functions (sound abstraction): for code compared with a
   reference that performs the same machine operation on the same operands */
#ifdef VP_UF
#define VP_UFN(n,w) u##w __CPROVER_uninterpreted_##n##w(u##w,u##w);
#define VP_UFD(n,w) static u##w vp_##n##w(u##w a,u##w b){ __CPROVER_assert(b!=0,"division by zero"); return __CPROVER_uninterpreted_##n##w(a,b); }
VP_UFN(ufmul,32) VP_UFN(ufmul,64) VP_UFN(ufsdiv,32) VP_UFN(ufsdiv,64) VP_UFN(ufudiv,32) VP_UFN(ufudiv,64) VP_UFN(ufsrem,32) VP_UFN(ufsrem,64) VP_UFN(ufurem,32) VP_UFN(ufurem,64)
VP_UFD(ufsdiv,32) VP_UFD(ufsdiv,64) VP_UFD(ufudiv,32) VP_UFD(ufudiv,64) VP_UFD(ufsrem,32) VP_UFD(ufsrem,64) VP_UFD(ufurem,32) VP_UFD(ufurem,64)
static u32 vp_ufmul32(u32 a,u32 b){ if(a>b){u32 t=a;a=b;b=t;} return __CPROVER_uninterpreted_ufmul32(a,b); }
static u64 vp_ufmul64(u64 a,u64 b){ if(a>b){u64 t=a;a=b;b=t;} return __CPROVER_uninterpreted_ufmul64(a,b); }
#define VP_MUL32(a,b) vp_ufmul32(a,b)
#define VP_UFS(w) static u##w vp_ufsd##w(u##w a,u##w b){ u##w q=vp_ufsdiv##w(a,b); if(b==1) __CPROVER_assume(q==a); if(b==(u##w)-1) __CPROVER_assume(q==(u##w)0-a); return q; } \
  static u##w vp_ufsr##w(u##w a,u##w b){ u##w q=vp_ufsrem##w(a,b); if(b==1 || b==(u##w)-1) __CPROVER_assume(q==0); return q; }
VP_UFS(32) VP_UFS(64)
#define VP_SDIV32(a,b) vp_ufsd32(a,vp_sdivisor32(a,b))
#define VP_UDIV32(a,b) vp_ufudiv32(a,b)
#define VP_SREM32(a,b) vp_ufsr32(a,vp_sdivisor32(a,b))
#define VP_UREM32(a,b) vp_ufurem32(a,b)
#define VP_SREM64(a,b) vp_ufsr64(a,vp_sdivisor64(a,b))
float __CPROVER_uninterpreted_fadd32(float,float); float __CPROVER_uninterpreted_fmul32(float,float); float __CPROVER_uninterpreted_fsub32(float,float); float __CPROVER_uninterpreted_fdiv32(float,float);
double __CPROVER_uninterpreted_fadd64(double,double); double __CPROVER_uninterpreted_fmul64(double,double); double __CPROVER_uninterpreted_fsub64(double,double); double __CPROVER_uninterpreted_fdiv64(double,double);
#define VP_F32(n,op,a,b) __CPROVER_uninterpreted_f##n##32(a,b)
#define VP_F64(n,op,a,b) __CPROVER_uninterpreted_f##n##64(a,b)
float __CPROVER_uninterpreted_u2f32(u64); float __CPROVER_uninterpreted_s2f32(u64); double __CPROVER_uninterpreted_u2f64(u64); double __CPROVER_uninterpreted_s2f64(u64);
#define VP_U2F32(a) __CPROVER_uninterpreted_u2f32(a)
#define VP_S2F32(a) __CPROVER_uninterpreted_s2f32(a)
#define VP_U2F64(a) __CPROVER_uninterpreted_u2f64(a)
#define VP_S2F64(a) __CPROVER_uninterpreted_s2f64(a)
#else
#define VP_MUL32(a,b) ((u32)((u32)(a)*(u32)(b)))
#define VP_SDIV32(a,b) ((u32)((s32)(a)/(s32)vp_sdivisor32(a,b)))
#define VP_UDIV32(a,b) ((u32)((a)/(b)))
#define VP_SREM32(a,b) ((u32)((s32)(a)%(s32)vp_sdivisor32(a,b)))
#define VP_UREM32(a,b) ((u32)((a)%(b)))
#define VP_SREM64(a,b) ((u64)((s64)(a)%(s64)vp_sdivisor64(a,b)))
#define VP_F32(n,op,a,b) ((a) op (b))
#define VP_F64(n,op,a,b) ((a) op (b))
#define VP_U2F32(a) ((float)(u64)(a))
#define VP_S2F32(a) ((float)(s64)(a))
#define VP_U2F64(a) ((double)(u64)(a))
#define VP_S2F64(a) ((double)(s64)(a))
#endif
#define VP_FOP(n,op,a,b) ((a) op (b))
/* opt "ufdiv": 64-bit division as an uninterpreted function (sound abstraction) */
#ifdef VP_UF
#define VP_SDIV64(a,b) vp_ufsd64(a,vp_sdivisor64(a,b))
#define VP_UDIV64(a,b) vp_ufudiv64(a,b)
#define VP_UREM64(a,b) vp_ufurem64(a,b)
#elif defined(VP_UFDIV)
u64 __CPROVER_uninterpreted_udiv64(u64,u64); u64 __CPROVER_uninterpreted_urem64(u64,u64);
#ifndef VP_DIVAX
#define VP_DIVAX 4
#endif
u64 vp_dva[VP_DIVAX], vp_dvb[VP_DIVAX], vp_dvq[VP_DIVAX]; u8 vp_dvn;
/* true facts about quotients that need no multiplication: ranges, and how q moves when the dividend moves by 1 or by the divisor */
static void vp_divax(u64 a,u64 b,u64 q){
  __CPROVER_assume(q<=a); if(a<b) __CPROVER_assume(q==0); else __CPROVER_assume(q>=1); if(b==1) __CPROVER_assume(q==a); else if(a>=1) __CPROVER_assume(q<a);
  if(a-b<b) __CPROVER_assume(a<b || q==1);
#define S(i) if(i<vp_dvn && vp_dvb[i]==b) { u64 a2=vp_dva[i], q2=vp_dvq[i]; if(a2<=a) __CPROVER_assume(q2<=q && q-q2<=a-a2); else __CPROVER_assume(q<=q2 && q2-q<=a2-a); if(a2<=a && a-a2==b) __CPROVER_assume(q==q2+1); if(a<=a2 && a2-a==b) __CPROVER_assume(q2==q+1); if(a2<=a && a-a2<b) __CPROVER_assume(q-q2<=1); if(a<=a2 && a2-a<b) __CPROVER_assume(q2-q<=1); }
  S(0) S(1) S(2) S(3)
#undef S
  if(vp_dvn<VP_DIVAX) { vp_dva[vp_dvn]=a; vp_dvb[vp_dvn]=b; vp_dvq[vp_dvn]=q; vp_dvn++; }
}
static u64 vp_udiv64(u64 a,u64 b){ __CPROVER_assert(b!=0,"division by zero"); u64 q=__CPROVER_uninterpreted_udiv64(a,b); vp_divax(a,b,q); return q; }
static u64 vp_sdiv64(u64 a,u64 b){ u64 x=(s64)a<0?0-a:a, y=(s64)b<0?0-b:b; u64 q=vp_udiv64(x,y); return ((s64)a<0)!=((s64)b<0)?0-q:q; }
#define VP_SDIV64(a,b) vp_sdiv64(a,vp_sdivisor64(a,b))
static u64 vp_urem64(u64 a,u64 b){ __CPROVER_assert(b!=0,"division by zero"); return __CPROVER_uninterpreted_urem64(a,b); }
#define VP_UDIV64(a,b) vp_udiv64(a,b)
#define VP_UREM64(a,b) vp_urem64(a,b)
#else
#define VP_SDIV64(a,b) ((u64)((s64)(a)/(s64)vp_sdivisor64(a,b)))
#define VP_UDIV64(a,b) ((u64)((a)/(b)))
#define VP_UREM64(a,b) ((u64)((a)%(b)))
#endif
/* opt "ufmul": 64-bit multiplication of two variables as an uninterpreted commutative function (sound abstraction) */
#ifdef VP_UF
#define VP_MUL64(a,b) vp_ufmul64(a,b)
#elif defined(VP_UFMUL)
u64 __CPROVER_uninterpreted_mul64(u64,u64);
static u64 vp_mul64(u64 a,u64 b){ if(a>b){u64 t=a;a=b;b=t;} u64 q=__CPROVER_uninterpreted_mul64(a,b);
  if(a==0) __CPROVER_assume(q==0); if(a==1) __CPROVER_assume(q==b); if(b==~0ull) __CPROVER_assume(q==0-a); return q; }
#define VP_MUL64(a,b) vp_mul64(a,b)
#else
#define VP_MUL64(a,b) ((u64)((u64)(a)*(u64)(b)))
#endif
