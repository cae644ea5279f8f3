/* models of C/C++ runtime functions; each is listed as trusted in the evidence */
static u64 vp_clz(u64 x, int w){ u64 n=0; for(int i=63;i>=0;i--) { if(i<w){ if((x>>i)&1) return n; n++; } } return n; }
static u64 vp_ctz(u64 x, int w){ u64 n=0; for(int i=0;i<64;i++){ if(i<w){ if((x>>i)&1) return n; n++; } } return n; }
static u64 vp_pop(u64 x, int w){ u64 n=0; for(int i=0;i<64;i++) n+=(x>>i)&1; return n; }
u64 vp_witness=~0ull; /* index of the difference found by the last memcmp */
#define VP_NT 7
#define VP_U6(S) S(0) S(1) S(2) S(3) S(4) S(5)
#define VP_UT(S) VP_U6(S) S(6)
#define VP_U8(S) VP_U6(S) S(6) S(7)
#define VP_U16(S) VP_U8(S) S(8) S(9) S(10) S(11) S(12) S(13) S(14) S(15)
ptr vp_trk[VP_NT]; u8 vp_ntrk; u64 vp_newoff, vp_newoff2, vp_newoff3;
#ifdef VP_SPARSE
/* Sparse heap: an object of any size keeps its first 8 bytes and the tracked bytes; every other byte reads as arbitrary
   (a sound over-approximation).  Bounds and liveness of every access are obligations. */
u8 vp_tv[VP_NT];
static u64 vp_sld(ptr p, u64 w);
static void vp_strack(ptr p){ __CPROVER_assert(vp_ntrk<VP_NT,"tracked bytes"); u8 v=(u8)vp_sld(p,1); vp_tv[vp_ntrk]=v; vp_trk[vp_ntrk++]=p; }
#define VP_NO 6
ptr vp_ob[VP_NO]; u64 vp_on_[VP_NO]; _Bool vp_oa[VP_NO]; u64 vp_hdr[VP_NO]; u8 vp_no;
static ptr vp_salloc(u64 n){
  ptr p=malloc(1); __CPROVER_assume(p!=0); __CPROVER_assert(vp_no<VP_NO,"sparse objects");
  u64 h; vp_ob[vp_no]=p; vp_on_[vp_no]=n; vp_oa[vp_no]=1; vp_hdr[vp_no]=h; vp_no++;
  if(vp_newoff && vp_newoff-1<n) vp_strack(p+(vp_newoff-1));
  if(vp_newoff2 && vp_newoff2-1<n) vp_strack(p+(vp_newoff2-1));
  if(vp_newoff3 && vp_newoff3-1<n) vp_strack(p+(vp_newoff3-1));
  return p; }
#define VP_SOFF(p) ((u64)__CPROVER_POINTER_OFFSET(p))
static _Bool vp_srange(ptr p, u64 w){
  _Bool ok=0; u64 off=VP_SOFF(p);
#define S(k) ok = ok || (k<vp_no && __CPROVER_same_object(p,vp_ob[k]) && vp_oa[k] && off<=vp_on_[k] && w<=vp_on_[k]-off);
  VP_U6(S)
#undef S
  return ok; }
static u8 vp_sb(ptr p){ /* one byte, no check */
  u8 r; u64 off=VP_SOFF(p);
#define S(i) if(i<vp_ntrk && vp_trk[i]==p) r=vp_tv[i];
  VP_UT(S)
#undef S
  if(off<8){ u64 h;
#define S(k) if(k<vp_no && __CPROVER_same_object(p,vp_ob[k])) h=vp_hdr[k];
  VP_U6(S)
#undef S
    r=(u8)(h>>(8*(u8)(off&7)));
  }
  return r; }
/* the 16 bytes at s (bytes that are not kept, or past the end of the object, are arbitrary) */
static u128 vp_get16(ptr s){
  u128 r; u64 so=VP_SOFF(s);
  if(!__CPROVER_DYNAMIC_OBJECT(s)){
    if(__CPROVER_OBJECT_SIZE(s)==16){ r=*(u128*)(s-so); r=so<16?r>>(8*(u8)(so&15)):0; }
    return r; }
#define S(i) { u64 o=VP_SOFF(vp_trk[i])-so; u8 q=8*(u8)(o&15); if(i<vp_ntrk && __CPROVER_same_object(vp_trk[i],s) && o<16) r=(r & ~((u128)0xff<<q)) | ((u128)vp_tv[i]<<q); }
  VP_UT(S)
#undef S
  if(so<8){ u64 h; u8 q=8*(u8)(so&7);
#define S(k) if(k<vp_no && __CPROVER_same_object(s,vp_ob[k])) h=vp_hdr[k];
  VP_U6(S)
#undef S
    r=(r & ~(((u128)1<<(64-q))-1)) | (u128)(h>>q);
  }
  return r; }
static u64 vp_sld(ptr p, u64 w){
  __CPROVER_assert(vp_srange(p,w),"heap read inside a live object");
  if(w==1) return vp_sb(p);
  u64 r=(u64)vp_get16(p);
  return w>=8 ? r : r & ((1ull<<(8*w))-1); }
static void vp_sst(ptr p, u64 v, u64 w){
  __CPROVER_assert(vp_srange(p,w),"heap write inside a live object");
  u64 off=VP_SOFF(p);
#define S(i) { u64 o=VP_SOFF(vp_trk[i])-off; if(i<vp_ntrk && __CPROVER_same_object(vp_trk[i],p) && o<w) vp_tv[i]=(u8)(v>>(8*(u8)(o&7))); }
  VP_UT(S)
#undef S
  if(off<8){ u64 m = w>=8 ? ~0ull : (1ull<<(8*w))-1; u8 q=8*(u8)(off&7); m<<=q; u64 x=(v<<q)&m;
#define S(k) if(k<vp_no && __CPROVER_same_object(p,vp_ob[k])) vp_hdr[k]=(vp_hdr[k] & ~m) | x;
  VP_U6(S)
#undef S
  }
}
static u8 vp_rb(ptr p){ return __CPROVER_DYNAMIC_OBJECT(p) ? vp_sb(p) : *(u8*)p; }
static _Bool vp_rok(ptr p, u64 n){ return __CPROVER_DYNAMIC_OBJECT(p) ? vp_srange(p,n) : __CPROVER_r_ok(p,n); }
static void vp_sfree(ptr p){ if(!p) return; _Bool ok=0;
#define S(k) if(k<vp_no && p==vp_ob[k] && vp_oa[k]) { ok=1; vp_oa[k]=0; }
  VP_U6(S)
#undef S
  __CPROVER_assert(ok,"freed pointer is a live allocation"); }
static void vp_sparse_havoc(void){ u8 a[VP_NT]; u64 h[VP_NO];
#define S(i) vp_tv[i]=a[i];
  VP_UT(S)
#undef S
#define S(i) vp_hdr[i]=h[i];
  VP_U6(S)
#undef S
}
#define VP_KNOWN(p,v) do { if(__CPROVER_DYNAMIC_OBJECT(p)) { vp_strack(p); __CPROVER_assume(vp_tv[vp_ntrk-1]==(v)); } } while(0)
#define VP_RD(p) vp_rb((ptr)(p))
#define VP_ROK(p,n) vp_rok((ptr)(p),n)
#define VP_MALLOC(n) vp_salloc(n)
#define VP_FREE(p) vp_sfree(p)
#else
#define VP_KNOWN(p,v) ((void)0)
#define VP_RD(p) (*(u8*)(p))
#define VP_ROK(p,n) __CPROVER_r_ok(p,n)
#define VP_FREE(p) free(p)
static ptr vp_malloc(u64 n);
#define VP_MALLOC(n) vp_malloc(n)
#endif
#if defined(USE___vp_track) && defined(VP_SPARSE)
void X___vp_track(ptr p){ vp_strack(p); }
#elif defined(USE___vp_track)
void X___vp_track(ptr p){ __CPROVER_assert(vp_ntrk<VP_NT,"tracked bytes"); vp_trk[vp_ntrk++]=p; }
#endif
#ifdef USE___vp_track_new
/* from now on the byte at this offset of every newly allocated array is tracked */
void X___vp_track_new(u64 off, u64 off2){ vp_newoff=off+1; vp_newoff2=off2+1; }
#endif
#ifdef USE___vp_track_new_also
void X___vp_track_new_also(u64 off){ vp_newoff3=off+1; }
#endif
#define VP_NEWTRACK(p,n) do { VP_FRESH(p); if(vp_newoff && vp_newoff-1<(n)) { __CPROVER_assert(vp_ntrk<VP_NT,"tracked bytes"); vp_trk[vp_ntrk++]=(p)+(vp_newoff-1); } if(vp_newoff2 && vp_newoff2-1<(n)) { __CPROVER_assert(vp_ntrk<VP_NT,"tracked bytes"); vp_trk[vp_ntrk++]=(p)+(vp_newoff2-1); } } while(0)
#ifndef VP_SPARSE
#ifdef VP_PTRBUF
static ptr vp_malloc(u64 n){ ptr p; if(n && n%8==0) p=(ptr)__CPROVER_allocate((n/8)*sizeof(ptr),0); else p=malloc(n); __CPROVER_assume(p!=0); VP_NEWTRACK(p,n); return p; }
#else
static ptr vp_malloc(u64 n){ ptr p=malloc(n); __CPROVER_assume(p!=0); VP_NEWTRACK(p,n); return p; }
#endif
#endif
#ifdef USE___vp_size_any
#ifdef VP_SMALL
#define VP_SIZE_LIMIT 40
#else
#define VP_SIZE_LIMIT (1ull<<40)
#endif
u64 X___vp_size_any(void){ u64 nd_v; u64 nd_logged=nd_v; __CPROVER_assume(nd_logged<VP_SIZE_LIMIT); return nd_logged; }
#endif
#ifdef VP_TRACK
/* sound over-approximation: after a bulk copy or fill every byte of the destination object is arbitrary except the tracked bytes */
#define VP_IN(p,d,n) (__CPROVER_same_object(p,d) && (u64)__CPROVER_POINTER_OFFSET(p)-(u64)__CPROVER_POINTER_OFFSET(d) < (n))
#ifdef VP_SPARSE
static void vp_bulk(ptr d, u64 n, _Bool fill, u8 c, ptr s){
  u128 w = fill ? ((u128)0x0101010101010101ull<<64|0x0101010101010101ull)*c : vp_get16(s);
  if(!__CPROVER_DYNAMIC_OBJECT(d)){
    u64 off=VP_SOFF(d);
    if(__CPROVER_OBJECT_SIZE(d)==16){
      u128 m = n>=16 ? ~(u128)0 : ((u128)1<<(8*(u8)(n&15)))-1; u8 q=8*(u8)(off&15);
      if(off<16) *(u128*)(d-off) = (*(u128*)(d-off) & ~(m<<q)) | ((w & m)<<q);
    } else __CPROVER_havoc_object(d);
    return;
  }
  u8 v[VP_NT]; _Bool in[VP_NT]; _Bool sl = !fill && !__CPROVER_DYNAMIC_OBJECT(s);
#define S(i) in[i]=0; if(i<vp_ntrk && VP_IN(vp_trk[i],d,n)) { u64 o=VP_SOFF(vp_trk[i])-VP_SOFF(d); in[i]=1; u8 b; if(fill) b=c; else if(sl) { if(o<16) b=(u8)(w>>(8*(u8)(o&15))); } else b=vp_sb(s+o); v[i]=b; }
  VP_UT(S)
#undef S
#define S(i) if(in[i]) vp_tv[i]=v[i];
  VP_UT(S)
#undef S
  if(VP_SOFF(d)<8){
#define S(k) if(k<vp_no && __CPROVER_same_object(d,vp_ob[k])) { u64 h; vp_hdr[k]=fill && VP_SOFF(d)==0 && n>=8 ? c*0x0101010101010101ull : h; }
  VP_U6(S)
#undef S
  }
}
#else
static void vp_bulk(ptr d, u64 n, _Bool fill, u8 c, ptr s){
  if(!__CPROVER_DYNAMIC_OBJECT(d) && __CPROVER_OBJECT_SIZE(d)<=16){ /* small local object: exact */
    u8 t[16];
#define S(i) if(i<n) t[i] = fill ? c : ((u8*)s)[i];
    VP_U16(S)
#undef S
#define S(i) if(i<n) ((u8*)d)[i]=t[i];
    VP_U16(S)
#undef S
    return;
  }
  u8 v[VP_NT]; _Bool in[VP_NT];
#define S(i) in[i]=0; v[i]=0; if(i<vp_ntrk && __CPROVER_same_object(vp_trk[i],d)) { in[i]=1; v[i] = VP_IN(vp_trk[i],d,n) ? (fill ? c : ((u8*)s)[(u64)vp_trk[i]-(u64)d]) : *(u8*)vp_trk[i]; }
  VP_UT(S)
#undef S
  /* the first 8 bytes of the object (a header) are kept when the range is past them */
  u64 hd=0; _Bool hk = __CPROVER_POINTER_OFFSET(d)>=8; if(hk) hd=*(u64*)(d-__CPROVER_POINTER_OFFSET(d));
  __CPROVER_havoc_object(d);
  if(hk) *(u64*)(d-__CPROVER_POINTER_OFFSET(d))=hd;
#define S(i) if(in[i]) *(u8*)vp_trk[i]=v[i];
  VP_UT(S)
#undef S
}
#endif
static void vp_memset(ptr d, u8 c, u64 n){ if(n==0) return; __CPROVER_assert(VP_ROK(d,n),"memset stays inside the destination object"); vp_bulk(d,n,1,c,d); }
static void vp_memmove(ptr d, ptr s, u64 n){ if(n==0) return; __CPROVER_assert(VP_ROK(d,n),"memcpy stays inside the destination object"); __CPROVER_assert(VP_ROK(s,n),"memcpy stays inside the source object"); vp_bulk(d,n,0,0,s); }
#define VP_NOOVERLAP(d,s,n) __CPROVER_assert(d==s || !__CPROVER_same_object(d,s) || (u64)(d)>=(u64)(s)+(n) || (u64)(s)>=(u64)(d)+(n),"memcpy source and destination do not overlap")
static void vp_memcpy(ptr d, ptr s, u64 n){ if(n) VP_NOOVERLAP(d,s,n); vp_memmove(d,s,n); }
#elif defined(VP_BULK)
/* whole-range contracts: the range must be valid, the copy/fill is exact for every length */
static void vp_memset(ptr d, u8 c, u64 n){ if(n==0) return; __CPROVER_assert(__CPROVER_w_ok(d,n),"memset stays inside the destination object"); u8 t[n]; __CPROVER_array_set(t,c); __CPROVER_array_replace((u8*)d,t); }
static void vp_memmove(ptr d, ptr s, u64 n){ if(n==0) return; __CPROVER_assert(__CPROVER_w_ok(d,n),"memcpy stays inside the destination object"); __CPROVER_assert(__CPROVER_r_ok(s,n),"memcpy stays inside the source object"); u8 t[n]; __CPROVER_array_copy(t,(u8*)s); __CPROVER_array_replace((u8*)d,t); }
static void vp_memcpy(ptr d, ptr s, u64 n){ vp_memmove(d,s,n); }
#else
#ifdef VP_PTRBUF
static void vp_memcpy(ptr d, ptr s, u64 n){ if(n%8==0) for(u64 i=0;i<n/8;i++) ((ptr*)d)[i]=((ptr*)s)[i]; else for(u64 i=0;i<n;i++) d[i]=s[i]; }
#else
static void vp_memcpy(ptr d, ptr s, u64 n){ for(u64 i=0;i<n;i++) d[i]=s[i]; }
#endif
#ifdef VP_PTRBUF
static void vp_memmove(ptr d, ptr s, u64 n){ if(n%8==0 && !__CPROVER_same_object(d,s)) { for(u64 i=0;i<n/8;i++) ((ptr*)d)[i]=((ptr*)s)[i]; } else if((u64)d<=(u64)s){ for(u64 i=0;i<n;i++) d[i]=s[i]; } else { for(u64 i=n;i>0;i--) d[i-1]=s[i-1]; } }
#else
static void vp_memmove(ptr d, ptr s, u64 n){ if((u64)d<=(u64)s){ for(u64 i=0;i<n;i++) d[i]=s[i]; } else { for(u64 i=n;i>0;i--) d[i-1]=s[i-1]; } }
#endif
#ifdef VP_PTRBUF
static void vp_memset(ptr d, u8 c, u64 n){ if(n%8==0 && c==0) for(u64 i=0;i<n/8;i++) ((ptr*)d)[i]=(ptr)0; else for(u64 i=0;i<n;i++) d[i]=c; }
#else
static void vp_memset(ptr d, u8 c, u64 n){ for(u64 i=0;i<n;i++) d[i]=c; }
#endif
#endif
#ifdef USE_memcpy
ptr X_memcpy(ptr d, ptr s, u64 n){ vp_memcpy(d,s,n); return d; }
#endif
#ifdef USE_memmove
ptr X_memmove(ptr d, ptr s, u64 n){ vp_memmove(d,s,n); return d; }
#endif
#ifdef USE_memset
ptr X_memset(ptr d, u32 c, u64 n){ vp_memset(d,c,n); return d; }
#endif
#if (defined(USE_memcmp) || defined(USE_bcmp)) && defined(VP_TRACK)
static u32 vp_memcmp(ptr a, ptr b, u64 n){
  if(n==0) return 0;
  if(a==b) return 0;
  __CPROVER_assert(VP_ROK(a,n) && VP_ROK(b,n),"memcmp stays inside the objects");
  u64 k; __CPROVER_assume(k<=n); /* first difference */
#define S(i) if(i<vp_ntrk && VP_IN(vp_trk[i],a,k)) __CPROVER_assume(VP_RD(vp_trk[i])==VP_RD(b+((u64)vp_trk[i]-(u64)a))); if(i<vp_ntrk && VP_IN(vp_trk[i],b,k)) __CPROVER_assume(VP_RD(vp_trk[i])==VP_RD(a+((u64)vp_trk[i]-(u64)b)));
  VP_UT(S)
#undef S
#ifdef VP_SPARSE
  { u128 m = k>=16 ? ~(u128)0 : ((u128)1<<(8*(u8)(k&15)))-1; __CPROVER_assume((vp_get16(a)&m)==(vp_get16(b)&m)); }
#else
#define S(i) if(i<k) __CPROVER_assume(VP_RD(a+(i))==VP_RD(b+(i)));
  VP_U16(S)
#undef S
#endif
  if(k==n) return 0;
  u8 x=VP_RD(a+(k)), y=VP_RD(b+(k)); __CPROVER_assume(x!=y); vp_witness=k; VP_KNOWN(a+k,x); VP_KNOWN(b+k,y); return x<y?(u32)-1:1u; }
#elif defined(USE_memcmp) || defined(USE_bcmp)
static u32 vp_memcmp(ptr a, ptr b, u64 n){ for(u64 i=0;i<n;i++){ u8 x=((u8*)a)[i], y=((u8*)b)[i]; if(x!=y) return x<y?(u32)-1:1u; } return 0; }
#endif
#ifdef USE_memcmp
u32 X_memcmp(ptr a, ptr b, u64 n){ return vp_memcmp(a,b,n); }
#endif
#ifdef USE_bcmp
u32 X_bcmp(ptr a, ptr b, u64 n){ return vp_memcmp(a,b,n); }
#endif
#if defined(USE_memchr) && defined(VP_TRACK)
ptr X_memchr(ptr a, u32 c, u64 n){
  if(n==0) return (ptr)0;
  __CPROVER_assert(VP_ROK(a,n),"memchr stays inside the object");
  u64 k; __CPROVER_assume(k<=n);
#define S(i) if(i<vp_ntrk && VP_IN(vp_trk[i],a,k)) __CPROVER_assume(VP_RD(vp_trk[i])!=(u8)c);
  VP_UT(S)
#undef S
  if(k<n) { __CPROVER_assume(VP_RD(a+k)==(u8)c); return a+k; }
  return (ptr)0; }
#elif defined(USE_memchr)
ptr X_memchr(ptr a, u32 c, u64 n){ for(u64 i=0;i<n;i++) if(((u8*)a)[i]==(u8)c) return a+i; return (ptr)0; }
#endif
#ifdef USE_strlen
u64 X_strlen(ptr a){ u64 n=0; while(a[n]) n++; return n; }
#endif
#ifdef USE_strcmp
u32 X_strcmp(ptr a, ptr b){ u64 i=0; for(;;i++){ u8 x=((u8*)a)[i],y=((u8*)b)[i]; if(x!=y) return x<y?(u32)-1:1u; if(!x) return 0; } }
#endif
#ifdef USE_strncmp
u32 X_strncmp(ptr a, ptr b, u64 n){ for(u64 i=0;i<n;i++){ u8 x=((u8*)a)[i],y=((u8*)b)[i]; if(x!=y) return x<y?(u32)-1:1u; if(!x) return 0; } return 0; }
#endif
/* allocation never fails (assumption listed in the evidence) */
#ifdef USE_malloc
ptr X_malloc(u64 n){ return VP_MALLOC(n); }
#endif
#ifdef USE_calloc
ptr X_calloc(u64 n,u64 m){ ptr p=VP_MALLOC(n*m); vp_memset(p,0,n*m); return p; }
#endif
#if defined(USE_realloc) && defined(VP_SPARSE)
ptr X_realloc(ptr o, u64 n){ ptr p=VP_MALLOC(n); if(o){ u64 m=0;
#define S(k) if(k<vp_no && o==vp_ob[k]) m=vp_on_[k];
  VP_U6(S)
#undef S
  vp_memcpy(p,o,m<n?m:n);
#define S(k) if(k<vp_no && o==vp_ob[k] && m>=8 && n>=8) vp_hdr[vp_no-1]=vp_hdr[k];
  VP_U6(S)
#undef S
  VP_FREE(o);} return p; }
#elif defined(USE_realloc)
ptr X_realloc(ptr o, u64 n){ ptr p=VP_MALLOC(n); if(o){ u64 m=__CPROVER_OBJECT_SIZE(o); vp_memcpy(p,o,m<n?m:n); free(o);} return p; }
#endif
#ifdef USE_free
void X_free(ptr p){ VP_FREE(p); }
#endif
#ifdef USE__Znwm
ptr X__Znwm(u64 n){ return VP_MALLOC(n); }
#endif
#ifdef USE__Znam
ptr X__Znam(u64 n){ return VP_MALLOC(n); }
#endif
#ifdef USE__ZdlPv
void X__ZdlPv(ptr p){ VP_FREE(p); }
#endif
#ifdef USE__ZdaPv
void X__ZdaPv(ptr p){ VP_FREE(p); }
#endif
#ifdef USE__ZdlPvm
void X__ZdlPvm(ptr p,u64 n){ VP_FREE(p); }
#endif
#ifdef USE__ZdaPvm
void X__ZdaPvm(ptr p,u64 n){ VP_FREE(p); }
#endif
#ifdef USE___cxa_begin_catch
ptr X___cxa_begin_catch(ptr p){ return p; }
#endif
#ifdef USE___cxa_end_catch
void X___cxa_end_catch(void){ }
#endif
#ifdef USE___cxa_allocate_exception
ptr X___cxa_allocate_exception(u64 n){ return (ptr)&__exc_buf; }
#endif
#ifdef USE___cxa_free_exception
void X___cxa_free_exception(ptr p){ }
#endif
#ifdef USE___cxa_guard_acquire
u32 X___cxa_guard_acquire(ptr g){ return *(u8*)g ? 0 : 1; }
#endif
#ifdef USE___cxa_guard_release
void X___cxa_guard_release(ptr g){ *(u8*)g = 1; }
#endif
#ifdef USE___cxa_guard_abort
void X___cxa_guard_abort(ptr g){ }
#endif
#ifdef USE___cxa_atexit
u32 X___cxa_atexit(ptr a, ptr b, ptr c){ return 0; }
#endif
#ifdef USE___cxa_pure_virtual
void X___cxa_pure_virtual(void){ __CPROVER_assert(0,"pure virtual call"); __CPROVER_assume(0); }
#endif
#ifdef USE___clang_call_terminate
void X___clang_call_terminate(ptr p){ __CPROVER_assert(0,"std::terminate"); __CPROVER_assume(0); }
#endif
#ifdef USE__ZSt9terminatev
void X__ZSt9terminatev(void){ __CPROVER_assert(0,"std::terminate"); __CPROVER_assume(0); }
#endif
#ifdef USE_abort
void X_abort(void){ __CPROVER_assert(0,"abort"); __CPROVER_assume(0); }
#endif
#ifdef USE___assert_fail
void X___assert_fail(ptr a, ptr b, u32 c, ptr d){ __CPROVER_assert(0,"assert() in the code fails"); __CPROVER_assume(0); }
#endif
#ifdef USE_isspace
u32 X_isspace(u32 c){ return c==' '||(c>=9&&c<=13); }
#endif
#ifdef USE_isdigit
u32 X_isdigit(u32 c){ return c>='0'&&c<='9'; }
#endif
#ifdef USE_isalpha
u32 X_isalpha(u32 c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
#endif
#ifdef USE_isalnum
u32 X_isalnum(u32 c){ return (c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
#endif
#ifdef USE_isxdigit
u32 X_isxdigit(u32 c){ return (c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
#endif
#ifdef USE_tolower
u32 X_tolower(u32 c){ return c>='A'&&c<='Z'?c+32:c; }
#endif
#ifdef USE_toupper
u32 X_toupper(u32 c){ return c>='a'&&c<='z'?c-32:c; }
#endif
#ifdef USE_fmod
double __CPROVER_uninterpreted_fmod(double,double);
double X_fmod(double a,double b){ if(b==18446744073709551616.0&&a>=b&&a<b*b) return a-(double)(u64)(a*0x1p-64)*0x1p64; /* exact: the divisor is a power of two */ return __CPROVER_uninterpreted_fmod(a,b); }
#endif
#ifdef USE_fmodf
float __CPROVER_uninterpreted_fmodf(float,float);
float X_fmodf(float a,float b){ return __CPROVER_uninterpreted_fmodf(a,b); }
#endif
#ifdef USE_floor
double X_floor(double a){ return floor(a); }
#endif
#ifdef USE_floorf
float X_floorf(float a){ return floorf(a); }
#endif
#ifdef USE_ceil
double X_ceil(double a){ return ceil(a); }
#endif
#ifdef USE_ceilf
float X_ceilf(float a){ return ceilf(a); }
#endif
#ifdef USE_trunc
double X_trunc(double a){ return trunc(a); }
#endif
#ifdef USE_fabs
double X_fabs(double a){ return fabs(a); }
#endif
#ifdef USE_fabsf
float X_fabsf(float a){ return fabsf(a); }
#endif
/* harness services */
#ifdef USE___vp_region
void X___vp_region(ptr p, u64 n){ vp_reg_p[vp_reg_k]=p; vp_reg_n[vp_reg_k]=n; vp_reg_k++; }
#endif
#ifdef USE___vp_alloc
ptr X___vp_alloc(u64 n){ return VP_MALLOC(n); }
#endif
#ifdef USE___vp_free
void X___vp_free(ptr p){ VP_FREE(p); }
#endif
#ifdef USE___vp_havoc
void X___vp_havoc(ptr p, u64 n){ for(u64 i=0;i<n;i++) { u8 nd_mem; u8 nd_logged=nd_mem; p[i]=nd_logged; } }
#endif
#ifdef USE___vp_same_object
_Bool X___vp_same_object(ptr a, ptr b){ return __CPROVER_POINTER_OBJECT(a)==__CPROVER_POINTER_OBJECT(b); }
#endif
#ifdef USE___vp_obj_size
u64 X___vp_obj_size(ptr a){ return __CPROVER_OBJECT_SIZE(a); }
#endif
#ifdef USE___vp_witness
u64 X___vp_witness(void){ return vp_witness; }
#endif
#ifdef USE___vp_valid
_Bool X___vp_valid(ptr a, u64 n){ return VP_ROK(a,n); }
#endif
#ifdef USE___vp_offset
u64 X___vp_offset(ptr a){ return __CPROVER_POINTER_OFFSET(a); }
#endif
#define NDDEF(name,T) T X_nd_##name(void){ T nd_v; T nd_logged=nd_v; return nd_logged; }
#ifdef USE_nd_bool
_Bool X_nd_bool(void){ u8 nd_v; u8 nd_logged=nd_v&1; return nd_logged!=0; }
#endif
#ifdef USE_nd_u8
NDDEF(u8,u8)
#endif
#ifdef USE_nd_u16
NDDEF(u16,u16)
#endif
#ifdef USE_nd_u32
NDDEF(u32,u32)
#endif
#ifdef USE_nd_u64
NDDEF(u64,u64)
#endif
