// Model of the FLINT 3.0 functions hycu reaches, over the real FLINT types and
// inline functions.  Field elements are polynomials over F_p modulo the Conway
// polynomial (or, with parameter flint_conway=0, an arbitrary irreducible one);
// arithmetic on symbolic elements goes through tables computed by concrete
// polynomial arithmetic.  Also usable natively in place of libflint.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include <flint/flint.h>
#include <flint/ulong_extras.h>
#include <flint/fmpz.h>
#include <flint/nmod_poly.h>
#include <flint/nmod_poly_factor.h>
#include <flint/fq_nmod.h>
#include <flint/fq_nmod_poly.h>
#include <flint/fq_nmod_poly_factor.h>
#include <flint/fq_zech.h>
#include <hse_api.h>
typedef unsigned long u64; typedef unsigned __int128 u128; typedef __int128 i128;
#define FAIL(m) (hse_fail("model: flint: " m), hse_end(), abort())
static inline bool conc(u64 v) { return hse_is_concrete(v); }
extern "C" {
void *flint_malloc(size_t n) { return malloc(n?n:1); } void *flint_calloc(size_t a, size_t b) { void *p=malloc(a*b+1); memset(p,0,a*b); return p; }
void flint_free(void *p) { free(p); }
void *flint_realloc(void *p, size_t n) { return realloc(p,n?n:1); }
void flint_cleanup(void) {} void flint_cleanup_master(void) {}
void flint_abort(void) { hse_fail("flint: abort"); hse_end(); abort(); }
void flint_throw(flint_err_t, const char *, ...) { hse_fail("flint: exception"); hse_end(); abort(); }
#ifdef HSE_ENGINE
void __gmp_randclear(gmp_randstate_t) {} void __gmp_randinit_default(gmp_randstate_t) {}
void __gmpz_set(mpz_ptr a, mpz_srcptr b) { int n=b->_mp_size; if (n<0) n=-n; for (int i=0;i<n;i++) a->_mp_d[i]=b->_mp_d[i]; a->_mp_size=b->_mp_size; }
mp_limb_t __gmpn_gcd_11(mp_limb_t a, mp_limb_t b) { while (b) { mp_limb_t t=a%b; a=b; b=t; } return a; }
#endif
// ---- integers: sign and magnitude up to 126 bits -------------------------------------------------
struct Big { __mpz_struct z; mp_limb_t l[2]; };
static Big *bigp(fmpz x) { return (Big*)((u64)x<<2); }
mpz_ptr _fmpz_new_mpz(void) { Big *b=(Big*)malloc(sizeof(Big)); b->z._mp_alloc=2; b->z._mp_size=0; b->z._mp_d=b->l; b->l[0]=b->l[1]=0; return &b->z; }
void _fmpz_clear_mpz(fmpz f) { free(bigp(f)); }
static i128 fget(const fmpz *f) {
  fmpz x=*f; if (!COEFF_IS_MPZ(x)) return (i128)(slong)x;
  Big *b=bigp(x); int s=b->z._mp_size; u128 m=0; if (s) m=b->z._mp_d[0]; if (s>1||s<-1) m|=(u128)b->z._mp_d[1]<<64;
  return s<0? -(i128)m : (i128)m;
}
static void fput(fmpz *f, i128 v) {
  if (v<=(i128)COEFF_MAX && v>=-(i128)COEFF_MAX) { if (COEFF_IS_MPZ(*f)) _fmpz_clear_mpz(*f); *f=(slong)v; return; }
  Big *b; if (COEFF_IS_MPZ(*f)) b=bigp(*f); else { b=(Big*)_fmpz_new_mpz(); *f=(fmpz)(((u64)b>>2)|((u64)1<<62)); }
  bool neg=v<0; u128 m=neg? -(u128)v : (u128)v; if (m>>126) FAIL("integer beyond 126 bits");
  b->z._mp_d[0]=(u64)m; b->z._mp_d[1]=(u64)(m>>64); int n=(m>>64)? 2 : 1; b->z._mp_size=neg? -n : n;
}
mpz_ptr _fmpz_promote(fmpz_t f) { if (!COEFF_IS_MPZ(*f)) { mpz_ptr z=_fmpz_new_mpz(); *f=(fmpz)(((u64)z>>2)|((u64)1<<62)); } return &bigp(*f)->z; }
mpz_ptr _fmpz_promote_val(fmpz_t f) { i128 v=fget(f); mpz_ptr z=_fmpz_promote(f); u128 m=v<0? -(u128)v : v; z->_mp_d[0]=(u64)m; z->_mp_d[1]=(u64)(m>>64); int n=m>>64? 2 : m? 1 : 0; z->_mp_size=v<0? -n : n; return z; }
void _fmpz_demote_val(fmpz_t f) { if (COEFF_IS_MPZ(*f)) fput(f,fget(f)); }
void _fmpz_promote_set_ui(fmpz_t f, ulong v) { fput(f,(i128)v); } void _fmpz_promote_set_si(fmpz_t f, slong v) { fput(f,v); }
void _fmpz_promote_neg_ui(fmpz_t f, ulong v) { fput(f,-(i128)v); }
void _fmpz_init_promote_set_ui(fmpz_t f, ulong v) { *f=0; fput(f,(i128)v); } void _fmpz_init_promote_set_si(fmpz_t f, slong v) { *f=0; fput(f,v); }
static i128 fmulc(i128 a, i128 b) { u128 x=a<0? -(u128)a : a, y=b<0? -(u128)b : b; if ((x>>64)&&(y>>64)) FAIL("integer beyond 126 bits");
  if ((x>>62)||(y>>62)) { u128 big=x>y? x : y, sm=x>y? y : x; u128 h=(big>>64)*sm; if (h>>61) FAIL("integer beyond 126 bits"); }
  u128 r=x*y; return (a<0)!=(b<0)? -(i128)r : (i128)r; }
void fmpz_set(fmpz_t f, const fmpz_t g) { if (f!=g) fput(f,fget(g)); }
void fmpz_init_set_copy(fmpz_t f, const fmpz_t g) { *f=0; fput(f,fget(g)); }
void fmpz_add(fmpz_t f, const fmpz_t a, const fmpz_t b) { fput(f,fget(a)+fget(b)); }
void fmpz_sub(fmpz_t f, const fmpz_t a, const fmpz_t b) { fput(f,fget(a)-fget(b)); }
void fmpz_add_ui(fmpz_t f, const fmpz_t a, ulong b) { fput(f,fget(a)+(i128)b); } void fmpz_sub_ui(fmpz_t f, const fmpz_t a, ulong b) { fput(f,fget(a)-(i128)b); }
void fmpz_mul(fmpz_t f, const fmpz_t a, const fmpz_t b) { fput(f,fmulc(fget(a),fget(b))); }
void fmpz_mul_ui(fmpz_t f, const fmpz_t a, ulong b) { fput(f,fmulc(fget(a),(i128)b)); } void fmpz_mul_si(fmpz_t f, const fmpz_t a, slong b) { fput(f,fmulc(fget(a),b)); }
void fmpz_mul_2exp(fmpz_t f, const fmpz_t a, ulong e) { if (e>62) FAIL("shift"); fput(f,fmulc(fget(a),(i128)1<<e)); }
void fmpz_addmul(fmpz_t f, const fmpz_t a, const fmpz_t b) { fput(f,fget(f)+fmulc(fget(a),fget(b))); }
void fmpz_addmul_ui(fmpz_t f, const fmpz_t a, ulong b) { fput(f,fget(f)+fmulc(fget(a),(i128)b)); }
void fmpz_neg(fmpz_t f, const fmpz_t a) { fput(f,-fget(a)); }
void fmpz_pow_ui(fmpz_t f, const fmpz_t a, ulong e) { i128 b=fget(a), r=1; for (; e; --e) r=fmulc(r,b); fput(f,r); }
int fmpz_pow_fmpz(fmpz_t f, const fmpz_t a, const fmpz_t e) { fmpz_pow_ui(f,a,(ulong)fget(e)); return 1; }
void fmpz_ui_pow_ui(fmpz_t f, ulong b, ulong e) { i128 r=1; for (; e; --e) r=fmulc(r,(i128)b); fput(f,r); }
static i128 fdivfl(i128 a, i128 b) { if (!b) flint_abort(); i128 q=a/b; if (a%b && (a<0)!=(b<0)) --q; return q; }
void fmpz_divexact_ui(fmpz_t f, const fmpz_t a, ulong b) { if (!b) flint_abort(); fput(f,fget(a)/(i128)b); } void fmpz_divexact_si(fmpz_t f, const fmpz_t a, slong b) { if (!b) flint_abort(); fput(f,fget(a)/b); }
void fmpz_divexact(fmpz_t f, const fmpz_t a, const fmpz_t b) { i128 d=fget(b); if (!d) flint_abort(); fput(f,fget(a)/d); }
void fmpz_fdiv_q(fmpz_t f, const fmpz_t a, const fmpz_t b) { fput(f,fdivfl(fget(a),fget(b))); } void fmpz_fdiv_q_ui(fmpz_t f, const fmpz_t a, ulong b) { fput(f,fdivfl(fget(a),(i128)b)); }
void fmpz_fdiv_q_si(fmpz_t f, const fmpz_t a, slong b) { fput(f,fdivfl(fget(a),b)); }
void fmpz_fdiv_r(fmpz_t f, const fmpz_t a, const fmpz_t b) { i128 x=fget(a), y=fget(b); fput(f,x-fdivfl(x,y)*y); }
ulong fmpz_fdiv_ui(const fmpz_t a, ulong b) { i128 x=fget(a); return (ulong)(x-fdivfl(x,(i128)b)*(i128)b); }
void fmpz_tdiv_q(fmpz_t f, const fmpz_t a, const fmpz_t b) { i128 d=fget(b); if (!d) flint_abort(); fput(f,fget(a)/d); } void fmpz_tdiv_q_ui(fmpz_t f, const fmpz_t a, ulong b) { if (!b) flint_abort(); fput(f,fget(a)/(i128)b); }
void fmpz_cdiv_q(fmpz_t f, const fmpz_t a, const fmpz_t b) { fput(f,-fdivfl(-fget(a),fget(b))); } void fmpz_cdiv_q_ui(fmpz_t f, const fmpz_t a, ulong b) { fput(f,-fdivfl(-fget(a),(i128)b)); }
void fmpz_fdiv_q_2exp(fmpz_t f, const fmpz_t a, ulong e) { i128 v=fget(a); if (conc((u64)v)&&conc((u64)(v>>64))) { fput(f,v>>(e>126? 126 : e)); return; } fput(f, e>126? (v<0? -1 : 0) : v>>e); }
void fmpz_tdiv_q_2exp(fmpz_t f, const fmpz_t a, ulong e) { i128 v=fget(a); i128 m=v<0? -v : v; m= e>126? 0 : m>>e; fput(f,v<0? -m : m); }
int fmpz_divisible_ui(const fmpz_t a, ulong b) { return fget(a)%(i128)b==0; }
int fmpz_cmp(const fmpz_t a, const fmpz_t b) { i128 x=fget(a), y=fget(b); return x<y? -1 : x>y; } int fmpz_cmp_ui(const fmpz_t a, ulong b) { i128 x=fget(a), y=b; return x<y? -1 : x>y; }
int fmpz_cmp_si(const fmpz_t a, slong b) { i128 x=fget(a), y=b; return x<y? -1 : x>y; }
int fmpz_cmpabs(const fmpz_t a, const fmpz_t b) { i128 x=fget(a), y=fget(b); if (x<0) x=-x; if (y<0) y=-y; return x<y? -1 : x>y; }
int fmpz_equal(const fmpz_t a, const fmpz_t b) { return fget(a)==fget(b); } int fmpz_equal_ui(const fmpz_t a, ulong b) { return fget(a)==(i128)b; } int fmpz_equal_si(const fmpz_t a, slong b) { return fget(a)==b; }
int fmpz_sgn(const fmpz_t a) { i128 x=fget(a); return x<0? -1 : x>0; } int fmpz_fits_si(const fmpz_t a) { i128 x=fget(a); return x==(slong)x; } int fmpz_abs_fits_ui(const fmpz_t a) { i128 x=fget(a); if (x<0) x=-x; return !(x>>64); }
ulong fmpz_get_ui(const fmpz_t a) { i128 x=fget(a); return (ulong)(x<0? -x : x); } slong fmpz_get_si(const fmpz_t a) { i128 x=fget(a); return (slong)x; }
double fmpz_get_d(const fmpz_t a) { i128 x=fget(a); if (x!=(slong)x) FAIL("fmpz_get_d"); return (double)(slong)x; }
size_t fmpz_sizeinbase(const fmpz_t a, int b) { i128 x=fget(a); if (x<0) x=-x; size_t n=0; do { ++n; x/=b; } while (x); return n; }
flint_bitcnt_t fmpz_bits(const fmpz_t a) { i128 x=fget(a); if (x<0) x=-x; flint_bitcnt_t n=0; while (x) { ++n; x>>=1; } return n; }
void fmpz_gcd(fmpz_t f, const fmpz_t a, const fmpz_t b) { i128 x=fget(a), y=fget(b); if (x<0) x=-x; if (y<0) y=-y; while (y) { i128 t=x%y; x=y; y=t; } fput(f,x); }
static char *dec64(char *p, u64 m, int width) { // writes backwards
  if (conc(m)) { int n=0; do { *--p='0'+m%10; m/=10; ++n; } while (m||n<width); return p; }
  u64 lo=0, hi=9; if (width) { hi=9999999999999999999ul; } else while (m>hi) { lo=hi+1; hi= hi>1844674407370955160ul? ~0ul : hi*10+9; }
  int nd=1; for (u64 h=9; h<hi; h=h>1844674407370955160ul? ~0ul : h*10+9) ++nd;
  if (width) nd=width; if (nd<20) { unsigned char dg[20]; if (hse_digits(m,nd,dg)) { for (int i=0;i<nd;i++) *--p=(char)('0'+dg[i]); return p; } }
  u64 q=hse_refine(m,lo,hi), d=1; if (width) nd=width;
  for (int i=0;i<nd;i++) { *--p=(char)('0'+(q/d)%10); if (i+1<nd) d*=10; }
  return p; }
char *fmpz_get_str(char *str, int b, const fmpz_t f) {
  if (b!=10) FAIL("fmpz_get_str base");
  char buf[64], *e=buf+64, *p=e; i128 v=fget(f); bool neg=v<0; u128 m=neg? -(u128)v : (u128)v;
  if (m>>64) { u64 k=10000000000000000000ul; u64 h=(u64)(m/k), l=(u64)(m%k); p=dec64(p,l,19); p=dec64(p,h,0); } else p=dec64(p,(u64)m,0);
  if (neg) *--p='-';
  size_t n=e-p; if (!str) str=(char*)flint_malloc(n+1); memcpy(str,p,n); str[n]=0; return str;
}
int fmpz_set_str(fmpz_t f, const char *s, int b) {
  if (b!=10) FAIL("fmpz_set_str base");
  while (*s==' '||(*s>=9&&*s<=13)) ++s;
  bool neg=false; if (*s=='-') { neg=true; ++s; }
  if (!(*s>='0'&&*s<='9')) return -1;
  u64 v=0; u128 w=0; int n=0;
  for (; *s; ++s) { if (*s==' '||(*s>=9&&*s<=13)) continue; if (!(*s>='0'&&*s<='9')) return -1; u64 d=*s-'0';
    if (n<19) { v=v*10+d; w=v; } else { if (w>>122) FAIL("integer beyond 126 bits"); w=w*10+d; } if (n||d||1) ++n; }
  fput(f,neg? -(i128)w : (i128)w); return 0;
}
// ---- word arithmetic ------------------------------------------------------------------------------
int n_is_prime(ulong n) { if (n<2) return 0; for (ulong d=2; d*d<=n; ++d) if (n%d==0) return 0; return 1; }
int n_is_probabprime(ulong n) { return n_is_prime(n); } int n_is_oddprime_small(ulong n) { return n_is_prime(n); }
ulong n_pow(ulong n, ulong e) { ulong r=1; for (; e; --e) r*=n; return r; }
ulong n_gcdinv(ulong *s, ulong x, ulong y) { slong a=1,b=0; ulong r0=x,r1=y; while (r1) { ulong q=r0/r1,t=r0%r1; r0=r1; r1=t; slong c=a-(slong)q*b; a=b; b=c; } *s= a<0? a+y : a; return r0; }
static ulong npw(ulong a, slong e, ulong n) { a%=n; if (e<0) { a=n_invmod(a,n); e=-e; } u128 r=1%n, b=a; while (e) { if (e&1) r=r*b%n; b=b*b%n; e>>=1; } return (ulong)r; }
ulong n_powmod2_ui_preinv(ulong a, ulong e, ulong n, ulong) { return npw(a,(slong)e,n); } ulong n_powmod2_preinv(ulong a, slong e, ulong n, ulong) { return npw(a,e,n); } ulong n_powmod_ui_precomp(ulong a, ulong e, ulong n, double) { return npw(a,(slong)e,n); } ulong n_powmod_precomp(ulong a, slong e, ulong n, double) { return npw(a,e,n); }
ulong n_preinvert_limb(ulong n) { ulong m=n<<__builtin_clzl(n); return (ulong)((~(u128)0)/m-((u128)1<<64)); }
ulong n_sqrt(ulong a) { ulong r=0; while ((r+1)*(r+1)<=a) ++r; return r; }
int n_jacobi(slong x, ulong y) { ulong a=x<0? (ulong)(y-(ulong)(-x)%y)%y : (ulong)x%y; int s=1; while (a) { while (!(a&1)) { a>>=1; if ((y&7)==3||(y&7)==5) s=-s; } ulong t=a; a=y; y=t; if ((a&3)==3&&(y&3)==3) s=-s; a%=y; } return y==1? s : 0; }
int n_jacobi_unsigned(ulong x, ulong y) { return n_jacobi((slong)x,y); } int n_remove(ulong *n, ulong p) { int e=0; while (*n%p==0) { *n/=p; ++e; } return e; }
ulong n_primitive_root_prime(ulong p) { for (ulong g=1;;++g) { ulong x=1; ulong k=0; do { x=x*g%p; ++k; } while (x!=1); if (k==p-1) return g; } }
ulong n_randint(flint_rand_t s, ulong n) { ulong k=s->__randval2++; if (!n) return 0; if (!hse_param("flint_rand",1)) return (k*7919+n/2)%n; return hse_input("n_randint",64,0,n-1); }
}
// ---- finite fields: code of an element = sum c_i p^i ------------------------------------------------
struct Conw { unsigned p; unsigned d; unsigned c[12]; };
static const Conw conway_table[] = {
#include "conway.inc"
  {0,0,{0}} };
static void name3(char *o, const char *n, u64 a, u64 b, u64 c) { while (*n) *o++=*n++; for (u64 v: {a,b,c}) { *o++='_'; char t[24]; int k=0; do { t[k++]='0'+v%10; v/=10; } while (v); while (k) *o++=t[--k]; } *o=0; }
static const unsigned NT=2048; // largest field for which symbolic operations use tables
struct Field {
  Field *next; u64 p; unsigned d; u64 q; unsigned m[40]; // monic modulus, degree d
  bool conway; unsigned *log, *exp; u64 prim; unsigned **mrow, **arow; unsigned *neg; unsigned char *dig[40];
  unsigned **powrow; u64 *powe; unsigned npow; unsigned *expo; u64 nrand; u64 rnd[16]; bool haver[16];
};
static Field *fields;
static void cmul(const Field *F, const unsigned *a, const unsigned *b, unsigned *r) {
  u64 t[80]; unsigned d=F->d; for (unsigned i=0;i<2*d;i++) t[i]=0;
  for (unsigned i=0;i<d;i++) if (a[i]) for (unsigned j=0;j<d;j++) t[i+j]=(t[i+j]+(u64)a[i]*b[j])%F->p;
  for (unsigned i=2*d-1;i-->d;) if (t[i]) { u64 c=t[i]; t[i]=0; for (unsigned j=0;j<d;j++) t[i-d+j]=(t[i-d+j]+(F->p-F->m[j])*c)%F->p; }
  for (unsigned i=0;i<d;i++) r[i]=(unsigned)t[i];
}
static void dec(const Field *F, u64 c, unsigned *a) { for (unsigned i=0;i<F->d;i++) { a[i]=c%F->p; c/=F->p; } }
static u64 enc(const Field *F, const unsigned *a) { u64 c=0; for (unsigned i=F->d;i-->0;) c=c*F->p+a[i]; return c; }
static u64 cm(const Field *F, u64 a, u64 b) { if (F->d==1) return a*b%F->p; unsigned x[40],y[40],r[40]; dec(F,a,x); dec(F,b,y); cmul(F,x,y,r); return enc(F,r); }
static u64 ca(const Field *F, u64 a, u64 b) { if (F->d==1) { u64 s=a+b; return s>=F->p? s-F->p : s; } unsigned x[40],y[40]; dec(F,a,x); dec(F,b,y); for (unsigned i=0;i<F->d;i++) x[i]=(unsigned)(((u64)x[i]+y[i])%F->p); return enc(F,x); }
static u64 cn(const Field *F, u64 a) { unsigned x[40]; dec(F,a,x); for (unsigned i=0;i<F->d;i++) x[i]=(unsigned)((F->p-x[i])%F->p); return enc(F,x); }
static u64 cpow(const Field *F, u64 a, u64 e) { u64 r=1%F->q; while (e) { if (e&1) r=cm(F,r,a); e>>=1; if (e) a=cm(F,a,a); } return r; }
static unsigned *rowalloc(const Field *F) { return (unsigned*)malloc(F->q*sizeof(unsigned)); }
static void logtab(Field *F) {
  if (F->log) return; if (F->q>65536) FAIL("field too large");
  F->log=rowalloc(F); F->exp=rowalloc(F);
  auto attempt=[&](u64 g) { u64 x=1; for (u64 i=0;i+1<F->q;i++) { if (i&&x==1) return false; F->exp[i]=x; F->log[x]=i; x=cm(F,x,g); } return x==1; };
  u64 g= F->d==1? (F->p-F->m[0])%F->p : F->p; if (!g || !attempt(g)) for (g=2; !attempt(g); ++g) if (g>=F->q) FAIL("no generator"); // g=1 works only for q=2
  F->prim=g;
}
static unsigned *mulrow(Field *F, u64 b) { if (!F->mrow) { F->mrow=(unsigned**)calloc(F->q,sizeof(void*)); } unsigned *&r=F->mrow[b];
  if (!r) { logtab(F); r=rowalloc(F); r[0]=0; u64 lb=F->log[b]; for (u64 i=1;i<F->q;i++) { u64 l=F->log[i]+lb; if (l>=F->q-1) l-=F->q-1; r[i]= b? F->exp[l] : 0; } } return r; }
static unsigned *addrow(Field *F, u64 b) { if (!F->arow) { F->arow=(unsigned**)calloc(F->q,sizeof(void*)); } unsigned *&r=F->arow[b];
  if (!r) { r=rowalloc(F); for (u64 i=0;i<F->q;i++) r[i]=ca(F,i,b); } return r; }
static u64 digit(Field *F, u64 a, unsigned i) { if (F->d==1) return a; if (conc(a)) { for (;i;--i) a/=F->p; return a%F->p; }
  if (F->p>255||F->q>NT) { u64 w=1; for (unsigned j=0;j<i;j++) w*=F->p; return (a/w)%F->p; }
  if (!F->dig[i]) { F->dig[i]=(unsigned char*)malloc(F->q); u64 w=1; for (unsigned j=0;j<i;j++) w*=F->p; for (u64 k=0;k<F->q;k++) F->dig[i][k]=(k/w)%F->p; }
  return F->dig[i][a]; }
static u64 fadd(Field *F, u64 a, u64 b) {
  bool x=conc(a), y=conc(b); if (x&&y) return ca(F,a,b); if (x&&!a) return b; if (y&&!b) return a;
  if (F->d==1) { u64 s=a+b; return s>=F->p? s-F->p : s; }
  if (F->q<=NT&&(x||y)) return x? addrow(F,a)[b] : addrow(F,b)[a];
  u64 c=0,w=1; for (unsigned i=0;i<F->d;i++) { u64 s=digit(F,a,i)+digit(F,b,i); s= s>=F->p? s-F->p : s; c+=s*w; w*=F->p; } return c; }
static u64 fneg(Field *F, u64 a) { if (conc(a)) return cn(F,a); if (F->d==1) return a? F->p-a : 0; if (!F->neg) { F->neg=rowalloc(F); for (u64 i=0;i<F->q;i++) F->neg[i]=cn(F,i); } return F->neg[a]; }
static u64 fmul(Field *F, u64 a, u64 b) {
  bool x=conc(a), y=conc(b); if (x&&y) return cm(F,a,b); if ((x&&!a)||(y&&!b)) return 0; if (x&&a==1) return b; if (y&&b==1) return a;
  if (F->q>NT) { if (F->d==1) return a*b%F->p; FAIL("symbolic product in a large field"); }
  if (x||y) return x? mulrow(F,a)[b] : mulrow(F,b)[a];
  logtab(F); if (!a||!b) return 0; u64 l=(u64)F->log[a]+F->log[b]; l= l>=F->q-1? l-(F->q-1) : l; return F->exp[l]; }
static u64 fpow(Field *F, u64 a, u64 e) {
  if (conc(a)&&conc(e)) return cpow(F,a,e);
  if (conc(a)) { // symbolic exponent
    u64 k=e; if (e>=F->q) { if (!a) return 0; k=e%(F->q-1); }
    if (F->q>NT) FAIL("symbolic exponent in a large field");
    unsigned *r=rowalloc(F); u64 v=1%F->q; for (u64 i=0;i<F->q;i++) { r[i]=v; v=cm(F,v,a); } return r[k]; }
  if (F->q>NT) FAIL("power of a symbolic element of a large field");
  if (!conc(e)) e=hse_concrete(e);
  for (unsigned i=0;i<F->npow;i++) if (F->powe[i]==e) return F->powrow[i][a];
  F->powe=(u64*)realloc(F->powe,(F->npow+1)*sizeof(u64)); F->powrow=(unsigned**)realloc(F->powrow,(F->npow+1)*sizeof(void*));
  unsigned *r=rowalloc(F); for (u64 i=0;i<F->q;i++) r[i]=cpow(F,i,e); F->powe[F->npow]=e; F->powrow[F->npow++]=r; return r[a]; }
// polynomial irreducibility over F_p by trial division (concrete)
static bool irreducible(u64 p, const unsigned *f, unsigned n) {
  for (unsigned e=1; 2*e<=n; ++e) { u64 cnt=1; for (unsigned i=0;i<e;i++) cnt*=p;
    for (u64 k=0;k<cnt;k++) { unsigned g[40]; u64 t=k; for (unsigned i=0;i<e;i++) { g[i]=t%p; t/=p; } g[e]=1;
      u64 r[40]; for (unsigned i=0;i<=n;i++) r[i]=f[i]; for (unsigned i=n+1;i-->e;) if (r[i]) { u64 c=r[i]; for (unsigned j=0;j<=e;j++) r[i-e+j]=(r[i-e+j]+(p-g[j])*c)%p; }
      bool z=true; for (unsigned i=0;i<e;i++) z&=!r[i]; if (z) return false; } }
  return true; }
static Field *mkfield(u64 p, unsigned d, const unsigned *m, bool conway) {
  for (Field *F=fields; F; F=F->next) if (F->p==p&&F->d==d&&F->conway==conway&&!memcmp(F->m,m,(d+1)*sizeof(unsigned))) return F;
  Field *F=(Field*)calloc(1,sizeof(Field)); F->p=p; F->d=d; F->q=1; for (unsigned i=0;i<d;i++) F->q*=p; for (unsigned i=0;i<=d;i++) F->m[i]=m[i]; F->conway=conway; F->next=fields; fields=F; return F; }
static Field *getfield(u64 p, unsigned d, bool forceconway) {
  p=hse_concrete(p); d=(unsigned)hse_concrete(d); if (d<1||d>30||p<2) flint_abort();
  if (!n_is_prime(p)) hse_fail("flint: field of non-prime characteristic");
  if (hse_param("flint_conway",1)||forceconway) for (const Conw *c=conway_table; c->p; ++c) if (c->p==p&&c->d==d) return mkfield(p,d,c->c,true);
  for (Field *F=fields; F; F=F->next) if (F->p==p&&F->d==d&&!F->conway) return F;
  if (forceconway) FAIL("no Conway polynomial in the table");
  unsigned m[40]; u64 q=1; for (unsigned i=0;i<d;i++) { if (q>1000000) FAIL("field too large"); q*=p; }
  char nm[48]; name3(nm,"modulus",p,d,0); u64 k;
  if (q<=4096) { unsigned *cand=(unsigned*)malloc(q*sizeof(unsigned)); u64 n=0; for (u64 t=0;t<q;t++) { u64 s=t; for (unsigned i=0;i<d;i++) { m[i]=s%p; s/=p; } m[d]=1; if (irreducible(p,m,d)) cand[n++]=t; }
    u64 ix=hse_concrete(hse_input(nm,32,0,n-1)); k=cand[ix]; free(cand); }
  else if (d==1) k= hse_param("flint_rand",1)? hse_concrete(hse_input(nm,32,0,p-1)) : p/2+p/7; else FAIL("field too large");
  for (unsigned i=0;i<d;i++) { m[i]=k%p; k/=p; } m[d]=1; return mkfield(p,d,m,false); }
static inline Field *fld(const fq_nmod_ctx_struct *c) { if (c->j!=(slong*)0x5a5a5a) { hse_fail("flint: use of an uninitialised or cleared field context"); hse_end(); abort(); } return (Field*)c->a; }
static const slong ELT=(slong)1<<40;
static void setcode(nmod_poly_struct *r, Field *F, u64 c) {
  unsigned d=F->d; if (!(r->alloc&ELT)) { r->coeffs=(mp_limb_t*)realloc(r->coeffs,(d+1)*sizeof(mp_limb_t)); r->alloc=ELT|(d+1); }
  for (unsigned i=0;i<d;i++) r->coeffs[i]=digit(F,c,i); r->coeffs[d]=c;
  if (conc(c)) { unsigned n=d; while (n&&!r->coeffs[n-1]) --n; r->length=n; } else r->length=d; }
static u64 code(const nmod_poly_struct *r, Field *F) { if (r->alloc==(ELT|(F->d+1))) return r->coeffs[F->d];
  u64 c=0; slong n=r->length; if (n>(slong)F->d) FAIL("unreduced element"); while (n-->0) c=c*F->p+r->coeffs[n]; return c; }
static void npinit(nmod_poly_struct *r, u64 p) { r->coeffs=0; r->alloc=0; r->length=0; r->mod.n=p; r->mod.ninv=0; r->mod.norm=0; if (p>0) { r->mod.norm=__builtin_clzl(p); r->mod.ninv=n_preinvert_limb(p); } }
static void ctxset(fq_nmod_ctx_struct *c, Field *F) { c->p=(fmpz)F->p; c->mod.n=F->p; c->mod.norm=__builtin_clzl(F->p); c->mod.ninv=n_preinvert_limb(F->p); c->sparse_modulus=1; c->is_conway=F->conway; c->a=(mp_limb_t*)F; c->j=(slong*)0x5a5a5a; c->len=F->d+1;
  npinit(c->modulus,F->p); c->modulus->coeffs=(mp_limb_t*)malloc((F->d+1)*sizeof(mp_limb_t)); c->modulus->alloc=c->modulus->length=F->d+1; for (unsigned i=0;i<=F->d;i++) c->modulus->coeffs[i]=F->m[i]; npinit(c->inv,F->p); c->var=0; }
extern "C" {
void fq_nmod_ctx_init(fq_nmod_ctx_t c, const fmpz_t p, slong d, const char *) { ctxset(c,getfield((u64)fget(p),(unsigned)d,false)); }
void fq_nmod_ctx_init_conway(fq_nmod_ctx_t c, const fmpz_t p, slong d, const char *) { ctxset(c,getfield((u64)fget(p),(unsigned)d,true)); }
int _fq_nmod_ctx_init_conway(fq_nmod_ctx_t c, const fmpz_t p, slong d, const char *) { ctxset(c,getfield((u64)fget(p),(unsigned)d,true)); return 1; }
void fq_nmod_ctx_init_modulus(fq_nmod_ctx_t c, const nmod_poly_t m, const char *) { unsigned a[40]; slong d=m->length-1; for (slong i=0;i<=d;i++) a[i]=m->coeffs[i]; ctxset(c,mkfield(m->mod.n,d,a,false)); }
void fq_nmod_ctx_clear(fq_nmod_ctx_t c) { fld(c); free(c->modulus->coeffs); c->j=0; c->a=0; }
void fq_nmod_ctx_order(fmpz_t f, const fq_nmod_ctx_t c) { fput(f,(i128)fld(c)->q); }
void fq_nmod_init(fq_nmod_t r, const fq_nmod_ctx_t c) { Field *F=fld(c); npinit(r,F->p); setcode(r,F,0); } void fq_nmod_init2(fq_nmod_t r, const fq_nmod_ctx_t c) { fq_nmod_init(r,c); }
void fq_nmod_clear(fq_nmod_t r, const fq_nmod_ctx_t c) { fld(c); free(r->coeffs); }
void fq_nmod_reduce(fq_nmod_t r, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,code(r,F)); }
void fq_nmod_set(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,code(a,F)); }
void fq_nmod_swap(fq_nmod_t a, fq_nmod_t b, const fq_nmod_ctx_t) { nmod_poly_struct t=*a; *a=*b; *b=t; }
void fq_nmod_zero(fq_nmod_t r, const fq_nmod_ctx_t c) { setcode(r,fld(c),0); } void fq_nmod_one(fq_nmod_t r, const fq_nmod_ctx_t c) { setcode(r,fld(c),1); }
static u64 gencode(Field *F) { return F->d==1? (F->p-F->m[0])%F->p : F->p; }
void fq_nmod_gen(fq_nmod_t r, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,gencode(F)); }
static u64 uimod(Field *F, u64 x) { if (conc(x)) return x%F->p; if (x<F->p) return x; return x%F->p; }
void fq_nmod_set_ui(fq_nmod_t r, ulong x, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,uimod(F,x)); }
void fq_nmod_set_si(fq_nmod_t r, slong x, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,x<0? fneg(F,uimod(F,-(u64)x)) : uimod(F,x)); }
void fq_nmod_set_fmpz(fq_nmod_t r, const fmpz_t x, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,fmpz_fdiv_ui(x,F->p)); }
void fq_nmod_add(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,fadd(F,code(a,F),code(b,F))); }
void fq_nmod_neg(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,fneg(F,code(a,F))); }
void fq_nmod_sub(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,fadd(F,code(a,F),fneg(F,code(b,F)))); }
void fq_nmod_sub_one(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,fadd(F,code(a,F),F->p-1)); }
static u64 operand(const nmod_poly_struct *a, Field *F) { u64 x=code(a,F); if (!conc(x)&&hse_param("flint_conc",0)) x=hse_concrete(x); return x; }
void fq_nmod_mul(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 x=operand(a,F); setcode(r,F,fmul(F,x,operand(b,F))); }
void fq_nmod_sqr(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 x=code(a,F); setcode(r,F,conc(x)? fmul(F,x,x) : fpow(F,x,2)); }
void fq_nmod_mul_ui(fq_nmod_t r, const fq_nmod_t a, ulong x, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,fmul(F,code(a,F),uimod(F,x))); }
void fq_nmod_mul_si(fq_nmod_t r, const fq_nmod_t a, slong x, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 k=x<0? fneg(F,uimod(F,-(u64)x)) : uimod(F,x); setcode(r,F,fmul(F,code(a,F),k)); }
void fq_nmod_inv(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 x=code(a,F); if (!x) flint_abort(); setcode(r,F,fpow(F,x,F->q-2)); }
void fq_nmod_div(fq_nmod_t r, const fq_nmod_t a, const fq_nmod_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 x=code(b,F); if (!x) flint_abort(); setcode(r,F,fmul(F,code(a,F),fpow(F,x,F->q-2))); }
void fq_nmod_pow_ui(fq_nmod_t r, const fq_nmod_t a, ulong e, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,fpow(F,code(a,F),e)); }
void fq_nmod_pow(fq_nmod_t r, const fq_nmod_t a, const fmpz_t e, const fq_nmod_ctx_t c) { fq_nmod_pow_ui(r,a,(ulong)fget(e),c); }
void fq_nmod_frobenius(fq_nmod_t r, const fq_nmod_t a, slong e, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 k=1; for (e=((e%(slong)F->d)+F->d)%F->d; e; --e) k*=F->p; setcode(r,F,fpow(F,code(a,F),k)); }
int fq_nmod_equal(const fq_nmod_t a, const fq_nmod_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); return code(a,F)==code(b,F); }
int fq_nmod_is_zero(const fq_nmod_t a, const fq_nmod_ctx_t c) { return code(a,fld(c))==0; } int fq_nmod_is_one(const fq_nmod_t a, const fq_nmod_ctx_t c) { return code(a,fld(c))==1; }
int fq_nmod_is_square(const fq_nmod_t a, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 x=code(a,F); if (F->p==2) return 1; return fpow(F,x,(F->q-1)/2)<=1; }
static u64 randcode(Field *F, flint_rand_s *s, u64 lo) {
  u64 k=s->__randval2-UWORD(13142370077570254774); if (k>=16&&hse_param("flint_draws",16)>=16) FAIL("more than 16 random field elements"); s->__randval2++;
  if (!hse_param("flint_rand",1)) { u64 v=(k*7919+3+F->q/2)%F->q; return v<lo? lo : v; }
  if (k+1>=hse_param("flint_draws",16)) { for (u64 x=2;x<F->q;x++) { u64 y=x, n=1; while (y!=1) { y=cm(F,y,x); ++n; } if (n==F->q-1) return x; } return 1; } // the draws end with a generator
  if (!F->haver[k]) { char nm[64]; name3(nm,"rand",F->p,F->d,k); F->rnd[k]=hse_input(nm,32,lo,F->q-1); F->haver[k]=true; }
  return F->rnd[k]; }
void fq_nmod_randtest(fq_nmod_t r, flint_rand_t s, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,randcode(F,s,0)); }
void fq_nmod_randtest_dense(fq_nmod_t r, flint_rand_t s, const fq_nmod_ctx_t c) { fq_nmod_randtest(r,s,c); } void fq_nmod_rand(fq_nmod_t r, flint_rand_t s, const fq_nmod_ctx_t c) { fq_nmod_randtest(r,s,c); }
void fq_nmod_randtest_not_zero(fq_nmod_t r, flint_rand_t s, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(r,F,randcode(F,s,1)); } void fq_nmod_rand_not_zero(fq_nmod_t r, flint_rand_t s, const fq_nmod_ctx_t c) { fq_nmod_randtest_not_zero(r,s,c); }
void fq_nmod_get_nmod_poly(nmod_poly_t a, const fq_nmod_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(a,F,code(b,F)); } void fq_nmod_set_nmod_poly(fq_nmod_t a, const nmod_poly_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(a,F,code(b,F)); }
int fq_nmod_get_fmpz(fmpz_t a, const fq_nmod_t b, const fq_nmod_ctx_t c) { Field *F=fld(c); u64 x=code(b,F); if (x>=F->p) return 0; fput(a,(i128)x); return 1; }
char *fq_nmod_get_str_pretty(const fq_nmod_t a, const fq_nmod_ctx_t c) {
  Field *F=fld(c); u64 x=code(a,F); std::string s; char b[32]; bool first=true;
  for (unsigned i=F->d;i-->0;) { u64 k=digit(F,x,i); if (!k) continue; if (!first) s+='+'; first=false;
    if (!(k==1&&i)) { char *p=dec64(b+31,k,0); s.append(p,b+31-p); if (i) s+='*'; }
    if (i>=1) s+='T'; if (i>1) { s+='^'; char *p=dec64(b+31,i,0); s.append(p,b+31-p); } }
  if (first) s="0"; char *r=(char*)flint_malloc(s.size()+1); memcpy(r,s.c_str(),s.size()+1); return r; }
char *fq_nmod_get_str(const fq_nmod_t, const fq_nmod_ctx_t) { FAIL("fq_nmod_get_str"); return 0; }
// ---- polynomials ------------------------------------------------------------------------------------
void nmod_poly_init2(nmod_poly_t r, mp_limb_t n, slong k) { npinit(r,n); if (k>0) { r->coeffs=(mp_limb_t*)malloc(k*sizeof(mp_limb_t)); r->alloc=k; } }
void nmod_poly_init2_preinv(nmod_poly_t r, mp_limb_t n, mp_limb_t, slong k) { nmod_poly_init2(r,n,k); } void nmod_poly_init(nmod_poly_t r, mp_limb_t n) { npinit(r,n); } void nmod_poly_init_preinv(nmod_poly_t r, mp_limb_t n, mp_limb_t) { npinit(r,n); }
void nmod_poly_clear(nmod_poly_t r) { free(r->coeffs); }
static void pnorm(nmod_poly_struct *r) { while (r->length && r->coeffs[r->length-1]==0) --r->length; }
void nmod_poly_realloc(nmod_poly_t r, slong n) { r->coeffs=(mp_limb_t*)realloc(r->coeffs,(n?n:1)*sizeof(mp_limb_t)); r->alloc=n; if (r->length>n) { r->length=n; pnorm(r); } }
void nmod_poly_fit_length(nmod_poly_t r, slong n) { if (r->alloc&ELT) r->alloc&=~ELT; if (n>r->alloc) nmod_poly_realloc(r,n); }
void nmod_poly_set_coeff_ui(nmod_poly_t r, slong j, ulong c) {
  u64 p=r->mod.n; if (conc(c)) c%=p; else c= c<p? c : c%p;
  nmod_poly_fit_length(r,j+1); if (j+1<r->length) { r->coeffs[j]=c; return; }
  if (j>=r->length) { if (c==0) return; for (slong i=r->length;i<j;i++) r->coeffs[i]=0; } r->coeffs[j]=c; r->length=j+1; pnorm(r); }
int nmod_poly_equal(const nmod_poly_t a, const nmod_poly_t b) { slong n=a->length>b->length? a->length : b->length; bool e=true; for (slong i=0;i<n;i++) e&=nmod_poly_get_coeff_ui(a,i)==nmod_poly_get_coeff_ui(b,i); return e; }
void nmod_poly_factor_init(nmod_poly_factor_t f) { f->p=0; f->exp=0; f->num=0; f->alloc=0; }
void nmod_poly_factor_clear(nmod_poly_factor_t f) { for (slong i=0;i<f->num;i++) free(f->p[i].coeffs); free(f->p); free(f->exp); }
void fq_nmod_poly_init2(fq_nmod_poly_t r, slong k, const fq_nmod_ctx_t) { r->coeffs= k>0? (fq_nmod_struct*)malloc(k*sizeof(fq_nmod_struct)) : 0; r->alloc=k; r->length=0; if (k>0) for (slong i=0;i<k;i++) npinit(r->coeffs+i,0); }
void fq_nmod_poly_init(fq_nmod_poly_t r, const fq_nmod_ctx_t c) { fq_nmod_poly_init2(r,0,c); }
void fq_nmod_poly_clear(fq_nmod_poly_t r, const fq_nmod_ctx_t) { for (slong i=0;i<r->alloc;i++) free(r->coeffs[i].coeffs); free(r->coeffs); }
static void qfit(fq_nmod_poly_struct *r, slong n) { if (n>r->alloc) { r->coeffs=(fq_nmod_struct*)realloc(r->coeffs,n*sizeof(fq_nmod_struct)); for (slong i=r->alloc;i<n;i++) npinit(r->coeffs+i,0); r->alloc=n; } }
void fq_nmod_poly_fit_length(fq_nmod_poly_t r, slong n, const fq_nmod_ctx_t) { qfit(r,n); }
static void qnorm(fq_nmod_poly_struct *r, Field *F) { while (r->length && code(r->coeffs+r->length-1,F)==0) --r->length; }
static void qset(fq_nmod_poly_struct *r, slong j, u64 x, Field *F) {
  qfit(r,j+1); r->coeffs[j].mod.n=F->p; if (j+1<r->length) { setcode(r->coeffs+j,F,x); return; }
  if (j>=r->length) { if (x==0) return; for (slong i=r->length;i<j;i++) { r->coeffs[i].mod.n=F->p; setcode(r->coeffs+i,F,0); } } setcode(r->coeffs+j,F,x); r->length=j+1; qnorm(r,F); }
void fq_nmod_poly_set_coeff(fq_nmod_poly_t r, slong j, const fq_nmod_t x, const fq_nmod_ctx_t c) { Field *F=fld(c); qset(r,j,code(x,F),F); }
void fq_nmod_poly_get_coeff(fq_nmod_t x, const fq_nmod_poly_t r, slong j, const fq_nmod_ctx_t c) { Field *F=fld(c); setcode(x,F,j<r->length? code(r->coeffs+j,F) : 0); }
void fq_nmod_poly_factor_init(fq_nmod_poly_factor_t f, const fq_nmod_ctx_t) { f->poly=0; f->exp=0; f->num=0; f->alloc=0; }
void fq_nmod_poly_factor_clear(fq_nmod_poly_factor_t f, const fq_nmod_ctx_t c) { for (slong i=0;i<f->num;i++) fq_nmod_poly_clear(f->poly+i,c); free(f->poly); free(f->exp); }
}
// generic polynomials over a field, as codes
struct Poly { u64 c[32]; int n; }; // n coefficients, possibly zero leading ones
struct Irr { Poly *p; int n; }; struct IrrT { Field *F; Irr byDeg[8]; }; static IrrT irrt[8]; static int nirrt;
// remainder modulo a monic concrete polynomial g
static void prem(Field *F, const Poly &f, const Poly &g, u64 *r, u64 *quo=0) {
  int e=g.n-1; for (int i=0;i<f.n;i++) r[i]=f.c[i];
  for (int i=f.n-1;i>=e;i--) { u64 c=r[i]; if (quo) quo[i-e]=c; if (conc(c)&&!c) continue; for (int j=0;j<e;j++) if (g.c[j]) r[i-e+j]=fadd(F,r[i-e+j],fmul(F,c,cn(F,g.c[j]))); }
}
static bool allzero(const u64 *r, int n) { u64 z=0; for (int i=0;i<n;i++) z|=r[i]; return z==0; }
static Irr &irrs(Field *F, int e) {
  IrrT *t=0; for (int i=0;i<nirrt;i++) if (irrt[i].F==F) t=&irrt[i]; if (!t) { if (nirrt==8) FAIL("irreducibles"); t=&irrt[nirrt++]; t->F=F; for (auto &x: t->byDeg) { x.p=0; x.n=-1; } }
  if (e>=8) FAIL("irreducibles"); Irr &I=t->byDeg[e]; if (I.n>=0) return I;
  u64 cnt=1; for (int i=0;i<e;i++) { cnt*=F->q; if (cnt>20000) FAIL("too many irreducible polynomials"); }
  char *red=(char*)calloc(cnt,1); // sieve: mark products of lower degree irreducibles with anything monic
  for (int a=1; 2*a<=e; ++a) { Irr &A=irrs(F,a); u64 cb=1; for (int i=0;i<e-a;i++) cb*=F->q;
    for (int x=0;x<A.n;x++) for (u64 k=0;k<cb;k++) { Poly b; u64 s=k; for (int i=0;i<e-a;i++) { b.c[i]=s%F->q; s/=F->q; } b.c[e-a]=1; u64 pr[32]; for (int i=0;i<=e;i++) pr[i]=0;
      for (int i=0;i<=a;i++) if (A.p[x].c[i]) for (int j=0;j<=e-a;j++) if (b.c[j]) pr[i+j]=ca(F,pr[i+j],cm(F,A.p[x].c[i],b.c[j])); u64 cd=0; for (int i=e;i-->0;) cd=cd*F->q+pr[i]; red[cd]=1; } }
  int n=0; for (u64 k=0;k<cnt;k++) n+=!red[k]; I.p=(Poly*)malloc((n+1)*sizeof(Poly)); I.n=0;
  for (u64 k=0;k<cnt;k++) if (!red[k]) { Poly &P=I.p[I.n++]; P.n=e+1; u64 s=k; for (int i=0;i<e;i++) { P.c[i]=s%F->q; s/=F->q; } P.c[e]=1; }
  free(red); return I; }
extern "C" __attribute__((weak,noinline)) int hse_squarefree_hook(const u64 *codes, int n, u64 q) { return -1; }
extern "C" __attribute__((weak,noinline)) int hse_factor_hook(const u64 *codes, int n, u64 q, int *degs, int *exps, int max) { return -1; } // number of factors or -1
static bool squarefree(Field *F, Poly &f) {
  { int r=hse_squarefree_hook(f.c,f.n,F->q); if (r>=0) return r; }
  if (f.n==0) return false;
  bool sq=true; for (int e=1; 2*e<=f.n-1; ++e) { Irr &I=irrs(F,e);
    for (int k=0;k<I.n;k++) { Poly g2; g2.n=2*e+1; for (int i=0;i<g2.n;i++) g2.c[i]=0; for (int i=0;i<=e;i++) for (int j=0;j<=e;j++) g2.c[i+j]=ca(F,g2.c[i+j],cm(F,I.p[k].c[i],I.p[k].c[j]));
      u64 r[32]; prem(F,f,g2,r); sq&=!allzero(r,2*e); } }
  return sq; }
// factors: out receives monic irreducible factors with multiplicity merged
static int factorize(Field *F, Poly f, Poly *out, int *exps) {
  int degs[32];
  { int n=hse_factor_hook(f.c,f.n,F->q,degs,exps,32); if (n>=0) { for (int i=0;i<n;i++) { out[i].n=degs[i]+1; for (int j=0;j<=degs[i];j++) out[i].c[j]=j==degs[i]; } return n; } }
  if (f.n==0) flint_abort();
  while (f.n>1&&f.c[f.n-1]==0) --f.n;
  int n=0; for (int e=1; 2*e<=f.n-1; ++e) { Irr &I=irrs(F,e); for (int k=0;k<I.n&&2*e<=f.n-1;k++) { int m=0; for (;;) { if (f.n-1<e) break; u64 r[32], q[32]; prem(F,f,I.p[k],r,q); if (!allzero(r,e)) break; ++m; for (int i=0;i<f.n-e;i++) f.c[i]=q[i]; f.n-=e; }
      if (m) { out[n]=I.p[k]; exps[n++]=m; } } }
  if (f.n>1) { Poly g=f; int d=-1; for (int i=0;i<n;i++) if (out[i].n==f.n) { bool same=true; u64 inv=fpow(F,f.c[f.n-1],F->q-2); for (int j=0;j<f.n;j++) same&= fmul(F,f.c[j],inv)==out[i].c[j]; if (same) d=i; }
    if (d>=0) exps[d]++; else { u64 inv=fpow(F,f.c[f.n-1],F->q-2); for (int j=0;j<f.n;j++) g.c[j]=fmul(F,f.c[j],inv); out[n]=g; exps[n++]=1; } }
  return n; }
static Field *pf(u64 p) { unsigned m[2]={0,1}; p=hse_concrete(p); for (const Conw *c=conway_table; c->p; ++c) if (c->p==p&&c->d==1) return mkfield(p,1,c->c,true); return mkfield(p,1,m,false); }
static Poly fromn(const nmod_poly_struct *a) { Poly f; f.n=(int)a->length; if (f.n>31) FAIL("degree"); for (int i=0;i<f.n;i++) f.c[i]=a->coeffs[i]; return f; }
static Poly fromq(const fq_nmod_poly_struct *a, Field *F) { Poly f; f.n=(int)a->length; if (f.n>31) FAIL("degree"); for (int i=0;i<f.n;i++) f.c[i]=code(a->coeffs+i,F); return f; }
extern "C" {
int nmod_poly_is_squarefree(const nmod_poly_t a) { Poly f=fromn(a); return squarefree(pf(a->mod.n),f); }
int fq_nmod_poly_is_squarefree(const fq_nmod_poly_t a, const fq_nmod_ctx_t c) { Field *F=fld(c); Poly f=fromq(a,F); return squarefree(F,f); }
mp_limb_t nmod_poly_factor(nmod_poly_factor_t r, const nmod_poly_t a) {
  Field *F=pf(a->mod.n); Poly f=fromn(a); Poly out[32]; int ex[32]; int n=factorize(F,f,out,ex);
  nmod_poly_factor_clear(r); r->num=n; r->alloc=n; r->p=(nmod_poly_struct*)malloc((n+1)*sizeof(nmod_poly_struct)); r->exp=(slong*)malloc((n+1)*sizeof(slong));
  for (int i=0;i<n;i++) { r->exp[i]=ex[i]; nmod_poly_init2(r->p+i,F->p,out[i].n); for (int j=0;j<out[i].n;j++) r->p[i].coeffs[j]=out[i].c[j]; r->p[i].length=out[i].n; }
  return a->length? a->coeffs[a->length-1] : 0; }
void fq_nmod_poly_factor(fq_nmod_poly_factor_t r, fq_nmod_t lead, const fq_nmod_poly_t a, const fq_nmod_ctx_t c) {
  Field *F=fld(c); Poly f=fromq(a,F); Poly out[32]; int ex[32]; int n=factorize(F,f,out,ex);
  fq_nmod_poly_factor_clear(r,c); r->num=n; r->alloc=n; r->poly=(fq_nmod_poly_struct*)malloc((n+1)*sizeof(fq_nmod_poly_struct)); r->exp=(slong*)malloc((n+1)*sizeof(slong));
  for (int i=0;i<n;i++) { r->exp[i]=ex[i]; fq_nmod_poly_init2(r->poly+i,out[i].n,c); for (int j=0;j<out[i].n;j++) { r->poly[i].coeffs[j].mod.n=F->p; setcode(r->poly[i].coeffs+j,F,out[i].c[j]); } r->poly[i].length=out[i].n; }
  if (f.n) setcode(lead,F,f.c[f.n-1]); }
// ---- Zech logarithm representation: value = discrete logarithm, q-1 for zero ------------------------
void fq_zech_ctx_init_fq_nmod_ctx(fq_zech_ctx_t z, fq_nmod_ctx_t c) { Field *F=fld(c); logtab(F); z->qm1=F->q-1; z->qm1o2=F->p==2? 1 : (F->q-1)/2; z->qm1opm1=(F->q-1)/(F->p-1); z->p=F->p; z->ppre=0; z->prime_root=F->exp[z->qm1opm1%(F->q-1)]; z->fq_nmod_ctx=c; z->owns_fq_nmod_ctx=0; z->is_conway=F->conway; z->prime_field_table=0; z->eval_table=0;
  z->zech_log_table=(mp_limb_t*)malloc(F->q*sizeof(mp_limb_t)); for (u64 i=0;i<F->q;i++) { u64 x= i==F->q-1? 1 : ca(F,1,F->exp[i]); z->zech_log_table[i]= x? F->log[x] : F->q-1; } }
void fq_zech_ctx_init(fq_zech_ctx_t z, const fmpz_t p, slong d, const char *v) { fq_nmod_ctx_struct *c=(fq_nmod_ctx_struct*)malloc(sizeof(*c)); fq_nmod_ctx_init(c,p,d,v); fq_zech_ctx_init_fq_nmod_ctx(z,c); z->owns_fq_nmod_ctx=1; }
void fq_zech_ctx_init_conway(fq_zech_ctx_t z, const fmpz_t p, slong d, const char *v) { fq_nmod_ctx_struct *c=(fq_nmod_ctx_struct*)malloc(sizeof(*c)); fq_nmod_ctx_init_conway(c,p,d,v); fq_zech_ctx_init_fq_nmod_ctx(z,c); z->owns_fq_nmod_ctx=1; }
void fq_zech_ctx_clear(fq_zech_ctx_t z) { free(z->zech_log_table); if (z->owns_fq_nmod_ctx) { fq_nmod_ctx_clear(z->fq_nmod_ctx); free(z->fq_nmod_ctx); } z->zech_log_table=0; }
static u64 zmul(const fq_zech_ctx_struct *z, u64 a, u64 b) { u64 m=z->qm1; u64 s=a+b; s= s>=m? s-m : s; return a==m||b==m? m : s; }
void fq_zech_mul(fq_zech_t r, const fq_zech_t a, const fq_zech_t b, const fq_zech_ctx_t z) { r->value=zmul(z,a->value,b->value); }
void fq_zech_sqr(fq_zech_t r, const fq_zech_t a, const fq_zech_ctx_t z) { r->value=zmul(z,a->value,a->value); }
void fq_zech_add(fq_zech_t r, const fq_zech_t a, const fq_zech_t b, const fq_zech_ctx_t z) {
  u64 m=z->qm1, x=a->value, y=b->value; if (conc(x)&&x==m) { r->value=y; return; } if (conc(y)&&y==m) { r->value=x; return; }
  u64 df= y>=x? y-x : y+m-x; df= df>m? m : df; u64 l=z->zech_log_table[df]; u64 s=x+l; s= s>=m? s-m : s; s= l==m? m : s; r->value= x==m? y : y==m? x : s; }
void fq_zech_neg(fq_zech_t r, const fq_zech_t a, const fq_zech_ctx_t z) { u64 m=z->qm1; u64 h=z->p==2? 0 : m/2; r->value=zmul(z,a->value,h); }
void fq_zech_sub(fq_zech_t r, const fq_zech_t a, const fq_zech_t b, const fq_zech_ctx_t z) { fq_zech_t n; fq_zech_neg(n,b,z); fq_zech_add(r,a,n,z); }
void fq_zech_sub_one(fq_zech_t r, const fq_zech_t a, const fq_zech_ctx_t z) { fq_zech_t o; o->value=0; fq_zech_sub(r,a,o,z); }
void fq_zech_inv(fq_zech_t r, const fq_zech_t a, const fq_zech_ctx_t z) { u64 v=a->value; if (v==z->qm1) flint_abort(); r->value= v? z->qm1-v : 0; }
void fq_zech_div(fq_zech_t r, const fq_zech_t a, const fq_zech_t b, const fq_zech_ctx_t z) { fq_zech_t n; fq_zech_inv(n,b,z); r->value=zmul(z,a->value,n->value); }
void fq_zech_pow_ui(fq_zech_t r, const fq_zech_t a, ulong e, const fq_zech_ctx_t z) {
  u64 m=z->qm1, x=a->value;
  if (conc(x)&&conc(e)) { r->value= e==0? 0 : x==m? m : (u64)((u128)x*e%m); return; }
  if (conc(x)) { u64 k= e<=m? e : 1+(e-1)%m; mp_limb_t *t=(mp_limb_t*)malloc((m+1)*sizeof(mp_limb_t)); for (u64 i=0;i<=m;i++) t[i]= i==0? 0 : x==m? m : x*i%m; r->value=t[k]; return; }
  if (!conc(e)) e=hse_concrete(e); mp_limb_t *t=(mp_limb_t*)malloc((m+1)*sizeof(mp_limb_t)); for (u64 i=0;i<=m;i++) t[i]= e==0? 0 : i==m? m : (u64)((u128)i*e%m); r->value=t[x]; }
void fq_zech_pow(fq_zech_t r, const fq_zech_t a, const fmpz_t e, const fq_zech_ctx_t z) { fq_zech_pow_ui(r,a,(ulong)fget(e),z); }
int fq_zech_is_square(const fq_zech_t a, const fq_zech_ctx_t z) { u64 v=a->value; return z->p==2||v==z->qm1||!(v&1); }
void fq_zech_set_ui(fq_zech_t r, ulong x, const fq_zech_ctx_t z) { Field *F=fld(z->fq_nmod_ctx); u64 c=hse_concrete(x)%F->p; r->value= c? F->log[c] : z->qm1; }
void fq_zech_set_si(fq_zech_t r, slong x, const fq_zech_ctx_t z) { Field *F=fld(z->fq_nmod_ctx); slong c=(slong)hse_concrete(x)%(slong)F->p; if (c<0) c+=F->p; r->value= c? F->log[c] : z->qm1; }
void fq_zech_set_fq_nmod(fq_zech_t r, const fq_nmod_t a, const fq_zech_ctx_t z) { Field *F=fld(z->fq_nmod_ctx); u64 c=code(a,F); r->value= c? F->log[c] : z->qm1; }
void fq_zech_get_fq_nmod(fq_nmod_t r, const fq_zech_t a, const fq_zech_ctx_t z) { Field *F=fld(z->fq_nmod_ctx); u64 v=a->value; setcode(r,F,v==z->qm1? 0 : F->exp[v]); }
}
