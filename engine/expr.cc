#include "expr.h"
#include <chrono>
#include <fstream>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>

std::vector<VarInfo> g_vars;
static std::unordered_map<std::string,Expr*> g_varByName;
uint64_t g_nexprs=0;
uint32_t g_evalgen=0;

struct HC {
  static size_t h(const Expr *e) {
    u64 x = e->op * 0x9E3779B97F4A7C15ull + e->w*1315423911ull + e->aux*2654435761ull;
    for (int i=0;i<3;i++) { x ^= (u64)(e->k[i]? e->k[i]->id+1:0) + 0x9e3779b97f4a7c15ull + (x<<6) + (x>>2); }
    x ^= (u64)e->c * 0xff51afd7ed558ccdull; x ^= (u64)(e->c>>64)*0xc4ceb9fe1a85ec53ull; x ^= x>>29;
    return x;
  }
  size_t operator()(const Expr *e) const { return h(e); }
};
struct HE { bool operator()(const Expr *a,const Expr*b) const {
  return a->op==b->op && a->w==b->w && a->aux==b->aux && a->k[0]==b->k[0] && a->k[1]==b->k[1] && a->k[2]==b->k[2] && a->c==b->c; } };
static std::unordered_set<Expr*,HC,HE> table;
static std::vector<Expr*> arena; static size_t arenaPos=0;
static Expr *newExpr() {
  const size_t CH=1<<14;
  if (arena.empty() || arenaPos==CH) { arena.push_back((Expr*)malloc(sizeof(Expr)*CH)); arenaPos=0; }
  return &arena.back()[arenaPos++];
}
static void intervals(Expr *e) {
  e->lo=0; e->hi = e->w>=64? ~(u64)0 : mask64(e->w);
  if (e->w>64) return;
  u64 M = mask64(e->w);
  Expr *a=e->k[0], *b=e->k[1];
  switch (e->op) {
    case OConst: e->lo=e->hi=(u64)e->c; break;
    case OAdd: if (a->hi <= M - b->hi) { e->lo=a->lo+b->lo; e->hi=a->hi+b->hi; }
      else if (b->op==OConst && (u64)b->c > M/2) { u64 s=(M-(u64)b->c)+1; if (a->lo>=s) { e->lo=a->lo-s; e->hi=a->hi-s; } }
      break;
    case OSub: if (a->lo >= b->hi) { e->lo=a->lo-b->hi; e->hi=a->hi-b->lo; } break;
    case OMul: { u128 p=(u128)a->hi*b->hi; if (p<=M) { e->lo=a->lo*b->lo; e->hi=(u64)p; } } break;
    case OUDiv: if (b->lo>0) { e->lo=a->lo/b->hi; e->hi=a->hi/b->lo; } break;
    case OURem: if (b->lo>0) { e->hi=std::min(a->hi,b->hi-1); if (a->hi<b->lo) { e->lo=a->lo; e->hi=a->hi; } } break;
    case OAnd: e->hi=std::min(a->hi,b->hi); break;
    case OOr: { e->lo=std::max(a->lo,b->lo); u64 x=a->hi|b->hi; x|=x>>1;x|=x>>2;x|=x>>4;x|=x>>8;x|=x>>16;x|=x>>32; e->hi=x&M; } break;
    case OXor: { u64 x=a->hi|b->hi; x|=x>>1;x|=x>>2;x|=x>>4;x|=x>>8;x|=x>>16;x|=x>>32; e->hi=x&M; } break;
    case OShl: if (b->op==OConst && (u64)b->c<64) { u128 p=(u128)a->hi<<(unsigned)b->c; if (p<=M) { e->lo=a->lo<<(unsigned)b->c; e->hi=(u64)p; } } break;
    case OLShr: if (b->op==OConst && (u64)b->c<64) { e->lo=a->lo>>(unsigned)b->c; e->hi=a->hi>>(unsigned)b->c; } break;
    case OIte: e->lo=std::min(b->lo,e->k[2]->lo); e->hi=std::max(b->hi,e->k[2]->hi); break;
    case OBar: e->lo=e->k[0]->lo; e->hi=e->k[0]->hi; break;
    case OZExt: e->lo=a->lo; e->hi=a->hi; break;
    case OSExt: if (a->w<=64 && a->hi <= mask64(a->w)/2) { e->lo=a->lo; e->hi=a->hi; } break;
    case OExtract: if (a->w<=64 && e->aux==0 && a->hi<=M) { e->lo=a->lo; e->hi=a->hi; }
      else if (a->w<=64 && (a->hi>>e->aux)<=M) { e->lo=a->lo>>e->aux; e->hi=a->hi>>e->aux; } break;
    case OConcat: e->lo=(a->lo<<b->w)|b->lo; e->hi=(a->hi<<b->w)|b->hi; if (b->lo!=b->hi && true) { e->lo=(a->lo<<b->w); if (a->lo==a->hi) e->lo|=b->lo; e->hi=(a->hi<<b->w)|b->hi; } break;
    default: break;
  }
}
static Expr *cons(Op op, unsigned w, Expr *a, Expr *b, Expr *c3, uint32_t aux, u128 c) {
  Expr t; memset(&t,0,sizeof t); t.op=op; t.w=w; t.aux=aux; t.k[0]=a; t.k[1]=b; t.k[2]=c3; t.c=c;
  auto it=table.find(&t); if (it!=table.end()) return *it;
  Expr *e=newExpr(); *e=t; e->id=++g_nexprs; e->gen=0; e->z3i=0;
  intervals(e);
  e->ctree=0;
  if (op==OConst) e->ctree=1;
  else if (op==OIte && b->ctree && c3->ctree && b->ctree+c3->ctree<=256) e->ctree=b->ctree+c3->ctree;
  table.insert(e);
  if (w<=64 && op!=OConst && op!=OI2F && e->lo==e->hi) return mkConst(w,e->lo);
  return e;
}
Expr *mkConst(unsigned w, u128 c) { return cons(OConst,w,0,0,0,0,c&maskw(w)); }
Expr *mkVar(const std::string &name, unsigned w, u64 lo, u64 hi) {
  auto it=g_varByName.find(name);
  if (it!=g_varByName.end()) return it->second;
  uint32_t ix=g_vars.size(); g_vars.push_back({name,w,lo,hi});
  Expr *e=newExpr(); memset(e,0,sizeof *e); e->op=OVar; e->w=w; e->aux=ix; e->id=++g_nexprs; e->lo=lo; e->hi=std::min(hi,mask64(w));
  g_varByName[name]=e; table.insert(e);
  return e;
}
static bool foldBin(Op op, unsigned w, u128 a, u128 b, u128 &r) {
  u128 M=maskw(w);
  switch (op) {
    case OAdd: r=a+b; break; case OSub: r=a-b; break; case OMul: r=a*b; break;
    case OUDiv: if (!b) return false; r=a/b; break;
    case OURem: if (!b) return false; r=a%b; break;
    case OSDiv: { if (!b) return false; __int128 x=sext(a,w), y=sext(b,w); if (y==-1) r=(u128)(-x); else r=(u128)(x/y); break; }
    case OSRem: { if (!b) return false; __int128 x=sext(a,w), y=sext(b,w); if (y==-1) r=0; else r=(u128)(x%y); break; }
    case OAnd: r=a&b; break; case OOr: r=a|b; break; case OXor: r=a^b; break;
    case OShl: r= b>=w?0:a<<(unsigned)b; break;
    case OLShr: r= b>=w?0:a>>(unsigned)b; break;
    case OAShr: { __int128 x=sext(a,w); unsigned s=b>=w?w-1:(unsigned)b; r=(u128)(x>>s); break; }
    case OEq: r=a==b; return true; case OUlt: r=a<b; return true; case OUle: r=a<=b; return true;
    case OSlt: r=sext(a,w)<sext(b,w); return true; case OSle: r=sext(a,w)<=sext(b,w); return true;
    default: return false;
  }
  r&=M; return true;
}
static bool isCmp(Op op) { return op>=OEq && op<=OSle; }
Expr *mkNot(Expr *a) { return mkBin(OXor,a,mkConst(1,1)); }
Expr *mkAndB(Expr *a, Expr *b) { return mkBin(OAnd,a,b); }
Expr *mkOrB(Expr *a, Expr *b) { return mkBin(OOr,a,b); }
Expr *mkEq(Expr *a, Expr *b) { return mkBin(OEq,a,b); }
static bool isNotOf(Expr *a, Expr *b) { // a == !b (bool)
  return a->w==1 && a->op==OXor && a->k[1]->op==OConst && a->k[0]==b; }
static std::unordered_map<u64,Expr*> liftMemo;
static Expr *stripZ(Expr *e) { while (e->op==OZExt) e=e->k[0]; return e; }
// (x/(c1*c))*c + (x/c1)%c  =  x/c1
static Expr *recompose(Expr *m, Expr *r) {
  if (m->op!=OMul || !isC(m->k[1])) return nullptr;
  u64 c=(u64)m->k[1]->c; Expr *U=stripZ(m->k[0]), *R=stripZ(r);
  if (U->op!=OUDiv || !isC(U->k[1]) || R->op!=OURem || !isC(R->k[1]) || (u64)R->k[1]->c!=c) return nullptr;
  Expr *X=stripZ(U->k[0]); u64 C=(u64)U->k[1]->c; Expr *Q=stripZ(R->k[0]); u64 c1=1;
  if (Q!=X) { if (Q->op!=OUDiv || !isC(Q->k[1])) return nullptr; c1=(u64)Q->k[1]->c; if (stripZ(Q->k[0])!=X) return nullptr; Q=Q; }
  if ((u128)c1*c!=C || X->w>m->w) return nullptr;
  return mkZExt(mkBin(OUDiv,X,mkConst(X->w,c1)),m->w);
}
Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w=a->w;
  if (a->w!=b->w) throw std::runtime_error("width mismatch in mkBin");
  u128 r;
  if (isC(a)&&isC(b)) { if (foldBin(op,w,a->c,b->c,r)) return mkConst(isCmp(op)?1:w,r); }
  bool comm = op==OAdd||op==OMul||op==OAnd||op==OOr||op==OXor||op==OEq;
  if (comm && (isC(a) || (!isC(b) && a->id>b->id))) std::swap(a,b);
  u128 M=maskw(w);
  // lift over constant ite trees
  if (isC(b) && a->op==OIte && a->ctree && a->ctree<=(isCmp(op)?256:32) && !((op==OUDiv||op==OURem||op==OSDiv||op==OSRem)&&!b->c))
  {
    u64 key=((u64)a->id<<40)^((u64)b->id<<8)^op;
    auto it=liftMemo.find(key);
    if (it!=liftMemo.end()) { Expr *c=it->second; return c; }
    Expr *res=mkIte(a->k[0], mkBin(op,a->k[1],b), mkBin(op,a->k[2],b));
    if (a->id < (1u<<24) ) liftMemo[key]=res;
    return res;
  }
  if (isC(a) && b->op==OIte && b->ctree && b->ctree<=(isCmp(op)?256:32) && !comm && op!=OUDiv&&op!=OURem&&op!=OSDiv&&op!=OSRem)
    return mkIte(b->k[0], mkBin(op,a,b->k[1]), mkBin(op,a,b->k[2]));
  switch (op) {
    case OAdd:
      if (isC(b) && !b->c) return a;
      if (isC(b) && a->op==OAdd && isC(a->k[1])) return mkBin(OAdd,a->k[0],mkConst(w,a->k[1]->c+b->c));
      if (!isC(b) && a->op==OAdd && isC(a->k[1])) return mkBin(OAdd,mkBin(OAdd,a->k[0],b),a->k[1]);
      if (!isC(b) && b->op==OAdd && isC(b->k[1])) return mkBin(OAdd,mkBin(OAdd,a,b->k[0]),b->k[1]);
      if (b->op==OSub && b->k[1]==a) return b->k[0];
      if (!isC(b) && w<=64) { if (Expr *r=recompose(a,b)) return r; if (Expr *r=recompose(b,a)) return r; }
      if (a->op==OSub && a->k[1]==b) return a->k[0];
      break;
    case OSub:
      if (a==b) return mkConst(w,0);
      if (isC(b)) return mkBin(OAdd,a,mkConst(w,(u128)0-b->c));
      if (a->op==OAdd && a->k[1]==b) return a->k[0];
      if (a->op==OAdd && a->k[0]==b) return a->k[1];
      if (a->op==OAdd && isC(a->k[1])) return mkBin(OAdd,mkBin(OSub,a->k[0],b),a->k[1]);
      if (b->op==OAdd && isC(b->k[1])) return mkBin(OAdd,mkBin(OSub,a,b->k[0]),mkConst(w,(u128)0-b->k[1]->c));
      break;
    case OMul:
      if (isC(b)) { if (!b->c) return b; if (b->c==1) return a;
        if (a->op==OAdd && isC(a->k[1])) return mkBin(OAdd,mkBin(OMul,a->k[0],b),mkConst(w,a->k[1]->c*b->c)); 
        if (a->op==OMul && isC(a->k[1])) return mkBin(OMul,a->k[0],mkConst(w,a->k[1]->c*b->c)); }
      break;
    case OUDiv: if (isC(b) && b->c && w<=64) {
        if (a->op==OAdd && a->k[0]->hi<=mask64(w)-a->k[1]->hi) for (int i=0;i<2;i++) { Expr *m=a->k[i];
          if (m->op==OMul && isC(m->k[1]) && m->k[1]->c==b->c && (u128)m->k[0]->hi*m->k[1]->c<=mask64(w) && a->k[1-i]->hi<b->c) return m->k[0]; }
        if (a->op==OUDiv && isC(a->k[1])) { u128 p=a->k[1]->c*b->c; return p>M? mkConst(w,0) : mkBin(OUDiv,a->k[0],mkConst(w,p)); }
        if (a->op==OZExt) { if (b->c>maskw(a->k[0]->w)) return mkConst(w,0); return mkZExt(mkBin(OUDiv,a->k[0],mkConst(a->k[0]->w,b->c)),w); } }
      if (isC(b)) { if (b->c==1) return a; if (b->c && !(b->c&(b->c-1))) { unsigned s=0; while (!((b->c>>s)&1)) s++; return mkBin(OLShr,a,mkConst(w,s)); } } break;
    case OURem: if (isC(b) && b->c && !(b->c&(b->c-1))) return mkBin(OAnd,a,mkConst(w,b->c-1));
      if (w<=64 && isC(b) && b->c && a->op==OAdd && a->k[0]->hi<=mask64(w)-a->k[1]->hi) for (int i=0;i<2;i++) { Expr *m=a->k[i]; // multiples of the divisor fall away when nothing wraps
        if (m->op==OMul && isC(m->k[1]) && m->k[1]->c%b->c==0 && (u128)m->k[0]->hi*m->k[1]->c<=mask64(w)) return mkBin(OURem,a->k[1-i],b); }
      if (w<=64 && a->hi<b->lo) return a;
      if (w<=64 && isC(b) && b->c && a->op==OZExt) { if (b->c>maskw(a->k[0]->w)) return a; return mkZExt(mkBin(OURem,a->k[0],mkConst(a->k[0]->w,b->c)),w); }
      break;
    case OSDiv: if (w<=64 && a->hi<=mask64(w)/2 && b->hi<=mask64(w)/2) return mkBin(OUDiv,a,b); break;
    case OSRem: if (w<=64 && a->hi<=mask64(w)/2 && b->hi<=mask64(w)/2) return mkBin(OURem,a,b); break;
    case OAnd:
      if (isC(b)) { if (!b->c) return b; if (b->c==M) return a;
        if (w>1 && !((b->c+1)&b->c)) { unsigned k=0; while ((b->c>>k)&1) k++; return mkZExt(mkExtract(a,0,k),w); } }
      if (a==b) return a;
      if (w==1) { if (isNotOf(a,b)||isNotOf(b,a)) return mkConst(1,0);
        if (a->op==OAnd && (a->k[0]==b||a->k[1]==b)) return a;
        if (b->op==OAnd && (b->k[0]==a||b->k[1]==a)) return b; }
      break;
    case OOr:
      if (isC(b)) { if (!b->c) return a; if (b->c==M) return b; if (w>1 && w<=64 && a->hi < ((u64)b->c & -(u64)b->c)) return mkBin(OAdd,a,b); }
      if (a==b) return a;
      if (w==1) { if (isNotOf(a,b)||isNotOf(b,a)) return mkConst(1,1);
        if (a->op==OAnd && (a->k[0]==b||a->k[1]==b)) return b;
        if (b->op==OAnd && (b->k[0]==a||b->k[1]==a)) return a;
        // (x&y)|(x&!y) = x
        if (a->op==OAnd && b->op==OAnd) for (int i=0;i<2;i++) for (int j=0;j<2;j++)
          if (a->k[i]==b->k[j] && (isNotOf(a->k[1-i],b->k[1-j])||isNotOf(b->k[1-j],a->k[1-i]))) return a->k[i];
        // x | (!x & y) = x | y
        for (int s=0;s<2;s++) { Expr *p=s?b:a,*q=s?a:b; if (q->op==OAnd) for (int i=0;i<2;i++) if (isNotOf(q->k[i],p)||isNotOf(p,q->k[i])) return mkBin(OOr,p,q->k[1-i]); }
      }
      break;
    case OXor:
      if (isC(b) && !b->c) return a;
      if (a==b) return mkConst(w,0);
      if (isC(b) && a->op==OXor && isC(a->k[1])) return mkBin(OXor,a->k[0],mkConst(w,a->k[1]->c^b->c));
      if (w==1 && isC(b)) { // not
        if (a->op==OUlt) return mkBin(OUle,a->k[1],a->k[0]);
        if (a->op==OUle) return mkBin(OUlt,a->k[1],a->k[0]);
        if (a->op==OSlt) return mkBin(OSle,a->k[1],a->k[0]);
        if (a->op==OSle) return mkBin(OSlt,a->k[1],a->k[0]);
      }
      break;
    case OShl:
      if (isC(b)) { if (!b->c) return a; if (b->c>=w) return mkConst(w,0); return mkBin(OMul,a,mkConst(w,(u128)1<<(unsigned)b->c)); }
      break;
    case OLShr:
      if (isC(b)) { if (!b->c) return a; if (b->c>=w) return mkConst(w,0); return mkZExt(mkExtract(a,(unsigned)b->c,w-(unsigned)b->c),w); }
      break;
    case OAShr:
      if (isC(b)) { if (!b->c) return a; if (w<=64 && a->hi<=mask64(w)/2) return mkBin(OLShr,a,b); 
        unsigned s=b->c>=w?w-1:(unsigned)b->c; return mkSExt(mkExtract(a,s,w-s),w); }
      break;
    case OEq:
      if (a==b) return mkConst(1,1);
      if (w==1 && isC(b)) return b->c? a : mkNot(a);
      if (w<=64 && (a->hi<b->lo || b->hi<a->lo)) return mkConst(1,0);
      if (isC(b)) {
        if (a->op==OZExt) { if (b->c & ~maskw(a->k[0]->w)) return mkConst(1,0); return mkEq(a->k[0],mkConst(a->k[0]->w,b->c)); }
        if (a->op==OSExt) { u128 t=b->c&maskw(a->k[0]->w); if (((u128)sext(t,a->k[0]->w)&M)!=b->c) return mkConst(1,0); return mkEq(a->k[0],mkConst(a->k[0]->w,t)); }
        if (a->op==OAdd && isC(a->k[1])) return mkEq(a->k[0],mkConst(w,b->c-a->k[1]->c));
        if (a->op==OUDiv && isC(a->k[1]) && !b->c) return mkBin(OUlt,a->k[0],a->k[1]);
        if (a->op==OConcat) return mkAndB(mkEq(a->k[0],mkConst(a->k[0]->w,b->c>>a->k[1]->w)),mkEq(a->k[1],mkConst(a->k[1]->w,b->c)));
        if (a->op==OIte && isC(a->k[1])) { return a->k[1]->c==b->c ? mkOrB(a->k[0],mkEq(a->k[2],b)) : mkAndB(mkNot(a->k[0]),mkEq(a->k[2],b)); }
        if (a->op==OIte && isC(a->k[2])) { return a->k[2]->c==b->c ? mkOrB(mkNot(a->k[0]),mkEq(a->k[1],b)) : mkAndB(a->k[0],mkEq(a->k[1],b)); }
      }
      if (a->op==OZExt && b->op==OZExt && a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
      if (a->op==OSub && isC(b) && !b->c) return mkEq(a->k[0],a->k[1]);
      break;
    case OUlt:
      if (a==b) return mkConst(1,0);
      if (w<=64) { if (a->hi<b->lo) return mkConst(1,1); if (a->lo>=b->hi) return mkConst(1,0); }
      if (a->op==OZExt && b->op==OZExt && a->k[0]->w==b->k[0]->w) return mkBin(OUlt,a->k[0],b->k[0]);
      if (a->op==OZExt && isC(b) && b->c<=maskw(a->k[0]->w)) return mkBin(OUlt,a->k[0],mkConst(a->k[0]->w,b->c));
      if (b->op==OZExt && isC(a) && a->c<=maskw(b->k[0]->w)) return mkBin(OUlt,mkConst(b->k[0]->w,a->c),b->k[0]);
      if (isC(b) && b->c==1) return mkEq(a,mkConst(w,0));
      if (a->op==OUDiv && isC(a->k[1]) && isC(b) && w<=64) { u128 p=a->k[1]->c*b->c; return p>M? mkConst(1,1) : mkBin(OUlt,a->k[0],mkConst(w,p)); }
      if (b->op==OUDiv && isC(b->k[1]) && isC(a) && w<=64) { u128 p=b->k[1]->c*(a->c+1); return p>M? mkConst(1,0) : mkBin(OUle,mkConst(w,p),b->k[0]); }
      if (a->op==OAdd && isC(a->k[1]) && isC(b) && w<=64) { u64 c=(u64)a->k[1]->c; if (a->k[0]->hi<=(u64)M-c && c<=(u64)b->c) return mkBin(OUlt,a->k[0],mkConst(w,b->c-c)); }
      break;
    case OUle:
      if (a==b) return mkConst(1,1);
      if (w<=64) { if (a->hi<=b->lo) return mkConst(1,1); if (a->lo>b->hi) return mkConst(1,0); }
      if (a->op==OZExt && b->op==OZExt && a->k[0]->w==b->k[0]->w) return mkBin(OUle,a->k[0],b->k[0]);
      if (a->op==OZExt && isC(b) && b->c<=maskw(a->k[0]->w)) return mkBin(OUle,a->k[0],mkConst(a->k[0]->w,b->c));
      if (b->op==OZExt && isC(a) && a->c<=maskw(b->k[0]->w)) return mkBin(OUle,mkConst(b->k[0]->w,a->c),b->k[0]);
      if (isC(b) && !b->c) return mkEq(a,b);
      if (a->op==OUDiv && isC(a->k[1]) && isC(b) && w<=64) return mkBin(OUlt,a,mkConst(w,b->c+1));
      if (b->op==OUDiv && isC(b->k[1]) && isC(a) && w<=64) { u128 p=b->k[1]->c*a->c; return p>M? mkConst(1,0) : mkBin(OUle,mkConst(w,p),b->k[0]); }
      break;
    case OSlt: case OSle:
      if (a==b) return mkConst(1,op==OSle);
      if (w<=64) { u64 H=mask64(w)/2; 
        if (a->hi<=H && b->hi<=H) return mkBin(op==OSlt?OUlt:OUle,a,b);
        if (a->lo>H && b->hi<=H) return mkConst(1,1);
        if (a->hi<=H && b->lo>H) return mkConst(1,0); }
      break;
    default: break;
  }
  return cons(op,isCmp(op)?1:w,a,b,0,0,0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c? a:b;
  if (a==b) return a;
  if (c->op==OXor && isC(c->k[1])) return mkIte(c->k[0],b,a);
  if (a->w==1) {
    if (isC(a)) return a->c? mkOrB(c,b) : mkAndB(mkNot(c),b);
    if (isC(b)) return b->c? mkOrB(mkNot(c),a) : mkAndB(c,a);
  }
  if (a->op==OIte && a->k[0]==c) a=a->k[1];
  if (b->op==OIte && b->k[0]==c) b=b->k[2];
  if (a==b) return a;
  // ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
  if (a->op==OIte && a->k[2]==b) return mkIte(mkAndB(c,a->k[0]),a->k[1],b);
  if (b->op==OIte && b->k[1]==a) return mkIte(mkOrB(c,b->k[0]),a,b->k[2]);
  if (a->w>1 && a->w<=64) { // ite(c, B+d, B+d') = B + ite(c,d,d') for constant trees d, d'
    auto split=[](Expr *e, Expr *&B, Expr *&d) { if (e->op==OAdd && e->k[1]->ctree) { B=e->k[0]; d=e->k[1]; } else if (e->op==OAdd && e->k[0]->ctree) { B=e->k[1]; d=e->k[0]; } else { B=e; d=nullptr; } };
    Expr *B1,*d1,*B2,*d2; split(a,B1,d1); split(b,B2,d2);
    if (!isC(B1)&&!B1->ctree&&!B2->ctree) {
      if (d1&&d2&&B1==B2&&d1->ctree+d2->ctree<=16) return mkBin(OAdd,B1,mkIte(c,d1,d2));
      if (d1&&B1==b&&d1->ctree<=15) return mkBin(OAdd,b,mkIte(c,d1,mkConst(a->w,0)));
      if (d2&&B2==a&&d2->ctree<=15) return mkBin(OAdd,a,mkIte(c,mkConst(a->w,0),d2)); } }
  if (a->op==OI2F && b->op==OI2F && a->w==b->w) return mkI2F(mkIte(c,a->k[0],b->k[0]),std::max(a->aux,b->aux),a->w);
  return cons(OIte,a->w,c,a,b,0,0);
}
Expr *mkBar(Expr *e) { if (isC(e)||e->op==OVar||e->op==OBar) return e; return cons(OBar,e->w,e,0,0,0,0); }
Expr *mkI2F(Expr *e, unsigned bits, unsigned w) { return cons(OI2F,w,e,0,0,bits,0); }
Expr *mkExtract(Expr *e, unsigned lo, unsigned w) {
  if (lo==0 && w==e->w) return e;
  switch (e->op) {
    case OConst: return mkConst(w,e->c>>lo);
    case OExtract: return mkExtract(e->k[0],e->aux+lo,w);
    case OConcat: { unsigned lw=e->k[1]->w; if (lo+w<=lw) return mkExtract(e->k[1],lo,w); if (lo>=lw) return mkExtract(e->k[0],lo-lw,w);
        return mkConcat(mkExtract(e->k[0],0,lo+w-lw),mkExtract(e->k[1],lo,lw-lo)); }
    case OZExt: { unsigned kw=e->k[0]->w; if (lo+w<=kw) return mkExtract(e->k[0],lo,w); if (lo>=kw) return mkConst(w,0); return mkZExt(mkExtract(e->k[0],lo,kw-lo),w); }
    case OSExt: { unsigned kw=e->k[0]->w; if (lo+w<=kw) return mkExtract(e->k[0],lo,w); if (lo==0 && w>kw) return mkSExt(e->k[0],w); break; }
    case OIte: if (e->ctree || w==1) return mkIte(e->k[0],mkExtract(e->k[1],lo,w),mkExtract(e->k[2],lo,w));
       { Expr *x=e->k[1],*y=e->k[2]; auto nice=[](Expr*q){return q->op==OConst||q->op==OConcat||q->op==OZExt||q->op==OSExt||q->op==OIte;};
         if (nice(x)&&nice(y)) return mkIte(e->k[0],mkExtract(x,lo,w),mkExtract(y,lo,w)); }
       break;
    case OAdd: case OSub: case OMul: if (lo==0) { Expr *x=e->k[0],*y=e->k[1]; auto nice=[](Expr*q){return q->op==OConst||q->op==OConcat||q->op==OZExt||q->op==OSExt;};
         if ((nice(x)&&nice(y)) || isC(y)) return mkBin(e->op,mkExtract(x,0,w),mkExtract(y,0,w)); } break;
    case OAnd: case OOr: case OXor: { Expr *x=e->k[0],*y=e->k[1]; return mkBin(e->op,mkExtract(x,lo,w),mkExtract(y,lo,w)); }
    default: break;
  }
  return cons(OExtract,w,e,0,0,lo,0);
}
Expr *mkConcat(Expr *h, Expr *l) {
  if (isC(h)&&isC(l)) return mkConst(h->w+l->w,(h->c<<l->w)|l->c);
  if (isC(h)&&!h->c) return mkZExt(l,h->w+l->w);
  if (h->op==OExtract && l->op==OExtract && h->k[0]==l->k[0] && h->aux==l->aux+l->w) return mkExtract(h->k[0],l->aux,h->w+l->w);
  if (l->op==OConcat && h->op==OExtract && l->k[0]->op==OExtract && l->k[0]->k[0]==h->k[0] && h->aux==l->k[0]->aux+l->k[0]->w)
    return mkConcat(mkConcat(h,l->k[0]),l->k[1]);
  if (h->op==OIte && l->op==OIte && h->k[0]==l->k[0]) return mkIte(h->k[0],mkConcat(h->k[1],l->k[1]),mkConcat(h->k[2],l->k[2]));
  return cons(OConcat,h->w+l->w,h,l,0,0,0);
}
Expr *mkZExt(Expr *e, unsigned w) {
  if (e->w==w) return e;
  if (isC(e)) return mkConst(w,e->c);
  if (e->op==OZExt) return mkZExt(e->k[0],w);
  if (e->op==OIte && e->ctree) return mkIte(e->k[0],mkZExt(e->k[1],w),mkZExt(e->k[2],w));
  if (w<=64 && e->op==OExtract && e->aux==0) { Expr *x=e->k[0]; if (x->w<=64 && x->hi<=mask64(e->w)) return x->w<=w? mkZExt(x,w) : mkExtract(x,0,w); }
  if (w<=64 && e->op==OAdd && isC(e->k[1])) { Expr *a=e->k[0]; u64 c=(u64)e->k[1]->c, M=mask64(e->w);
    if (a->hi<=M-c) return mkBin(OAdd,mkZExt(a,w),mkConst(w,c));
    u64 neg=(M-c)+1; if (a->lo>=neg) return mkBin(OAdd,mkZExt(a,w),mkConst(w,(u128)0-neg)); }
  return cons(OZExt,w,e,0,0,0,0);
}
Expr *mkSExt(Expr *e, unsigned w) {
  if (e->w==w) return e;
  if (isC(e)) return mkConst(w,(u128)sext(e->c,e->w));
  if (e->w<=64 && e->hi<=mask64(e->w)/2 && e->w>1) return mkZExt(e,w);
  if (e->op==OSExt) return mkSExt(e->k[0],w);
  if (e->op==OZExt) return mkZExt(e->k[0],w);
  if (e->op==OIte && e->ctree) return mkIte(e->k[0],mkSExt(e->k[1],w),mkSExt(e->k[2],w));
  return cons(OSExt,w,e,0,0,0,0);
}
unsigned trailingZeros(Expr *e) {
  switch (e->op) {
    case OConst: { if (!e->c) return e->w; unsigned s=0; while (!((e->c>>s)&1)) s++; return s; }
    case OMul: return std::min<unsigned>(e->w,trailingZeros(e->k[0])+trailingZeros(e->k[1]));
    case OAdd: case OSub: case OOr: case OXor: return std::min(trailingZeros(e->k[0]),trailingZeros(e->k[1]));
    case OAnd: return std::max(trailingZeros(e->k[0]),trailingZeros(e->k[1]));
    case OZExt: case OSExt: { unsigned t=trailingZeros(e->k[0]); return t==e->k[0]->w? e->w : t; }
    case OIte: return std::min(trailingZeros(e->k[1]),trailingZeros(e->k[2]));
    case OConcat: { unsigned t=trailingZeros(e->k[1]); return t<e->k[1]->w ? t : t+trailingZeros(e->k[0]); }
    default: return 0;
  }
}
u128 evalRec(Expr *e, const Model &m) {
  if (e->op==OConst) return e->c;
  if (e->gen==g_evalgen) return e->ev;
  u128 r=0;
  switch (e->op) {
    case OVar: { auto it=m.find(e->aux); r = it!=m.end()? it->second : g_vars[e->aux].lo; break; }
    case OIte: r = evalRec(e->k[0],m)? evalRec(e->k[1],m) : evalRec(e->k[2],m); break;
    case OConcat: r=(evalRec(e->k[0],m)<<e->k[1]->w)|evalRec(e->k[1],m); break;
    case OExtract: r=(evalRec(e->k[0],m)>>e->aux)&maskw(e->w); break;
    case OZExt: r=evalRec(e->k[0],m); break;
    case OSExt: r=(u128)sext(evalRec(e->k[0],m),e->k[0]->w)&maskw(e->w); break;
    case OBar: r=evalRec(e->k[0],m); break;
    case OI2F: { double d=(double)(i64)(u64)evalRec(e->k[0],m); if (e->w==32) { float f=(float)d; uint32_t b; memcpy(&b,&f,4); r=b; } else { u64 b; memcpy(&b,&d,8); r=b; } break; }
    default: { u128 a=evalRec(e->k[0],m), b=evalRec(e->k[1],m); unsigned w=e->k[0]->w;
      if (!foldBin(e->op,w,a,b,r)) { // division by zero: SMT-LIB semantics
        if (e->op==OUDiv) r=maskw(w); else if (e->op==OURem||e->op==OSRem) r=a; else if (e->op==OSDiv) r= sext(a,w)<0?1:maskw(w); } }
  }
  e->gen=g_evalgen; e->ev=r; return r;
}
u128 evalExpr(Expr *e, const Model &m) { ++g_evalgen; return evalRec(e,m); }
std::string exprStr(Expr *e, int d) {
  static const char *nm[]={"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","cat","ext","zx","sx","i2f"};
  if (e->op==OConst) return std::to_string((u64)e->c);
  if (e->op==OVar) return g_vars[e->aux].name;
  if (d==0) return "...";
  std::string s="("; s+=nm[e->op]; if (e->op==OExtract) s+="@"+std::to_string(e->aux)+":"+std::to_string(e->w);
  for (int i=0;i<3;i++) if (e->k[i]) s+=" "+exprStr(e->k[i],d-1);
  return s+")";
}

// ---------------------------------------------------------------- z3
Solver::Solver() : inc(ctx,"QF_BV") { }
static z3::expr tob(z3::context &c, const z3::expr &e) { return e.is_bool()? z3::ite(e,c.bv_val(1,1),c.bv_val(0,1)) : e; }
z3::expr Solver::conv(Expr *root) {
  std::vector<Expr*> st{root};
  while (!st.empty()) {
    Expr *e=st.back();
    if (e->z3i) { st.pop_back(); continue; }
    bool ready=true;
    for (int i=0;i<3;i++) if (e->k[i] && !e->k[i]->z3i) { st.push_back(e->k[i]); ready=false; }
    if (!ready) continue;
    st.pop_back();
    auto K=[&](int i){ return z3::expr(ctx,(Z3_ast)cache[e->k[i]->z3i-1]); };
    z3::expr r(ctx);
    switch (e->op) {
      case OConst: if (e->w==1) r=ctx.bool_val(e->c!=0); else if (e->w<=64) r=ctx.bv_val((uint64_t)e->c,e->w);
        else r=z3::concat(ctx.bv_val((uint64_t)(e->c>>64),e->w-64),ctx.bv_val((uint64_t)e->c,64)); break;
      case OVar: if (e->w==1) r=ctx.bool_const(("v"+std::to_string(e->aux)).c_str()); else { r=ctx.bv_const(("v"+std::to_string(e->aux)).c_str(),e->w);
          // ranges are encoded by clamping, so no side constraint is ever needed
          if (e->hi<mask64(e->w)) r=z3::ite(z3::ule(r,ctx.bv_val((uint64_t)e->hi,e->w)),r,ctx.bv_val((uint64_t)e->hi,e->w));
          if (e->lo>0) r=z3::ite(z3::uge(r,ctx.bv_val((uint64_t)e->lo,e->w)),r,ctx.bv_val((uint64_t)e->lo,e->w)); } break;
      case OAdd: r= e->w==1? (K(0)!=K(1)) : K(0)+K(1); break;
      case OSub: r= e->w==1? (K(0)!=K(1)) : K(0)-K(1); break;
      case OMul: r= e->w==1? (K(0)&&K(1)) : K(0)*K(1); break;
      case OUDiv: r=z3::udiv(K(0),K(1)); break;
      case OSDiv: r=K(0)/K(1); break;
      case OURem: r=z3::urem(K(0),K(1)); // the range of the remainder is evident from the clamp, which changes nothing
        if (isC(e->k[1]) && e->k[1]->c && e->w<=64) { z3::expr m=ctx.bv_val((uint64_t)e->k[1]->c-1,e->w); r=z3::ite(z3::ule(r,m),r,m); } break;
      case OSRem: r=z3::srem(K(0),K(1)); break;
      case OAnd: r= e->w==1? (K(0)&&K(1)) : (K(0)&K(1)); break;
      case OOr: r= e->w==1? (K(0)||K(1)) : (K(0)|K(1)); break;
      case OXor: if (e->w==1) { if (isC(e->k[1])) r=!K(0); else r=(K(0)!=K(1)); } else r=K(0)^K(1); break;
      case OShl: r=z3::shl(K(0),K(1)); break;
      case OLShr: r=z3::lshr(K(0),K(1)); break;
      case OAShr: r=z3::ashr(K(0),K(1)); break;
      case OEq: r=K(0)==K(1); break;
      case OUlt: r= e->k[0]->w==1 ? (!K(0)&&K(1)) : z3::ult(K(0),K(1)); break;
      case OUle: r= e->k[0]->w==1 ? (!K(0)||K(1)) : z3::ule(K(0),K(1)); break;
      case OSlt: r= e->k[0]->w==1 ? (K(0)&&!K(1)) : z3::slt(K(0),K(1)); break;
      case OSle: r= e->k[0]->w==1 ? (K(0)||!K(1)) : z3::sle(K(0),K(1)); break;
      case OIte: r=z3::ite(K(0),K(1),K(2)); break;
      case OConcat: r=z3::concat(tob(ctx,K(0)),tob(ctx,K(1))); break;
      case OExtract: r=K(0).extract(e->aux+e->w-1,e->aux); if (e->w==1) r=(r==ctx.bv_val(1,1)); break;
      case OZExt: r=z3::zext(tob(ctx,K(0)),e->w-e->k[0]->w); break;
      case OSExt: r=z3::sext(tob(ctx,K(0)),e->w-e->k[0]->w); break;
      case OBar: r=K(0); break;
      case OI2F: throw std::runtime_error("floating point value reached the solver");
    }
    cache.push_back(r); e->z3i=cache.size();
  }
  return z3::expr(ctx,(Z3_ast)cache[root->z3i-1]);
}
static void getModel(z3::context &ctx, z3::model mdl, Model *out) {
  out->clear();
  for (unsigned i=0;i<mdl.num_consts();i++) {
    auto d=mdl.get_const_decl(i); std::string n=d.name().str();
    if (n.size()<2||n[0]!='v'||!isdigit(n[1])) continue;
    z3::expr v=mdl.get_const_interp(d); uint64_t x=0;
    if (v.is_bool()) x=v.is_true(); else if (!v.is_numeral_u64(x)) continue;
    unsigned ix=std::stoul(n.substr(1)); const VarInfo &vi=g_vars[ix];
    if (x>vi.hi) x=vi.hi; if (x<vi.lo) x=vi.lo;
    (*out)[ix]=x;
  }
}
int Solver::check(const std::vector<Expr*> &pc, Expr *cond, Model *out, bool quick) {
  auto t0=std::chrono::steady_clock::now();
  queries++;
  size_t common=0; while (common<stack.size() && common<pc.size() && stack[common]==pc[common]) common++;
  if (stack.size()>common) { inc.pop(stack.size()-common); stack.resize(common); }
  for (size_t i=common;i<pc.size();i++) { inc.push(); inc.add(conv(pc[i])); stack.push_back(pc[i]); }
  inc.set("timeout",inc_timeout_ms);
  inc.push(); if (cond) inc.add(conv(cond));
  z3::check_result r = z3::unknown;
  if (inc_timeout_ms) { try { r=inc.check(); } catch (z3::exception &ex) { r=z3::unknown; } }
  if (r==z3::sat && out) getModel(ctx,inc.get_model(),out);
  inc.pop();
  if (r==z3::unknown && !quick) {
    hard++;
    static int dumpno=0; const char *dd=getenv("HSE_DUMP");
    z3::tactic t = z3::tactic(ctx,"simplify") & z3::tactic(ctx,"propagate-values") & z3::tactic(ctx,"solve-eqs") & z3::tactic(ctx,"bit-blast") & z3::tactic(ctx,"simplify") & z3::tactic(ctx,"sat");
    z3::solver s=t.mk_solver();
    z3::params p(ctx); p.set("timeout",hard_timeout_ms); s.set(p);
    for (auto e:pc) s.add(conv(e)); if (cond) s.add(conv(cond));
    if (dd) { std::ofstream f(std::string(dd)+"/q"+std::to_string(getpid())+"_"+std::to_string(dumpno++)+".smt2"); f<<s.to_smt2(); }
    try { r=s.check(); } catch (z3::exception &ex) { r=z3::unknown; }
    if (r==z3::sat && out) getModel(ctx,s.get_model(),out);
  }
  secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  if (r==z3::sat) { sat++; return 1; }
  if (r==z3::unsat) { unsat++; return 0; }
  if (quick) { queries--; return -1; }
  unknown++; return -1;
}
