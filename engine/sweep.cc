// Proving a hard equality by merging equivalent internal nodes first: nodes that
// agree on random assignments are proved equal one pair at a time, with already
// merged nodes cut to fresh variables where possible.
#include "expr.h"
#include "sweep.h"
#include <map>
#include <set>
#include <random>
#include <chrono>
#include <cstdio>
std::vector<Expr*> g_hints;
static void flat(Expr *e, std::map<uint32_t,std::pair<Expr*,long>> &t, long k, int depth=0) {
  if (e->op==OAdd && depth<100000) { flat(e->k[0],t,k,depth+1); flat(e->k[1],t,k,depth+1); return; }
  auto &p=t[e->id]; p.first=e; p.second+=k;
}
static Expr *cancel(Expr *eq) {
  if (eq->op!=OEq || eq->k[0]->w==1 || eq->k[0]->w>64) return eq;
  std::map<uint32_t,std::pair<Expr*,long>> t; flat(eq->k[0],t,1); flat(eq->k[1],t,-1);
  unsigned w=eq->k[0]->w; Expr *l=mkConst(w,0), *r=l; u64 cst=0;
  for (auto &x:t) { Expr *e=x.second.first; long n=x.second.second; if (!n) continue; if (isC(e)) { cst+=(u64)n*(u64)e->c; continue; }
    Expr *m=mkBin(OMul,e,mkConst(w,(u128)(n<0?-n:n))); if (n>0) l=mkBin(OAdd,l,m); else r=mkBin(OAdd,r,m); }
  return mkEq(mkBin(OAdd,l,mkConst(w,cst)),r);
}
Expr *sweepProve(Solver &S, const std::vector<Expr*> &pc, Expr *cond, const Model *seed, unsigned budget_s, SweepStats &st) {
  auto T0=std::chrono::steady_clock::now(); auto el=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); };
  // cone
  std::set<uint32_t> vars; std::map<uint32_t,Expr*> cone;
  auto collect=[&](Expr *root, bool hint) {
    std::vector<Expr*> stk{root}; std::map<uint32_t,Expr*> mine; bool ok=true;
    while (!stk.empty()) { Expr *e=stk.back(); stk.pop_back(); if (cone.count(e->id)||mine.count(e->id)) continue; if (e->w>64) ok=false; mine[e->id]=e; if (e->op==OVar) { if (hint && !vars.count(e->aux)) { ok=false; break; } if (!hint) vars.insert(e->aux); }
      for (auto k:e->k) if (k) stk.push_back(k); }
    if (!hint || ok) cone.insert(mine.begin(),mine.end());
    return ok; };
  collect(cond,false);
  for (auto p:pc) { std::vector<Expr*> stk{p}; std::set<uint32_t> seen; while (!stk.empty()) { Expr *e=stk.back(); stk.pop_back(); if (!seen.insert(e->id).second) continue; if (e->op==OVar) vars.insert(e->aux); for (auto k:e->k) if (k) stk.push_back(k); } }
  std::set<uint32_t> hints; std::vector<Expr*> hintOrder; for (auto h:g_hints) { if (collect(h,true) && hints.insert(h->id).second) hintOrder.push_back(h); }
  for (auto &x:cone) if (x.second->op==OI2F) return cond;
  // random assignments satisfying the path condition
  std::mt19937_64 rng(12345); std::vector<Model> sims; if (seed) sims.push_back(*seed);
  for (int tries=0; tries<4000 && sims.size()<192; tries++) {
    Model m; if (seed && (tries&1)) m=*seed; int mode=tries%4;
    for (auto v:vars) { if (seed && (tries&1) && rng()%3) continue; auto &vi=g_vars[v]; u64 span=vi.hi-vi.lo; u64 r=rng(); u64 x= span==~0ull? r : vi.lo+r%(span+1); if (mode>=2 && rng()%4==0) x= rng()&1? vi.hi : vi.lo; m[v]=x; }
    ++g_evalgen; bool ok=true; for (auto p:pc) if (!evalRec(p,m)) { ok=false; break; } if (ok) sims.push_back(m);
  }
  if (sims.size()<16) return cond;
  size_t N=sims.size();
  std::vector<Expr*> order; for (auto &x:cone) order.push_back(x.second);
  std::map<uint32_t,size_t> pos; for (size_t i=0;i<order.size();i++) pos[order[i]->id]=i;
  std::vector<u64> val(order.size()*N);
  for (size_t j=0;j<N;j++) { ++g_evalgen; for (size_t i=0;i<order.size();i++) val[i*N+j]=(u64)evalRec(order[i],sims[j]); }
  std::unordered_map<uint32_t,Expr*> rep; // original id -> equal expression
  struct Cls { Expr *orig, *e; bool merged; Expr *cut; };
  std::unordered_map<u64,std::vector<Cls>> classes;
  std::unordered_map<uint32_t,Expr*> cutMemo;
  std::unordered_map<uint32_t,Expr*> cuts; // id of a merged representative -> fresh variable
  auto rebuild=[&](Expr *e)->Expr* {
    auto K=[&](int i)->Expr* { auto it=rep.find(e->k[i]->id); return it==rep.end()? e->k[i] : it->second; };
    switch (e->op) { case OConst: case OVar: case OI2F: return e; case OBar: return mkBar(K(0));
      case OIte: return mkIte(K(0),K(1),K(2)); case OConcat: return mkConcat(K(0),K(1)); case OExtract: return mkExtract(K(0),e->aux,e->w);
      case OZExt: return mkZExt(K(0),e->w); case OSExt: return mkSExt(K(0),e->w); default: { Expr *r=mkBin(e->op,K(0),K(1)); return r->op==OEq? cancel(r) : r; } } };
  std::function<Expr*(Expr*)> cutExpr=[&](Expr *e)->Expr* {
    if (e->op==OConst||e->op==OVar) return e;
    auto ct=cuts.find(e->id); if (ct!=cuts.end()) return ct->second;
    auto it=cutMemo.find(e->id); if (it!=cutMemo.end()) return it->second;
    Expr *k[3]={0,0,0}; for (int i=0;i<3;i++) if (e->k[i]) k[i]=cutExpr(e->k[i]);
    Expr *r; switch (e->op) { case OBar: r=mkBar(k[0]); break; case OIte: r=mkIte(k[0],k[1],k[2]); break; case OConcat: r=mkConcat(k[0],k[1]); break; case OExtract: r=mkExtract(k[0],e->aux,e->w); break;
      case OZExt: r=mkZExt(k[0],e->w); break; case OSExt: r=mkSExt(k[0],e->w); break; default: r=mkBin(e->op,k[0],k[1]); }
    cutMemo[e->id]=r; return r; };
  auto ask=[&](Expr *ne, bool withpc, unsigned ms)->int { st.queries++;
    if (isFalse(ne)) return 0; if (isTrue(ne)) return 1;
    z3::context &c=S.ctx; z3::tactic t=z3::tactic(c,"simplify") & z3::tactic(c,"propagate-values") & z3::tactic(c,"solve-eqs") & z3::tactic(c,"bit-blast") & z3::tactic(c,"sat");
    z3::solver s=t.mk_solver(); z3::params p(c); p.set("timeout",ms); s.set(p); if (withpc) for (auto q:pc) s.add(S.conv(q)); s.add(S.conv(ne));
    z3::check_result r; try { r=s.check(); } catch (z3::exception &) { r=z3::unknown; } return r==z3::sat? 1 : r==z3::unsat? 0 : -1; };
  auto equal=[&](Expr *a, Expr *b)->bool { // a, b rebuilt
    if (a==b) return true;
    auto ne=[&](Expr *x, Expr *y) { return mkNot(mkEq(x,y)); };
    double t0=el(); Expr *x=cutExpr(a), *y=cutExpr(b);
    { auto sup=[&](Expr *z){ std::set<uint32_t> s,cv; std::vector<Expr*> k{z}; while(!k.empty()){Expr*e=k.back();k.pop_back(); if(!s.insert(e->id).second)continue; if(e->op==OVar) cv.insert(e->aux); for(auto c:e->k) if(c)k.push_back(c);} return cv; };
      auto sx=sup(x), sy=sup(y); bool meet=sx.empty()||sy.empty(); for (auto v:sx) if (sy.count(v)) meet=true; if (!meet) { st.failed++; return false; } } // one side is behind a cut the other is in front of
    int r=ask(ne(x,y),false,1500);
    if (getenv("HSE_SWEEPV") && (r||el()-t0>0.2)) { auto cnt=[&](Expr *z){ std::set<uint32_t> s,cv; std::vector<Expr*> k{z}; while(!k.empty()){Expr*e=k.back();k.pop_back(); if(!s.insert(e->id).second)continue; if(e->op==OVar) cv.insert(e->aux); for(auto c:e->k) if(c)k.push_back(c);} std::string r=std::to_string(s.size())+":"; for (auto v:cv) r+=g_vars[v].name.substr(0,12)+","; return r; };
      if (getenv("HSE_SWEEPX") && atoi(getenv("HSE_SWEEPX"))==(int)b->id) fprintf(stderr,"A=%s\nB=%s\nXA=%s\nXB=%s\n",exprStr(a,9).c_str(),exprStr(b,9).c_str(),exprStr(x,9).c_str(),exprStr(y,9).c_str());
      fprintf(stderr,"sweep: %.2fs r=%d w=%d ids %u %u  {%s} {%s}\n",el()-t0,r,a->w,a->id,b->id,cnt(x).c_str(),cnt(y).c_str()); }
    if (r==0) return true;
    if (x!=a||y!=b) { if (el()>budget_s) return false; r=ask(ne(a,b),true,2500); if (r==0) { st.uncut++; return true; } }
    else if (!pc.empty()) { r=ask(ne(a,b),true,1500); if (r==0) return true; }
    st.failed++; return false; };
  // signatures; nodes that look equal to a hint are visited together, in hint order
  std::vector<u64> sig(order.size()); std::vector<char> inverted(order.size()), same(order.size());
  for (size_t i=0;i<order.size();i++) { Expr *e=order[i]; u64 *v=&val[i*N]; bool inv= e->w==1 && v[0]; u64 h=(e->w==1)*0x9E3779B97F4A7C15ull; bool allsame=true; for (size_t j=0;j<N;j++) { u64 x=inv? !v[j] : v[j]; h=(h^x)*0x100000001b3ull; h^=h>>29; if (v[j]!=v[0]) allsame=false; } sig[i]=h; inverted[i]=inv; same[i]=allsame; }
  std::vector<size_t> visit; { std::vector<char> seen(order.size(),0); std::unordered_map<u64,std::vector<size_t>> bySig; for (size_t i=0;i<order.size();i++) if (order[i]->w>1) bySig[sig[i]].push_back(i);
    auto dfs=[&](size_t r) { std::vector<std::pair<size_t,int>> st{{r,0}}; if (seen[r]) return; seen[r]=1; while (!st.empty()) { auto &t=st.back(); if (t.second<3) { Expr *k=order[t.first]->k[t.second++]; if (k) { size_t j=pos[k->id]; if (!seen[j]) { seen[j]=1; st.push_back({j,0}); } } } else { visit.push_back(t.first); st.pop_back(); } } };
    for (auto h:hintOrder) { for (size_t i: bySig[sig[pos[h->id]]]) dfs(i); }
    for (size_t i=0;i<order.size();i++) dfs(i); }
  std::set<u64> hintSig; for (auto h:hintOrder) hintSig.insert(sig[pos[h->id]]);
  for (size_t i: visit) {
    Expr *e=order[i]; if (el()>budget_s) break;
    if (e->op==OVar && e->w>1 && e->w<=64 && !same[i]) { auto &L=classes[sig[i]]; L.insert(L.begin(),{e,e,false,nullptr}); continue; }
    Expr *n=rebuild(e); if (e->w>1 && n->op!=OBar && hintSig.count(sig[i]) && !same[i] && n->op!=OZExt && n->op!=OExtract) n=mkBar(n);
    if (n!=e) rep[e->id]=n;
    if (n->op==OConst||n->op==OVar||n->op==OZExt||n->op==OExtract||e->w>64) continue;
    u64 *v=&val[i*N]; bool inv=inverted[i], allsame=same[i]; u64 h=sig[i];
    if (allsame) { Expr *c=mkConst(e->w,v[0]); if (ask(mkNot(mkEq(cutExpr(n),c)),false,300)==0 || ask(mkNot(mkEq(n,c)),true,500)==0) rep[e->id]=c; continue; }
    auto &L=classes[h]; Expr *nn=inv? mkNot(n) : n; bool done=false; int tried=0;
    for (auto &c:L) { if ((c.e->w==1)!=(nn->w==1)) continue; Expr *ce= c.e->w==nn->w? c.e : c.e->w<nn->w? mkZExt(c.e,nn->w) : mkExtract(c.e,0,nn->w); if (ce==nn) { done=true; break; }
      if (++tried>3) break;
      if (equal(ce,nn)) { st.merged++; rep[e->id]= inv? mkNot(ce) : ce; done=true;
        if (!inv && e->w>1 && (hints.empty() || hintSig.count(h)) && c.e->op!=OVar && c.e->op!=OConst) {
          auto ci=cuts.find(c.e->id); Expr *cv= ci!=cuts.end()? ci->second : mkVar("$cut"+std::to_string(c.e->id),c.e->w,c.e->lo,c.e->hi);
          auto reg=[&](Expr *z) { for (;;) { if (z->op==OVar||z->op==OConst) break; if (!cuts.count(z->id)) cuts[z->id]= z->w==cv->w? cv : z->w>cv->w? mkZExt(cv,z->w) : mkExtract(cv,0,z->w); if (z->op!=OBar) break; z=z->k[0]; } };
          reg(c.e); reg(c.orig); reg(nn); reg(e); cutMemo.clear(); }
        break; } }
    if (getenv("HSE_SWEEPV") && hints.count(e->id)) fprintf(stderr,"hint %u w=%d lo=%llu hi=%llu class %zu done=%d n->%u\n",e->id,e->w,(unsigned long long)e->lo,(unsigned long long)e->hi,L.size(),done,n->id);
    if (!done && L.size()<8) L.insert(L.begin(),{e,nn,false,nullptr});
  }
  auto it=rep.find(cond->id); Expr *res= it==rep.end()? cond : it->second;
  st.secs+=el();
  return res;
}
