// hse: symbolic executor for LLVM IR.  Inputs, schedules and fault points are solver variables; every branch,
// memory access and assertion that depends on them is decided by z3.
#include "hse.h"
#include "sweep.h"
#include <chrono>
#include <cmath>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
#include <functional>
using namespace llvm;
using std::string; using std::vector;

const DataLayout *g_DL; std::map<const Function*,Func*> g_funcs; std::map<const Instruction*,string> g_unsupMsg; u64 g_objBytes=0;
static std::unique_ptr<Module> M; static LLVMContext Ctx;
static std::unordered_map<const GlobalValue*,u64> gaddr; static std::unordered_map<u64,Func*> funcAt; static std::map<u64,const GlobalVariable*> gvarAt;
static u64 g_nextId=16;
static const int ASH=24;
u64 addrOfGlobal(const GlobalValue *G) {
  if (auto *A=dyn_cast<GlobalAlias>(G)) return addrOfGlobal(cast<GlobalValue>(A->getAliaseeObject()));
  auto it=gaddr.find(G); if (it!=gaddr.end()) return it->second;
  if (auto *F=dyn_cast<Function>(G)) { u64 a=(g_nextId++)<<ASH; Func *f=getFunc(const_cast<Function*>(F)); f->addr=a; funcAt[a]=f; return gaddr[G]=a; }
  return gaddr[G]=(g_nextId++)<<ASH;
}
// ------------------------------------------------------------------ state
struct ModelBox { Model m; uint32_t gen; };
typedef std::shared_ptr<ModelBox> MB;
static uint32_t g_gens=0;
static MB newModel(Model m) { auto p=std::make_shared<ModelBox>(); p->m=std::move(m); p->gen=++g_gens; return p; }
struct Frame { Func *f; int ip, base, dst, retN; uint32_t alloca0; };
enum TSt : uint8_t { T_Run, T_Mutex, T_Cond, T_Join, T_Sleep, T_Done };
static const char *tstName[]={"running","waiting for a mutex","waiting on a condition variable","joining","sleeping","done"};
struct Thread { vector<V> regs; vector<Frame> frames; vector<uint32_t> allocas; TSt st=T_Run; u64 on=0, mtx=0; bool sched=false; uint32_t vc[8]={0}; vector<u64> caught; u64 exc=0; u64 excTi=0; int rank=0; };
struct Obs { string name; Expr *e; string s; };
struct Mutex { int owner=-1; uint32_t vc[8]={0}; };
struct Group { Group *parent; int depth; Func *f; int ip; int outstanding; vector<struct State*> parked; };
struct State {
  Mem mem; vector<Thread> th; int cur=0; vector<Expr*> pc; MB model; std::map<string,int> occ; vector<std::pair<string,Expr*>> inputs; vector<Obs> obs;
  u64 steps=0; vector<Group*> groups; bool merge=false, allowTerm=false; std::map<u64,Mutex> mtx; int delays=0, spurious=0; int npoints=0; int idle=0, idler=-1; bool mt=false; u64 stepLimit=0;
  int rank=0; struct Region { u64 base,n; vector<u64> shadow; }; vector<Region> regions; struct Snap { std::shared_ptr<Mem> mem; size_t depth; }; vector<Snap> snaps; vector<std::pair<int,int>> schedTrace; std::map<u64,std::array<uint32_t,8>> atomVC; u64 id=0;
};
static vector<State*> work; static Solver *S;
struct Viol { string kind,msg,loc,stack; vector<std::pair<string,u64>> inputs; vector<std::pair<int,int>> sched; };
static vector<Viol> viols; static std::set<string> violKeys; static vector<string> incomplete; static std::set<string> incKeys;
struct Test { vector<std::pair<string,u64>> inputs; vector<std::pair<string,string>> obs; vector<std::pair<int,int>> sched; string end; };
static vector<Test> tests; static u64 nPaths=0,nSteps=0,nForks=0,nMerges=0,nAsserts=0,nStates=1,nSchedPts=0; static std::map<string,u64> reach; static std::map<string,u64> assertIds; static std::map<string,u64> params; static std::map<string,u64> termEvents;
static u64 optMaxViol=8, optTests=24, optSteps=400000000ull, optTime=100000, optMaxStates=100000000; static bool stopAll=false; static double t_start; static bool optTrace=false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static u64 g_sid=0;
static void note(const string &m) { if (incKeys.insert(m).second) incomplete.push_back(m); }
static u64 evalS(State *s, Expr *e) { g_evalgen=s->model->gen; return (u64)evalRec(e,s->model->m); }
static u64 evalV(State *s, const V &v) { return v.e? evalS(s,v.e):v.c; }

static string locOf(const Instruction *I) {
  if (!I) return "?"; const DILocation *L=I->getDebugLoc().get(); if (!L) return I->getFunction()->getName().str();
  return (L->getFilename()+":"+Twine(L->getLine())).str();
}
static string stackOf(State *s) {
  string r; Thread &t=s->th[s->cur];
  for (int i=(int)t.frames.size()-1;i>=0;i--) { Frame &f=t.frames[i]; const Instruction *I=f.f->code[std::min<size_t>(f.ip,f.f->code.size()-1)].I;
    const DILocation *L=I->getDebugLoc().get(); if (!L) { r+=f.f->name+" < "; continue; }
    for (;L;L=L->getInlinedAt()) { r+=L->getScope()->getSubprogram()->getName().str()+"("+L->getFilename().str().substr(L->getFilename().str().rfind('/')+1)+":"+std::to_string(L->getLine())+") < "; } }
  return r;
}
static string repoLoc(State *s) { // innermost location inside the program under test
  Thread &t=s->th[s->cur];
  for (int i=(int)t.frames.size()-1;i>=0;i--) { Frame &f=t.frames[i]; const DILocation *L=f.f->code[std::min<size_t>(f.ip,f.f->code.size()-1)].I->getDebugLoc().get();
    for (;L;L=L->getInlinedAt()) if (L->getFilename().starts_with("/repo/")) return (L->getFilename()+":"+Twine(L->getLine())).str(); }
  if (t.frames.empty()) return "?"; Frame &f=t.frames.back(); return locOf(f.f->code[std::min<size_t>(f.ip,f.f->code.size()-1)].I);
}
static vector<std::pair<string,u64>> concreteInputs(State *s, const MB &m) { vector<std::pair<string,u64>> r; g_evalgen=m->gen; for (auto &p:s->inputs) r.push_back({p.first,(u64)evalRec(p.second,m->m)}); return r; }
static void violation(State *s, const string &kind, const string &msg, MB m=nullptr) {
  if (!m) m=s->model;
  string loc=repoLoc(s); string key=kind+"|"+msg+"|"+loc; if (!violKeys.insert(key).second) return;
  viols.push_back({kind,msg,loc,stackOf(s),concreteInputs(s,m),s->schedTrace});
  if (optTrace) fprintf(stderr,"VIOLATION %s %s at %s\n   %s\n",kind.c_str(),msg.c_str(),loc.c_str(),viols.back().stack.c_str());
  if (viols.size()>=optMaxViol) stopAll=true;
}
// ------------------------------------------------------------------ merge groups
static void completeGroup(Group *g);
static void leaveGroups(State *s, size_t downTo=0) { while (s->groups.size()>downTo) { Group *g=s->groups.back(); s->groups.pop_back(); g->outstanding--; if (g->outstanding==(int)g->parked.size()) completeGroup(g); } }
static void killState(State *s) { leaveGroups(s); delete s; }
static void endPath(State *s, const string &why) {
  nPaths++;
  if (tests.size()<optTests || (nPaths%97)==0) {
    Test t; t.inputs=concreteInputs(s,s->model); t.sched=s->schedTrace; t.end=why;
    for (auto &o:s->obs) t.obs.push_back({o.name,o.e? std::to_string(evalS(s,o.e)) : o.s});
    if (tests.size()<optTests) tests.push_back(t); else tests[(nPaths/97)%tests.size()]=t;
  }
  killState(s);
}
static bool g_forkprof=getenv("HSE_FORKS"); static std::map<string,int> forkSites;
static void printForks() { vector<std::pair<int,string>> v; for (auto &x:forkSites) v.push_back({x.second,x.first}); std::sort(v.rbegin(),v.rend()); for (size_t i=0;i<v.size()&&i<30;i++) fprintf(stderr,"forks %d %s\n",v[i].first,v[i].second.c_str()); }
static State *cloneState(State *s) { State *n=new State(*s); n->id=++g_sid; nStates++; nForks++; if (g_forkprof) forkSites[stackOf(s).substr(0,300)]++; for (auto g:n->groups) g->outstanding++; return n; }
// ------------------------------------------------------------------ solving
static int known(State *s, Expr *c, Expr *nc) { int n=0; for (int i=(int)s->pc.size()-1;i>=0&&n<200;i--,n++) { if (s->pc[i]==c) return 1; if (s->pc[i]==nc) return 0; } return -1; }
static SweepStats g_sweep; static unsigned g_sweepBudget=300;
static int satAssert(State *s, Expr *nc, MB *out) {
  Model m; int r=S->check(s->pc,nc,&m,true); if (r==1&&out) *out=newModel(m); if (r>=0) return r;
  if (g_sweepBudget) { g_sweep.calls++; Expr *c=sweepProve(*S,s->pc,mkNot(nc),&s->model->m,g_sweepBudget,g_sweep); if (isTrue(c)) { g_sweep.proved++; return 0; } nc=mkNot(c); }
  r=S->check(s->pc,nc,&m); if (r==1&&out) *out=newModel(m); if (r<0) note("solver gave no answer within its limit at "+repoLoc(s)); return r; }
static int sat(State *s, Expr *c, MB *out) { Model m; double t0=S->secs; int r=S->check(s->pc,c,&m); if (S->secs-t0>0.5 && getenv("HSE_SLOW")) fprintf(stderr,"[slow] %.1fs r=%d at %s\n",S->secs-t0,r,repoLoc(s).c_str()); if (r==1&&out) *out=newModel(m); if (r<0) note("solver gave no answer within its limit at "+repoLoc(s)); return r; }
// Continue with one side of c; the other side, if feasible, becomes *other (same instruction pointer).
static bool split(State *s, Expr *c, State **other) {
  if (other) *other=nullptr;
  if (isC(c)) return c->c!=0;
  Expr *nc=mkNot(c); if (isC(nc)) return !nc->c;
  int k=known(s,c,nc); if (k>=0) return k;
  bool v=evalS(s,c)!=0; Expr *mine=v?c:nc, *oth=v?nc:c; MB m;
  int r=sat(s,oth,&m);
  if (r==1) { State *o=cloneState(s); o->pc.push_back(oth); o->model=m; s->pc.push_back(mine); if (other) *other=o; else work.push_back(o); }
  return v;
}
static void addPC(State *s, Expr *c) { if (isTrue(c)) return; s->pc.push_back(c); }
// make a value concrete: forks one state per feasible value (the others re-execute the instruction)
static u64 concretize(State *s, V v, State **again) {
  if (!v.e) return v.c; Expr *e=v.e; u64 m=evalS(s,e); Expr *c=mkEq(e,mkConst(e->w,m));
  if (isTrue(c)) return m; Expr *nc=mkNot(c); if (known(s,c,nc)==1) return m;
  MB md; int r=sat(s,nc,&md);
  if (r==1) { State *o=cloneState(s); o->pc.push_back(nc); o->model=md; work.push_back(o); s->pc.push_back(c); }
  return m;
}
// ------------------------------------------------------------------ memory access
struct DeadEx {};      // state must end (violation already recorded)
struct RestartEx {};   // instruction must be re-executed later
static Obj *objFor(State *s, u64 id) { return s->mem.get(id); }
static u64 allocObj(State *s, u64 size, ObjKind k, bool zero, uint8_t how=0) {
  if (size>= (1u<<ASH)) { violation(s,"huge-allocation","allocation of "+std::to_string(size)+" bytes"); throw DeadEx(); }
  u64 id=g_nextId++; Obj *o=newObj(size,k); o->how=how; memset(o->data,zero?0:0xCB,size); s->mem.put(id,o); return id<<ASH;
}
static void memErr(State *s, u64 a, u64 n, bool wr, MB m=nullptr) {
  u64 id=a>>ASH; Obj *o=objFor(s,id); string what;
  if (id==0) what="null pointer access"; else if (!o) what="access through an invalid pointer"; else if (o->kind==K_Func) what="access to code"; else if (o->freed) what= o->kind==K_Stack? "use of a dead stack object":"use after free"; else what="out-of-bounds access";
  violation(s,"memory",what+(wr?" (write)":" (read)"),m); 
}
static void race(State *s, Obj *o, u64 off, u64 n, bool wr, u64 addr) {
  if (o->kind==K_Const || o->kind==K_Func) return;
  Thread &t=s->th[s->cur]; int me=s->cur; if (me>=6) return;
  if (!o->acc) { size_t k=(o->size+3)/4; o->acc=(Acc*)calloc(k?k:1,sizeof(Acc)); for (size_t i=0;i<k;i++) o->acc[i].wt=255; }
  for (u64 i=off/4;i<=(off+n-1)/4;i++) { Acc &a=o->acc[i];
    bool bad = a.wt!=255 && a.wt!=me && a.wc>t.vc[a.wt];
    if (wr) for (int j=0;j<6;j++) if (j!=me && a.rc[j]>t.vc[j]) bad=true;
    if (bad) { violation(s,"race",wr?"data race (write)":"data race (read)"); return; }
    if (wr) { a.wt=me; a.wc=t.vc[me]; } else a.rc[me]=t.vc[me]; }
}
static V readObj(Obj *o, u64 off, unsigned w) {
  unsigned n=(w+7)/8; bool symb=false; if (o->sym) for (unsigned i=0;i<n;i++) if (o->sym[off+i].e) { symb=true; break; }
  if (!symb) { if (w<=64) { u64 v=0; memcpy(&v,o->data+off,n); return vc(v&mask64(w)); } u128 v=0; memcpy(&v,o->data+off,n); return V{mkConst(w,v),0}; }
  Sym *y=o->sym+off; Expr *e=y[0].e; bool whole=e && y[0].idx==0 && e->w==8*n; for (unsigned i=1;whole&&i<n;i++) if (y[i].e!=e||y[i].idx!=i) whole=false;
  Expr *r;
  if (whole) r=e; else { r=nullptr; unsigned i=0; while (i<n) { Expr *p; unsigned j=i+1;
      if (y[i].e) { while (j<n && y[j].e==y[i].e && y[j].idx==y[i].idx+(j-i)) j++; p=mkExtract(y[i].e,8*y[i].idx,8*(j-i)); } else { while (j<n && !y[j].e) j++; u128 v=0; memcpy(&v,o->data+off+i,j-i); p=mkConst(8*(j-i),v); }
      r=r?mkConcat(p,r):p; i=j; } }
  if (8*n!=w) r=mkExtract(r,0,w);
  if (w<=64 && isC(r)) return vc((u64)r->c); return V{r,0};
}
static void writeObj(Obj *o, u64 off, unsigned w, V v) {
  unsigned n=(w+7)/8;
  if (!v.e || isC(v.e)) { u128 c=v.e? v.e->c : v.c&mask64(w); memcpy(o->data+off,&c,n); if (o->sym) for (unsigned i=0;i<n;i++) o->sym[off+i].e=nullptr; return; }
  Expr *e=v.e; if (e->w!=8*n) e=mkZExt(e,8*n);
  if (!o->sym) { o->sym=(Sym*)calloc(o->size?o->size:1,sizeof(Sym)); }
  for (unsigned i=0;i<n;i++) { o->sym[off+i].e=e; o->sym[off+i].idx=i; }
}
struct Cand { Expr *g; u64 base; Obj *o; Expr *off; }; // guard (null=true)
static void leafPtrs(Expr *e, Expr *g, vector<std::pair<Expr*,Expr*>> &out) {
  if (e->op==OIte && out.size()<128) { leafPtrs(e->k[1],g?mkAndB(g,e->k[0]):e->k[0],out); leafPtrs(e->k[2],g?mkAndB(g,mkNot(e->k[0])):mkNot(e->k[0]),out); return; }
  if (e->op==OAdd && !isC(e)) { // push the other addend into ite pointers
    for (int i=0;i<2;i++) { Expr *p=e->k[i],*q=e->k[1-i]; if (p->op==OIte && p->hi>=(1ull<<ASH) && p->ctree) { vector<std::pair<Expr*,Expr*>> l; leafPtrs(p,g,l); for (auto &x:l) { out.push_back({x.first,mkBin(OAdd,x.second,q)}); } return; }
      if (p->op==OIte && p->hi>=(1ull<<ASH) && isC(q)) { vector<std::pair<Expr*,Expr*>> l; leafPtrs(p,g,l); for (auto &x:l) out.push_back({x.first,mkBin(OAdd,x.second,q)}); return; } } }
  out.push_back({g,e});
}
// Resolve a symbolic address.  Every feasible value must lie inside one live object, otherwise it is a memory error.
static vector<Cand> resolve(State *s, Expr *a, u64 n, bool wr) {
  vector<std::pair<Expr*,Expr*>> leaves; if ((a->lo>>ASH)==(a->hi>>ASH) && a->lo>=(1ull<<ASH)) leaves.push_back({nullptr,a}); else leafPtrs(a,nullptr,leaves);
  // merge identical leaves
  vector<std::pair<Expr*,Expr*>> L; for (auto &l:leaves) { if (l.first && isFalse(l.first)) continue; bool f=false; for (auto &m:L) if (m.second==l.second) { m.first = (m.first&&l.first)? mkOrB(m.first,l.first):nullptr; f=true; break; } if (!f) L.push_back(l); }
  vector<Cand> out; bool single=L.size()==1;
  for (auto &l:L) {
    MB m=s->model; Expr *g=single?nullptr:l.first;
    if (g) { if (!evalS(s,g)) { MB mm; int r=sat(s,g,&mm); if (r!=1) continue; m=mm; } }
    g_evalgen=m->gen; u64 av=(u64)evalRec(l.second,m->m); u64 base=(av>>ASH)<<ASH; Obj *o=objFor(s,av>>ASH); u64 off=av-base;
    if (!o||o->freed||o->kind==K_Func||off+n>o->size||(wr&&o->kind==K_Const)) { memErr(s,av,n,wr,m); 
      // exclude this failure and go on if possible
      throw DeadEx(); }
    Expr *oe=mkBin(OSub,l.second,mkConst(64,base));
    if (!(oe->hi<=o->size-n)) {
      Expr *bad=mkBin(OUlt,mkConst(64,o->size-n),oe); Expr *q=g?mkAndB(g,bad):bad; 
      // pointers that the model sends to another object
      MB mb; int r=sat(s,q,&mb);
      if (r==1) { // is it another live object in bounds?  then split the state on it
        g_evalgen=mb->gen; u64 av2=(u64)evalRec(l.second,mb->m); Obj *o2=objFor(s,av2>>ASH); u64 off2=av2&((1ull<<ASH)-1);
        if (!o2||o2->freed||o2->kind==K_Func||off2+n>o2->size) { memErr(s,av2,n,wr,mb); Expr *nb=mkNot(q); MB m3; if (sat(s,nb,&m3)!=1) throw DeadEx(); s->pc.push_back(nb); s->model=m3; return resolve(s,a,n,wr); }
        State *ot=cloneState(s); ot->pc.push_back(q); ot->model=mb; work.push_back(ot); Expr *nb=mkNot(q); s->pc.push_back(nb); if (!evalS(s,nb)) { MB m3; if (sat(s,mkConst(1,1),&m3)!=1) throw DeadEx(); s->model=m3; }
        return resolve(s,a,n,wr);
      }
    }
    out.push_back({g,base,o,oe});
  }
  if (out.empty()) throw DeadEx();
  return out;
}
static void offRange(State *s, Cand &c, u64 n, u64 &lo, u64 &hi, u64 &st) {
  Expr *x=c.off; u64 k=0; if (x->op==OAdd && isC(x->k[1])) { k=(u64)x->k[1]->c; x=x->k[0]; }
  unsigned tz=trailingZeros(x); st= tz>=20? (1u<<20): (1u<<tz); 
  lo=c.off->lo; hi=std::min<u64>(c.off->hi,c.o->size-n); u64 res=k%st; if (lo%st!=res) lo+= (res+st-lo%st)%st; if (hi%st!=res) hi-=(hi%st+st-res)%st;
}
static Expr *mux(vector<Expr*> &v, size_t lo, size_t n, vector<Expr*> &bits, int b) { // n = power of two window
  if (lo>=v.size()) return nullptr; if (n==1) return v[lo];
  Expr *l=mux(v,lo,n/2,bits,b-1), *h=mux(v,lo+n/2,n/2,bits,b-1); if (!h) return l; return mkIte(bits[b],h,l);
}
static V loadSym(State *s, Expr *a, unsigned w) {
  unsigned n=(w+7)/8; auto cs=resolve(s,a,n,false); Expr *res=nullptr;
  for (int ci=(int)cs.size()-1;ci>=0;ci--) { Cand &c=cs[ci]; Expr *val; 
    if (isC(c.off)) val=toE(readObj(c.o,(u64)c.off->c,w),w);
    else { u64 lo,hi,st; offRange(s,c,n,lo,hi,st); if ((hi-lo)/st>70000) throw Unsup("symbolic read range too large");
      vector<Expr*> vals; for (u64 k=lo;;k+=st) { vals.push_back(toE(readObj(c.o,k,w),w)); if (k+st>hi) break; }
      if (vals.size()==1) val=vals[0]; else {
      Expr *ix=mkBin(OLShr,mkBin(OSub,c.off,mkConst(64,lo)),mkConst(64,__builtin_ctzll(st))); unsigned nb=1; while ((1ull<<nb)<vals.size()) nb++;
      vector<Expr*> bits; for (unsigned i=0;i<nb;i++) bits.push_back(mkExtract(ix,i,1)); val=mux(vals,0,1ull<<nb,bits,nb-1); } }
    res = (!res)? val : (c.g? mkIte(c.g,val,res):val); }
  return w<=64? ve(res) : V{res,0};
}
static void storeSym(State *s, Expr *a, unsigned w, V v) {
  unsigned n=(w+7)/8; auto cs=resolve(s,a,n,true); Expr *ev=toE(v,w);
  for (auto &c:cs) { Obj *o=s->mem.getW(c.base>>ASH); 
    if (isC(c.off)) { u64 k=(u64)c.off->c; Expr *old=toE(readObj(o,k,w),w); writeObj(o,k,w,ve(c.g?mkIte(c.g,ev,old):ev)); continue; }
    u64 lo,hi,st; offRange(s,c,n,lo,hi,st); if ((hi-lo)/st>70000) throw Unsup("symbolic write range too large");
    for (u64 k=lo;;k+=st) { Expr *g=mkEq(c.off,mkConst(64,k)); if (c.g) g=mkAndB(c.g,g); if (!isFalse(g)) { Expr *old=toE(readObj(o,k,w),w); Expr *nv=mkIte(g,ev,old); writeObj(o,k,w, w<=64?ve(nv):V{nv,0}); } if (k+st>hi) break; } }
}
static V load(State *s, V a, unsigned w, bool atomic=false) {
  if (a.e) return loadSym(s,a.e,w);
  unsigned n=(w+7)/8; u64 off=a.c&((1ull<<ASH)-1); Obj *o=objFor(s,a.c>>ASH);
  if (!o||o->freed||off+n>o->size||o->kind==K_Func) { memErr(s,a.c,n,false); throw DeadEx(); }
  if (s->mt && !atomic) { if (o->rc>1||true) { Obj *ow=s->mem.getW(a.c>>ASH); race(s,ow,off,n,false,a.c); o=ow; } }
  return readObj(o,off,w);
}
static void store(State *s, V a, unsigned w, V v, bool atomic=false) {
  if (a.e) { storeSym(s,a.e,w,v); return; }
  unsigned n=(w+7)/8; u64 off=a.c&((1ull<<ASH)-1); Obj *o=s->mem.getW(a.c>>ASH);
  if (!o||o->freed||off+n>o->size||o->kind==K_Func||o->kind==K_Const) { memErr(s,a.c,n,true); throw DeadEx(); }
  if (s->mt && !atomic) race(s,o,off,n,true,a.c);
  writeObj(o,off,w,v);
}
static string cstr(State *s, V p) { string r; u64 a=p.c; if (p.e) throw Unsup("symbolic string pointer"); for (int i=0;i<4096;i++) { V v=load(s,vc(a+i),8,true); u64 c=evalV(s,v); if (!c) break; r+=(char)c; } return r; }
static void rangeCheck(State *s, u64 a, u64 n, bool wr) { if (!n) return; Obj *o=objFor(s,a>>ASH); u64 off=a&((1ull<<ASH)-1); if (!o||o->freed||off+n>o->size||o->kind==K_Func||(wr&&o->kind==K_Const)) { memErr(s,a,n,wr); throw DeadEx(); } }
static void copyMem(State *s, u64 d, u64 src, u64 n) {
  if (!n) return; rangeCheck(s,src,n,false); rangeCheck(s,d,n,true); if (d==src) return; Obj *od=s->mem.getW(d>>ASH); u64 so=src&((1ull<<ASH)-1), dof=d&((1ull<<ASH)-1);
  if (s->mt) { Obj *ow=s->mem.getW(src>>ASH); race(s,ow,so,n,false,src); od=s->mem.getW(d>>ASH); race(s,od,dof,n,true,d); }
  Obj *os=objFor(s,src>>ASH);
  memmove(od->data+dof,os->data+so,n);
  if (os->sym) { if (!od->sym) od->sym=(Sym*)calloc(od->size,sizeof(Sym)); memmove(od->sym+dof,os->sym+so,n*sizeof(Sym)); } else if (od->sym) memset(od->sym+dof,0,n*sizeof(Sym));
}
static void freeObj(State *s, V p, const char *what) {
  if (p.e) throw Unsup("free of a symbolic pointer");
  if (!p.c) return; Obj *o=objFor(s,p.c>>ASH); 
  if (!o||(p.c&((1ull<<ASH)-1))||o->kind!=K_Heap) { violation(s,"memory",string("invalid ")+what); throw DeadEx(); }
  if (o->freed) { violation(s,"memory",string("double free")); throw DeadEx(); }
  if (s->mt) { Obj *ow=s->mem.getW(p.c>>ASH); race(s,ow,0,ow->size?ow->size:1,true,p.c); }
  Obj *n=newObj(0,K_Heap); n->freed=true; s->mem.put(p.c>>ASH,n);
}
// ------------------------------------------------------------------ merging
static bool mergeObj(State *a, State *b, Expr *c, u64 id, Obj *x, Obj *y, Mem &outMem) {
  if (x->size!=y->size||x->freed!=y->freed) return false;
  Obj *o=cloneObj(x);
  for (u64 i=0;i<x->size;) {
    auto differs=[&](u64 j){ bool sx=x->sym&&x->sym[j].e, sy=y->sym&&y->sym[j].e; if (sx!=sy) return true; if (sx) return x->sym[j].e!=y->sym[j].e||x->sym[j].idx!=y->sym[j].idx; return x->data[j]!=y->data[j]; };
    if (!differs(i)) { i++; continue; }
    unsigned g=1; // choose granularity
    auto fits=[&](u64 st, unsigned n){ if (st%n||st+n>x->size) return false; for (Obj *q:{x,y}) { bool any=false; for (unsigned k=0;k<n;k++) if (q->sym&&q->sym[st+k].e) any=true; if (!any) continue; Expr *e=q->sym[st].e; if (!e||e->w!=8*n||q->sym[st].idx!=0) return false; for (unsigned k=1;k<n;k++) if (q->sym[st+k].e!=e||q->sym[st+k].idx!=k) return false; } return true; };
    u64 st=i; bool sized=false;
    auto hasW=[&](u64 p, unsigned n){ for (Obj *q:{x,y}) if (q->sym&&q->sym[p].e&&q->sym[p].e->w==8*n&&q->sym[p].idx==0) return true; return false; };
    if (fits(i&~7ull,8) && hasW(i&~7ull,8)) { st=i&~7ull; g=8; sized=true; }
    else if (fits(i&~3ull,4) && hasW(i&~3ull,4)) { st=i&~3ull; g=4; sized=true; }
    else if (fits(i&~7ull,8)) { u64 p=i&~7ull; bool hi=false; for (int k=4;k<8;k++) if (differs(p+k)) hi=true; bool lo4=false; for (int k=0;k<4;k++) if (differs(p+k)) lo4=true;
        if (hi&&lo4) { u64 vx,vy; memcpy(&vx,x->data+p,8); memcpy(&vy,y->data+p,8); if ((vx>>ASH)&&(vy>>ASH)&&(vx>>56)==0&&(vy>>56)==0 && x->sym==nullptr) { st=p; g=8; sized=true; } else { st=p; g=8; sized=true; } }
        else { st=i&~3ull; g=4; sized=true; } }
    else if (fits(i&~3ull,4)) { st=i&~3ull; g=4; sized=true; }
    (void)sized;
    V vx=readObj(x,st,8*g), vy=readObj(y,st,8*g); Expr *m=mkIte(c,toE(vx,8*g),toE(vy,8*g)); writeObj(o,st,8*g,ve(m)); i=st+g;
  }
  outMem.put(id,o); return true;
}
static bool mergeNodes(State *a, State *b, Expr *c, RNode *x, RNode *y, int lev, u64 pfx, Mem &out) {
  if (x==y) return true;
  for (int i=0;i<(1<<RB);i++) { void *p=x?x->k[i]:nullptr,*q=y?y->k[i]:nullptr; if (p==q) continue; u64 id=(pfx<<RB)|i;
    if (lev==RLEV-1) { if (!p) { ((Obj*)q)->rc++; out.put(id,(Obj*)q); } else if (!q) continue; else if (!mergeObj(a,b,c,id,(Obj*)p,(Obj*)q,out)) return false; }
    else if (!mergeNodes(a,b,c,(RNode*)p,(RNode*)q,lev+1,id,out)) return false; }
  return true;
}
static bool tryMerge(State *a, State *b) { // result in a
  if (a->th.size()!=1||b->th.size()!=1) return false; Thread &x=a->th[0],&y=b->th[0];
  if (x.frames.size()!=y.frames.size()||x.regs.size()!=y.regs.size()||x.allocas.size()!=y.allocas.size()||a->obs.size()!=b->obs.size()||a->snaps.size()!=b->snaps.size()||a->allowTerm!=b->allowTerm||a->merge!=b->merge) return false;
  if (a->occ!=b->occ) return false;
  for (size_t i=0;i<x.frames.size();i++) if (x.frames[i].f!=y.frames[i].f||x.frames[i].ip!=y.frames[i].ip||x.frames[i].alloca0!=y.frames[i].alloca0) return false;
  if (x.allocas!=y.allocas) { for (size_t i=0;i<x.allocas.size();i++) if (x.allocas[i]!=y.allocas[i]) return false; }
  if (a->inputs.size()!=b->inputs.size()) return false;
  size_t p=0; while (p<a->pc.size()&&p<b->pc.size()&&a->pc[p]==b->pc[p]) p++;
  Expr *sa=mkConst(1,1),*sb=mkConst(1,1); for (size_t i=p;i<a->pc.size();i++) sa=mkAndB(sa,a->pc[i]); for (size_t i=p;i<b->pc.size();i++) sb=mkAndB(sb,b->pc[i]);
  Expr *c=sa; if (p<a->pc.size()&&p<b->pc.size()&&mkNot(a->pc[p])==b->pc[p]) c=a->pc[p];
  Mem out(a->mem); if (!mergeNodes(a,b,c,a->mem.root,b->mem.root,0,0,out)) return false;
  for (size_t i=0;i<a->obs.size();i++) { if (a->obs[i].name!=b->obs[i].name||a->obs[i].s!=b->obs[i].s||(!a->obs[i].e)!=(!b->obs[i].e)||(a->obs[i].e&&a->obs[i].e->w!=b->obs[i].e->w)) return false; }
  for (size_t i=0;i<a->obs.size();i++) if (a->obs[i].e) a->obs[i].e=mkIte(c,a->obs[i].e,b->obs[i].e);
  for (size_t k=0;k<x.frames.size();k++) { Frame &fr=x.frames[k]; for (int j=0;j<fr.f->nslots;j++) { V &u=x.regs[fr.base+j],&v=y.regs[fr.base+j]; if (u.e==v.e&&(u.e||u.c==v.c)) continue; unsigned w=fr.f->slotW[j];
    if (!w||(u.e&&u.e->w!=w)||(v.e&&v.e->w!=w)||(w>64&&(!u.e||!v.e))) continue; // never both live
    Expr *m=mkIte(c,toE(u,w),toE(v,w)); u= w<=64? ve(m):V{m,0}; } }
  a->mem=out; a->pc.resize(p); Expr *o=mkOrB(sa,sb); addPC(a,o); a->steps=std::max(a->steps,b->steps); nMerges++; return true;
}
static void completeGroup(Group *g) {
  vector<State*> L=g->parked, R; g->parked.clear(); g->outstanding=0;
  for (auto s:L) s->groups.pop_back();
  for (auto s:L) { bool done=false; for (int i=(int)R.size()-1;i>=0&&!done;i--) if (tryMerge(R[i],s)) { leaveGroups(s); delete s; done=true; } if (!done) R.push_back(s); }
  for (auto s:R) work.push_back(s);
  delete g;
}
// ------------------------------------------------------------------ scheduling of threads
static bool enabled(State *s, int i) {
  Thread &t=s->th[i];
  switch (t.st) { case T_Run: case T_Sleep: return true; case T_Done: case T_Cond: return false;
    case T_Mutex: { auto it=s->mtx.find(t.mtx); return it==s->mtx.end()||it->second.owner<0; }
    case T_Join: return s->th[t.on].st==T_Done; }
  return false;
}
static void join_vc(uint32_t *a, const uint32_t *b) { for (int i=0;i<8;i++) a[i]=std::max(a[i],b[i]); }
// processes are threads of different rank: what is private to a process is exchanged when the processor changes hands
static void copyRaw(State *s, u64 d, u64 f, u64 n) { for (u64 i=0;i<n;i++) { V v=readObj(objFor(s,f>>ASH),(f&((1ull<<ASH)-1))+i,8); writeObj(s->mem.getW(d>>ASH),(d&((1ull<<ASH)-1))+i,8,v); } }
static void toRank(State *s, int r) { if (r==s->rank) return; for (auto &g:s->regions) { copyRaw(s,g.shadow[s->rank],g.base,g.n); copyRaw(s,g.base,g.shadow[r],g.n); } s->rank=r; }
static void takeThread(State *s, int i, int point) {
  Thread &t=s->th[i]; if (t.st==T_Sleep) { bool other=false; for (size_t j=0;j<s->th.size();j++) if ((int)j!=i && s->th[j].st!=T_Sleep && enabled(s,j)) other=true; if (!other) { s->idle++; s->idler=i; } t.st=T_Run; } else { if (i!=s->idler) s->idle=0; if (t.st==T_Cond) { t.st=T_Mutex; s->spurious--; } }
  s->cur=i; toRank(s,t.rank); (void)point;
}
// choose which thread runs next; `blocked` means the current one cannot go on
static void schedule(State *s, bool blocked) {
  vector<int> opts; int n=s->th.size(), cur=s->cur; nSchedPts++;
  auto add=[&](int i){ for (int o:opts) if (o==i) return; opts.push_back(i); };
  if (!blocked && s->th[cur].st==T_Run) add(cur);
  for (int k=1;k<=n;k++) { int i=(cur+k)%n; if (s->th[i].st!=T_Sleep && enabled(s,i) && !(blocked&&i==cur&&s->th[i].st==T_Run)) add(i); }
  for (int k=1;k<=n;k++) { int i=(cur+k)%n; if (s->th[i].st==T_Sleep) add(i); }
  int firstSpur=opts.size();
  if (s->spurious>0) for (int k=0;k<n;k++) { int i=(cur+k)%n; if (s->th[i].st==T_Cond) { auto it=s->mtx.find(s->th[i].mtx); if (it==s->mtx.end()||it->second.owner<0) add(i); } }
  int point=s->npoints++;
  if (opts.empty()||firstSpur==0) {
    string m="deadlock:"; for (int i=0;i<n;i++) if (s->th[i].st!=T_Done) m+=" thread "+std::to_string(i)+" "+tstName[s->th[i].st]+";"; 
    violation(s,"deadlock",m); throw DeadEx(); }
  if (s->idle>40) { violation(s,"hang","no thread makes progress any more"); throw DeadEx(); }
  if (s->delays>0) for (size_t k=1;k<opts.size();k++) { State *o=cloneState(s); o->delays--; o->schedTrace.push_back({point,opts[k]});
      Expr *v=mkVar("sched#"+std::to_string(point),8,0,7); Model m=o->model->m; m[v->aux]=opts[k]; o->model=newModel(m); o->pc.push_back(mkEq(v,mkConst(8,opts[k]))); takeThread(o,opts[k],point); work.push_back(o); }
  takeThread(s,opts[0],point);
}
// called at the start of a synchronisation operation; returns false when another thread was chosen
static bool schedPoint(State *s) {
  Thread &t=s->th[s->cur]; if (!s->mt) return true; if (t.sched) { t.sched=false; return true; }
  int me=s->cur; t.sched=true; schedule(s,false); if (s->cur==me) { s->th[me].sched=false; return true; } return false;
}
static Mutex &mutexAt(State *s, u64 a) { return s->mtx[a]; }
// ------------------------------------------------------------------ executor
enum R { Done, Stay, Dead };
static R builtin(State *s, Func *f, CallI &ci, Instr &I, vector<V> &a, vector<V> &ret);
static bool hasBuiltin(Func *f);
static R intrinsic(State *s, unsigned id, CallI &ci, Instr &I, vector<V> &a, vector<V> &ret);
static void pushFrame(State *s, Func *f, const vector<V> &args, int dst, int retN) {
  translate(f); f->ncalls++; Thread &t=s->th[s->cur]; if (t.frames.size()>2000) { violation(s,"stack","call stack too deep"); throw DeadEx(); }
  Frame fr; fr.f=f; fr.ip=0; fr.base=t.regs.size(); fr.dst=dst; fr.retN=retN; fr.alloca0=t.allocas.size(); t.regs.resize(fr.base+f->nslots,vc(0));
  size_t k=0; for (auto &p:f->args) for (int j=0;j<p.second;j++) { if (k<args.size()) t.regs[fr.base+p.first+j]=args[k]; k++; }
  t.frames.push_back(fr);
}
static void popFrame(State *s) { Thread &t=s->th[s->cur]; Frame &fr=t.frames.back(); for (size_t i=fr.alloca0;i<t.allocas.size();i++) { Obj *n=newObj(0,K_Stack); n->freed=true; s->mem.put(t.allocas[i],n); } t.allocas.resize(fr.alloca0); t.regs.resize(fr.base); t.frames.pop_back(); }
static void takeEdge(State *s, int e) {
  Thread &t=s->th[s->cur]; Frame &fr=t.frames.back(); Func *f=fr.f; Edge &E=f->edges[e]; V *r=t.regs.data()+fr.base; static vector<V> tmp; tmp.clear();
  for (int i=E.m0;i<E.m1;i++) { Move &m=f->moves[i]; for (int k=0;k<m.n;k++) tmp.push_back(m.src>=0? r[m.src+k]:f->consts[~m.src+k]); }
  size_t k=0; for (int i=E.m0;i<E.m1;i++) { Move &m=f->moves[i]; for (int j=0;j<m.n;j++) r[m.dst+j]=tmp[k++]; }
  fr.ip=f->blockStart[E.target];
}
static bool typeMatches(State *s, u64 thrown, u64 want) {
  if (thrown==want) return true; 
  for (int d=0;d<12;d++) { u64 vt=load(s,vc(thrown),64,true).c; auto it=gvarAt.find(vt>>ASH); string nm=it==gvarAt.end()?"":it->second->getName().str();
    if (nm.find("si_class_type_info")!=string::npos) { thrown=load(s,vc(thrown+16),64,true).c; if (thrown==want) return true; } else return false; }
  return false;
}
static void terminateEv(State *s, const string &why) {
  termEvents[why]++;
  if (s->allowTerm) { endPath(s,"terminate"); return; }
  violation(s,"terminate",why); killState(s);
}
// unwind; returns false when the state has been disposed of
static bool unwind(State *s) {
  Thread &t=s->th[s->cur];
  auto findHandler=[&](bool phase1)->bool {
    for (int i=(int)t.frames.size()-1;i>=0;i--) { Frame &fr=t.frames[i]; Instr &I=fr.f->code[fr.ip]; 
      if (I.op==I_Call) { CallI &ci=fr.f->calls[I.x]; if (ci.unwind>=0) { int b=fr.f->edges[ci.unwind].target; int ip=fr.f->blockStart[b]; Instr &L=fr.f->code[ip]; 
          if (L.op==I_LPad) { auto *LP=cast<LandingPadInst>(L.I); u64 sel=0; bool hit=false; for (unsigned c=0;c<LP->getNumClauses();c++) if (LP->isCatch(c)) { Constant *C=LP->getClause(c)->stripPointerCasts(); if (isa<ConstantPointerNull>(C)) { hit=true; sel=1; break; } u64 ti=addrOfGlobal(cast<GlobalValue>(C)); if (t.excTi && typeMatches(s,t.excTi,ti)) { hit=true; sel=ti>>ASH; break; } } else { hit=true; sel=0x7fffffff; break; }
            if (phase1) { if (hit) return true; } else if (hit||LP->isCleanup()) { while ((int)t.frames.size()-1>i) popFrame(s); takeEdge(s,ci.unwind); Frame &fr2=t.frames.back(); t.regs[fr2.base+L.dst]=vc(t.exc); t.regs[fr2.base+L.dst+1]=vc(sel); fr2.ip=ip+1; return true; } } } }
    }
    return false; };
  if (!findHandler(true)) { terminateEv(s,"uncaught exception"); return false; }
  findHandler(false); while (!s->groups.empty() && s->groups.back()->depth>(int)t.frames.size()) leaveGroups(s,s->groups.size()-1);
  return true;
}
static inline V opv(const Frame &fr, const V *r, int o) { return o>=0? r[o]:fr.f->consts[~o]; }
static u64 sx(u64 c, unsigned w) { return w>=64? c : (u64)((i64)(c<<(64-w))>>(64-w)); }
static V binop(State *s, Op op, unsigned w, V a, V b, Instr &I) {
  if ((op==OUDiv||op==OSDiv||op==OURem||op==OSRem)) {
    if (!b.e) { if (!b.c) { violation(s,"division","division by zero"); throw DeadEx(); } }
    else if (isC(b.e)) { if (!b.e->c) { violation(s,"division","division by zero"); throw DeadEx(); } }
    else if (b.e->lo==0||w>64) { Expr *z=mkEq(b.e,mkConst(w,0)); MB m; int r= evalS(s,z)? 1: sat(s,z,&m); if (r==1) { if (!m) m=s->model; violation(s,"division","division by zero",m); Expr *nz=mkNot(z); MB m2; if (sat(s,nz,&m2)!=1) throw DeadEx(); s->pc.push_back(nz); s->model=m2; } }
  }
  if (!a.e && !b.e) { u64 x=a.c,y=b.c,M=mask64(w),r; 
    switch (op) { case OAdd: r=x+y; break; case OSub: r=x-y; break; case OMul: r=x*y; break; case OAnd: r=x&y; break; case OOr: r=x|y; break; case OXor: r=x^y; break;
      case OUDiv: r=x/y; break; case OURem: r=x%y; break; case OSDiv: { i64 p=sx(x,w),q=sx(y,w); if (q==-1) r=-(u64)p; else r=p/q; break; } case OSRem: { i64 p=sx(x,w),q=sx(y,w); r= q==-1?0:p%q; break; }
      case OShl: r= y>=w?0:x<<y; break; case OLShr: r= y>=w?0:x>>y; break; case OAShr: { i64 p=sx(x,w); r=p>>(y>=w?w-1:y); break; } default: r=0; }
    return vc(r&M); }
  Expr *r=mkBin(op,toE(a,w),toE(b,w)); return w<=64? ve(r):V{r,0};
}
static V icmp(unsigned p, unsigned w, V a, V b) {
  if (!a.e && !b.e) { u64 x=a.c,y=b.c; i64 p1=sx(x,w),q1=sx(y,w); bool r=false;
    switch (p) { case CmpInst::ICMP_EQ: r=x==y; break; case CmpInst::ICMP_NE: r=x!=y; break; case CmpInst::ICMP_UGT: r=x>y; break; case CmpInst::ICMP_UGE: r=x>=y; break; case CmpInst::ICMP_ULT: r=x<y; break; case CmpInst::ICMP_ULE: r=x<=y; break;
      case CmpInst::ICMP_SGT: r=p1>q1; break; case CmpInst::ICMP_SGE: r=p1>=q1; break; case CmpInst::ICMP_SLT: r=p1<q1; break; case CmpInst::ICMP_SLE: r=p1<=q1; break; }
    return vc(r); }
  Expr *x=toE(a,w),*y=toE(b,w); Expr *r;
  switch (p) { case CmpInst::ICMP_EQ: r=mkEq(x,y); break; case CmpInst::ICMP_NE: r=mkNot(mkEq(x,y)); break; case CmpInst::ICMP_UGT: r=mkBin(OUlt,y,x); break; case CmpInst::ICMP_UGE: r=mkBin(OUle,y,x); break; case CmpInst::ICMP_ULT: r=mkBin(OUlt,x,y); break; case CmpInst::ICMP_ULE: r=mkBin(OUle,x,y); break;
    case CmpInst::ICMP_SGT: r=mkBin(OSlt,y,x); break; case CmpInst::ICMP_SGE: r=mkBin(OSle,y,x); break; case CmpInst::ICMP_SLT: r=mkBin(OSlt,x,y); break; default: r=mkBin(OSle,x,y); }
  return ve(r);
}
static double asD(u64 c, unsigned w) { if (w==32) { float f; uint32_t x=c; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&c,8); return d; }
static u64 fromD(double d, unsigned w) { if (w==32) { float f=d; uint32_t x; memcpy(&x,&f,4); return x; } u64 c; memcpy(&c,&d,8); return c; }
static unsigned magBits(Expr *e) { // magnitude of a 64-bit signed value
  u64 h=e->hi; if (h>(1ull<<62)) return 64; unsigned b=0; while (b<63&&(h>>b)) b++; return b; }
// integer-valued double: returns the 64-bit signed integer expression, or null
static Expr *intOf(V v, unsigned w, unsigned &bits) {
  if (w!=64&&w!=32) return nullptr;
  if (v.e) { if (v.e->op==OI2F&&v.e->w==w) { bits=v.e->aux; return v.e->k[0]; } return nullptr; }
  double d=asD(v.c,w); if (d!=std::floor(d)||std::fabs(d)>9007199254740992.0) return nullptr; i64 x=(i64)d; u64 m=x<0?-(u64)x:x; bits=0; while (bits<63&&(m>>bits)) bits++; return mkConst(64,(u64)x);
}
// the double or float nearest to an integer of at most 53 bits
static V i2f(Expr *e, unsigned b, unsigned w) {
  if (w==64||b<=24) return V{mkI2F(e,b,w),0};
  Expr *neg=mkBin(OSlt,e,mkConst(64,0)), *m=mkIte(neg,mkBin(OSub,mkConst(64,0),e),e), *r=m;
  for (unsigned sh=1; sh<=b-24; sh++) { Expr *q=mkBin(OLShr,m,mkConst(64,sh)), *odd=mkBin(OAnd,q,mkConst(64,1)); Expr *t=mkBin(OShl,mkBin(OLShr,mkBin(OAdd,mkBin(OAdd,m,mkConst(64,(1ull<<(sh-1))-1)),odd),mkConst(64,sh)),mkConst(64,sh)); r=mkIte(mkBin(OUle,mkConst(64,1ull<<(23+sh)),m),t,r); }
  return V{mkI2F(mkIte(neg,mkBin(OSub,mkConst(64,0),r),r),b+1,w),0}; }
static void step(State *s); // runs until the state blocks, ends or parks
static vector<V> callArgs, callRet;

static void execState(State *s) {
  try {
  for (;;) {
    if (stopAll) return;
    Thread *t=&s->th[s->cur]; Frame *fr=&t->frames.back();
    // join points
    while (!s->groups.empty()) { Group *g=s->groups.back(); int d=t->frames.size();
      if ((g->f && d==g->depth && fr->f==g->f && fr->ip==g->ip) || (!g->f && d==g->depth-1)) { g->parked.push_back(s); if ((int)g->parked.size()==g->outstanding) completeGroup(g); return; }
      if (d<g->depth && !(!g->f&&d==g->depth-1)) { leaveGroups(s,s->groups.size()-1); continue; }
      break; }
    bool checkJoin=false;
    while (!checkJoin) {
      Func *f=fr->f; Instr &I=f->code[fr->ip]; V *r=t->regs.data()+fr->base; I.hit=1; nSteps++; s->steps++;
      if (s->steps>s->stepLimit) { violation(s,"steps","execution does not end within "+std::to_string(s->stepLimit)+" steps"); killState(s); return; }
      if ((nSteps&0xffff)==0 && now()-t_start>optTime) { note("time budget exhausted"); stopAll=true; return; }
      #define O(x) opv(*fr,r,x)
      switch (I.op) {
      case I_Bin: if (I.n==1) { r[I.dst]=binop(s,(Op)I.sub,I.w,O(I.a),O(I.b),I); } else for (int k=0;k<I.n;k++) { V a=I.a>=0?r[I.a+k]:f->consts[~I.a+k], b=I.b>=0?r[I.b+k]:f->consts[~I.b+k]; r[I.dst+k]=binop(s,(Op)I.sub,I.w,a,b,I); } fr->ip++; break;
      case I_ICmp: for (int k=0;k<I.n;k++) { V a=I.a>=0?r[I.a+k]:f->consts[~I.a+k], b=I.b>=0?r[I.b+k]:f->consts[~I.b+k]; r[I.dst+k]=icmp(I.sub,I.sw,a,b); } fr->ip++; break;
      case I_Copy: for (int k=0;k<I.n;k++) { V v=I.a>=0?r[I.a+k]:f->consts[~I.a+k]; r[I.dst+k]=v; } fr->ip++; break;
      case I_Cast: {
        if (I.sub==255) { // vector bitcast between different lane counts
          unsigned sw=I.sw,n=I.b; Expr *all=nullptr; for (unsigned k=0;k<n;k++) { V v=I.a>=0?r[I.a+k]:f->consts[~I.a+k]; Expr *e=toE(v,sw); all=all?mkConcat(e,all):e; } for (int k=0;k<I.n;k++) r[I.dst+k]=ve(mkExtract(all,k*I.w,I.w)); fr->ip++; break; }
        for (int k=0;k<I.n;k++) { V v=I.a>=0?r[I.a+k]:f->consts[~I.a+k]; V o;
          switch (I.sub) {
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
              if (!v.e && I.w<=64) o=vc(v.c&mask64(std::min(I.w,I.sw))); else { Expr *e=toE(v,I.sw); e= I.w<I.sw? mkExtract(e,0,I.w): I.w>I.sw? mkZExt(e,I.w):e; o= I.w<=64?ve(e):V{e,0}; } break;
            case Instruction::SExt: if (!v.e && I.w<=64) o=vc(sx(v.c,I.sw)&mask64(I.w)); else { Expr *e=mkSExt(toE(v,I.sw),I.w); o=I.w<=64?ve(e):V{e,0}; } break;
            case Instruction::SIToFP: case Instruction::UIToFP: { bool sg=I.sub==Instruction::SIToFP;
              if (!v.e) { o=vc(fromD(sg? (double)(i64)sx(v.c,I.sw):(double)v.c,I.w)); if (I.w==32) { float q= sg?(float)(i64)sx(v.c,I.sw):(float)v.c; o=vc(fromD(q,32)); } }
              else if ((I.w==64||I.w==32) && I.sw<=64) { Expr *e= I.sw==64? v.e : sg? mkSExt(v.e,64):mkZExt(v.e,64); unsigned b= I.sw<64? I.sw: magBits(e); if (b>53) { o=vc(fromD(sg?(double)(i64)sx(concretize(s,v,0),I.sw):(double)concretize(s,v,0),I.w)); } else o=i2f(e,b,I.w); }
              else { u64 c=concretize(s,v,0); o=vc(fromD(sg?(double)(i64)sx(c,I.sw):(double)c,I.w)); } break; }
            case Instruction::FPToSI: case Instruction::FPToUI: { unsigned b; 
              if (!v.e) { double d=asD(v.c,I.sw); u64 x= (I.sub==Instruction::FPToSI||d<0)? (u64)(i64)d : (d>=9.2e18? (u64)d:(u64)(i64)d); o=vc(x&mask64(I.w)); }
              else { Expr *e=intOf(v,I.sw,b); if (e) o=ve(mkExtract(e,0,I.w)); else { double d=asD(concretize(s,v,0),I.sw); o=vc((u64)(i64)d&mask64(I.w)); } } break; }
            case Instruction::FPExt: case Instruction::FPTrunc: { if (I.w>64||I.sw>64) throw Unsup("long double"); unsigned b; Expr *e=v.e?intOf(v,I.sw,b):nullptr; if (e&&b<=53) { o=i2f(e,b,I.w); break; } u64 c=concretize(s,v,0); o=vc(fromD(asD(c,I.sw),I.w)); break; }
            default: throw Unsup("cast"); }
          r[I.dst+k]=o; }
        fr->ip++; break; }
      case I_FBin: for (int k=0;k<I.n;k++) { V a=I.a>=0?r[I.a+k]:f->consts[~I.a+k], b=I.b>=0?r[I.b+k]:f->consts[~I.b+k]; if (I.w>64) throw Unsup("long double");
          if ((a.e||b.e) && (I.w==64||I.w==32)) { unsigned ba,bb; Expr *x=intOf(a,I.w,ba),*y=intOf(b,I.w,bb); if (x&&y&&I.sub<3) { unsigned nb= I.sub==2? ba+bb : std::max(ba,bb)+1; if (nb<=53) { r[I.dst+k]=i2f(mkBin(I.sub==0?OAdd:I.sub==1?OSub:OMul,x,y),nb,I.w); continue; } } }
          u64 ca=concretize(s,a,0),cb=concretize(s,b,0); double x=asD(ca,I.w),y=asD(cb,I.w),z= I.sub==0?x+y:I.sub==1?x-y:I.sub==2?x*y:I.sub==3?x/y:std::fmod(x,y); r[I.dst+k]=vc(fromD(z,I.w)); } fr->ip++; break;
      case I_FNeg: { V a=O(I.a); unsigned b; Expr *x=a.e?intOf(a,I.w,b):nullptr; if (x) r[I.dst]=V{mkI2F(mkBin(OSub,mkConst(64,0),x),b,I.w),0}; else r[I.dst]=vc(fromD(-asD(concretize(s,a,0),I.w),I.w)); fr->ip++; break; }
      case I_FCmp: { V a=O(I.a),b=O(I.b); if (I.sw>64) throw Unsup("long double"); unsigned ba,bb; Expr *x=a.e||b.e?intOf(a,I.sw,ba):nullptr,*y=x?intOf(b,I.sw,bb):nullptr; 
        if (x&&y) { unsigned p; switch (I.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: p=CmpInst::ICMP_EQ; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: p=CmpInst::ICMP_NE; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: p=CmpInst::ICMP_SGT; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: p=CmpInst::ICMP_SGE; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: p=CmpInst::ICMP_SLT; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: p=CmpInst::ICMP_SLE; break; default: throw Unsup("fcmp"); } r[I.dst]=icmp(p,64,V{x,0},V{y,0}); if (r[I.dst].e==nullptr) {} fr->ip++; break; }
        double p=asD(concretize(s,a,0),I.sw),q=asD(concretize(s,b,0),I.sw); bool un=std::isnan(p)||std::isnan(q),v=false; unsigned pr=I.sub; if (un) v=(pr>=8&&pr!=15)||pr==15; else { v=((pr&1)&&p==q)||((pr&2)&&p>q)||((pr&4)&&p<q); } r[I.dst]=vc(v); fr->ip++; break; }
      case I_Load: { auto &L=*f->leaves[I.x]; V a=O(I.a); if (L.size()==1) r[I.dst]=load(s,a,L[0].w,I.sub); else for (size_t k=0;k<L.size();k++) { V b=a; if (L[k].off) b= a.e? ve(mkBin(OAdd,a.e,mkConst(64,L[k].off))):vc(a.c+L[k].off); r[I.dst+k]=load(s,b,L[k].w,I.sub); } fr->ip++; break; }
      case I_Store: { auto &L=*f->leaves[I.x]; V a=O(I.a); for (size_t k=0;k<L.size();k++) { V b=a; if (L[k].off) b= a.e? ve(mkBin(OAdd,a.e,mkConst(64,L[k].off))):vc(a.c+L[k].off); store(s,b,L[k].w,I.b>=0?r[I.b+k]:f->consts[~I.b+k],I.sub); } fr->ip++; break; }
      case I_Alloca: { u64 n=concretize(s,O(I.a),0); u64 a=allocObj(s,n*(u64)(uint32_t)I.c,K_Stack,false); t->allocas.push_back(a>>ASH); r[I.dst]=vc(a); fr->ip++; break; }
      case I_Gep: { V b=O(I.a); GepI &g=f->geps[I.x]; bool sy=b.e; for (auto &x:g.t) { V v=O(x.opd); if (v.e) sy=true; }
        if (!sy) { u64 a=b.c+g.off; for (auto &x:g.t) a+=sx(O(x.opd).c,x.w)*(u64)x.scale; r[I.dst]=vc(a); }
        else { Expr *e=mkConst(64,(u64)g.off); for (auto &x:g.t) { Expr *q=toE(O(x.opd),x.w); if (x.w<64) q=mkSExt(q,64); e=mkBin(OAdd,e,mkBin(OMul,q,mkConst(64,(u64)x.scale))); } r[I.dst]=ve(mkBin(OAdd,toE(b,64),e)); }
        fr->ip++; break; }
      case I_Br: takeEdge(s,I.x); checkJoin=!s->groups.empty(); break;
      case I_CondBr: { V c=O(I.a); 
        if (!c.e) { takeEdge(s,c.c?I.b:I.c); checkJoin=!s->groups.empty(); break; }
        State *o; bool v=split(s,c.e,&o); t=&s->th[s->cur]; fr=&t->frames.back();
        if (o) { if (s->merge && !s->mt) { int P=ipdomOf(f,f->blockOf[fr->ip]); Group *g=new Group; g->parent=nullptr; g->depth=t->frames.size(); g->outstanding=2; if (P>=0) { g->f=f; g->ip=f->blockStart[P]; } else { g->f=nullptr; g->ip=-1; } s->groups.push_back(g); o->groups.push_back(g); }
          takeEdge(o,v?I.c:I.b); work.push_back(o); }
        takeEdge(s,v?I.b:I.c); checkJoin=true; break; }
      case I_Switch: { V c=O(I.a); SwitchI &sw=f->switches[I.x]; 
        if (!c.e) { int e=sw.def; for (auto &p:sw.cases) if (p.first==c.c) { e=p.second; break; } takeEdge(s,e); checkJoin=!s->groups.empty(); break; }
        u64 m=evalS(s,c.e); int e=sw.def; Expr *g=mkConst(1,1); bool found=false; for (auto &p:sw.cases) if (p.first==m) { e=p.second; found=true; }
        // group cases by edge target
        if (found) { g=mkConst(1,0); for (auto &p:sw.cases) if (f->edges[p.second].target==f->edges[e].target && f->edges[p.second].m0==f->edges[p.second].m1) g=mkOrB(g,mkEq(c.e,mkConst(I.sw,p.first))); if (f->edges[e].m0!=f->edges[e].m1) g=mkEq(c.e,mkConst(I.sw,m)); }
        else for (auto &p:sw.cases) g=mkAndB(g,mkNot(mkEq(c.e,mkConst(I.sw,p.first))));
        State *o; split(s,g,&o); t=&s->th[s->cur]; fr=&t->frames.back();
        if (o) { if (s->merge && !s->mt) { int P=ipdomOf(f,f->blockOf[fr->ip]); Group *gr=new Group; gr->parent=nullptr; gr->depth=t->frames.size(); gr->outstanding=2; if (P>=0) { gr->f=f; gr->ip=f->blockStart[P]; } else { gr->f=nullptr; gr->ip=-1; } s->groups.push_back(gr); o->groups.push_back(gr); } work.push_back(o); }
        takeEdge(s,e); checkJoin=true; break; }
      case I_Ret: { vector<V> rv; for (int k=0;k<I.n;k++) rv.push_back(I.a>=0?r[I.a+k]:f->consts[~I.a+k]); int dst=fr->dst; 
        if (t->frames.size()==1) { // thread ends
          popFrame(s); t->st=T_Done; t->vc[std::min(s->cur,7)]++;
          if (s->cur==0) { endPath(s,"return"); return; }
          schedule(s,true); checkJoin=true; break; }
        popFrame(s); fr=&t->frames.back(); r=t->regs.data()+fr->base;
        Instr &C=fr->f->code[fr->ip]; 
        if (!s->snaps.empty() && s->snaps.back().depth==t->frames.size() && C.op==I_Call && fr->f->calls[C.x].callee && fr->f->calls[C.x].callee->name=="hse_run_crashable") { extern void restoreSnap(State*); restoreSnap(s); if (C.dst>=0) r[C.dst]=vc(0); }
        else if (dst>=0) for (size_t k=0;k<rv.size();k++) r[dst+k]=rv[k];
        CallI &ci=fr->f->calls[C.x]; if (ci.normal>=0) takeEdge(s,ci.normal); else fr->ip++;
        checkJoin=true; break; }
      case I_Select: { auto &L=*f->leaves[I.x]; for (size_t k=0;k<L.size();k++) { V c= I.sub? (I.a>=0?r[I.a+k]:f->consts[~I.a+k]) : O(I.a); V x=I.b>=0?r[I.b+k]:f->consts[~I.b+k], y=I.c>=0?r[I.c+k]:f->consts[~I.c+k];
          if (!c.e) r[I.dst+k]= c.c?x:y; else { Expr *e=mkIte(c.e,toE(x,L[k].w),toE(y,L[k].w)); r[I.dst+k]= L[k].w<=64? ve(e):V{e,0}; } } fr->ip++; break; }
      case I_Extract: { V tmp[64]; int n=std::min(I.n,64); for (int k=0;k<n;k++) tmp[k]=I.a>=0?r[I.a+I.b+k]:f->consts[~I.a+I.b+k]; for (int k=0;k<n;k++) r[I.dst+k]=tmp[k]; fr->ip++; break; }
      case I_Insert: { for (int k=0;k<I.n;k++) { V v= (k>=I.c&&k<I.c+I.x)? (I.b>=0?r[I.b+k-I.c]:f->consts[~I.b+k-I.c]) : (I.a>=0?r[I.a+k]:f->consts[~I.a+k]); r[I.dst+k]=v; } fr->ip++; break; }
      case I_ExtractElt: { u64 ix=concretize(s,O(I.b),0); r[I.dst]= I.a>=0? r[I.a+ix]:f->consts[~I.a+ix]; fr->ip++; break; }
      case I_InsertElt: { u64 ix=concretize(s,O(I.c),0); V v=O(I.b); for (int k=0;k<I.n;k++) r[I.dst+k]= (u64)k==ix? v : (I.a>=0?r[I.a+k]:f->consts[~I.a+k]); fr->ip++; break; }
      case I_Shuffle: { vector<V> tmp; for (int m:f->lists[I.x]) { if (m<0) tmp.push_back(vc(0)); else if (m<I.c) tmp.push_back(I.a>=0?r[I.a+m]:f->consts[~I.a+m]); else tmp.push_back(I.b>=0?r[I.b+m-I.c]:f->consts[~I.b+m-I.c]); } for (size_t k=0;k<tmp.size();k++) r[I.dst+k]=tmp[k]; fr->ip++; break; }
      case I_RMW: { V a=O(I.a); V old=load(s,a,I.w,true); V b=O(I.b); V nv; 
        if (s->mt && !a.e) { auto &c=s->atomVC[a.c]; Thread &T=s->th[s->cur]; for (int i=0;i<8;i++) { T.vc[i]=std::max(T.vc[i],c[i]); c[i]=T.vc[i]; } T.vc[std::min(s->cur,7)]++; }
        switch (I.sub) { case AtomicRMWInst::Xchg: nv=b; break; case AtomicRMWInst::Add: nv=binop(s,OAdd,I.w,old,b,I); break; case AtomicRMWInst::Sub: nv=binop(s,OSub,I.w,old,b,I); break; case AtomicRMWInst::And: nv=binop(s,OAnd,I.w,old,b,I); break; case AtomicRMWInst::Or: nv=binop(s,OOr,I.w,old,b,I); break; case AtomicRMWInst::Xor: nv=binop(s,OXor,I.w,old,b,I); break; default: throw Unsup("atomicrmw"); }
        store(s,a,I.w,nv,true); r[I.dst]=old; fr->ip++; break; }
      case I_CmpXchg: { V a=O(I.a); V old=load(s,a,I.w,true); V c=icmp(CmpInst::ICMP_EQ,I.w,old,O(I.b)); 
        if (s->mt && !a.e) { auto &cc=s->atomVC[a.c]; Thread &T=s->th[s->cur]; for (int i=0;i<8;i++) { T.vc[i]=std::max(T.vc[i],cc[i]); cc[i]=T.vc[i]; } T.vc[std::min(s->cur,7)]++; }
        V nv=O(I.c); if (!c.e) { if (c.c) store(s,a,I.w,nv,true); } else store(s,a,I.w,ve(mkIte(c.e,toE(nv,I.w),toE(old,I.w))),true); r[I.dst]=old; r[I.dst+1]=c; fr->ip++; break; }
      case I_Nop: fr->ip++; break;
      case I_Unreach: if (fr->ip>0) violation(s,"unreachable","control reaches a point the compiler proved unreachable (undefined behaviour)"); killState(s); return;
      case I_LPad: fr->ip++; break;
      case I_Resume: { t->exc=O(I.a).c; if (!unwind(s)) return; checkJoin=true; break; }
      case I_Unsup: throw Unsup(g_unsupMsg[I.I]);
      case I_Call: {
        CallI &ci=f->calls[I.x]; Func *cf=ci.callee;
        if (!cf) { V p=O(ci.calleeOpd); u64 a=concretize(s,p,0); auto it=funcAt.find(a); if (it==funcAt.end()) { violation(s,"memory","call through an invalid function pointer"); killState(s); return; } cf=it->second; }
        callArgs.clear(); for (size_t k=0;k<ci.args.size();k++) { auto &p=ci.args[k]; if (ci.byval[k]) { u64 src=concretize(s,O(p.first),0); u64 a=allocObj(s,ci.byval[k],K_Stack,false); t->allocas.push_back(a>>ASH); copyMem(s,a,src,ci.byval[k]); callArgs.push_back(vc(a)); } else for (int j=0;j<p.second;j++) callArgs.push_back(p.first>=0?r[p.first+j]:f->consts[~p.first+j]); }
        callRet.clear();
        R res; 
        if (ci.intrinsic) res=intrinsic(s,ci.intrinsic,ci,I,callArgs,callRet);
        else if (hasBuiltin(cf)) res=builtin(s,cf,ci,I,callArgs,callRet);
        else if (!cf->F->isDeclaration()) { pushFrame(s,cf,callArgs,I.dst,I.n); checkJoin=true; break; }
        else throw Unsup("external function "+cf->name);
        if (res==Dead) return;
        t=&s->th[s->cur]; fr=&t->frames.back(); r=t->regs.data()+fr->base;
        if (res==Stay) { checkJoin=true; break; }
        if (I.dst>=0) for (size_t k=0;k<callRet.size();k++) r[I.dst+k]=callRet[k];
        if (ci.normal>=0) takeEdge(s,ci.normal); else fr->ip++;
        checkJoin=!s->groups.empty(); break; }
      default: throw Unsup("opcode");
      }
    }
  }
  } catch (DeadEx&) { killState(s); }
  catch (Unsup &u) { note("not encoded: "+u.msg+" at "+repoLoc(s)); if (optTrace) fprintf(stderr,"UNSUP %s\n  %s\n",u.msg.c_str(),stackOf(s).c_str()); endPath(s,"unsupported"); }
}
void restoreSnap(State *s) {
  auto sn=s->snaps.back(); s->snaps.pop_back(); Mem m(*sn.mem);
  for (auto &g:M->globals()) if (g.getName().starts_with("hse_persist_")) { u64 id=addrOfGlobal(&g)>>ASH; Obj *o=s->mem.get(id); o->rc++; m.put(id,o); }
  s->mem=m;
}
// ------------------------------------------------------------------ intrinsics
static R intrinsic(State *s, unsigned id, CallI &ci, Instr &I, vector<V> &a, vector<V> &ret) {
  unsigned w=ci.retW; auto rz=[&](Expr *e){ ret.push_back(e->w<=64?ve(e):V{e,0}); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n=concretize(s,a[2],0),d=concretize(s,a[0],0),q=concretize(s,a[1],0); copyMem(s,d,q,n); return Done; }
    case Intrinsic::memset: { u64 n=concretize(s,a[2],0),d=concretize(s,a[0],0); rangeCheck(s,d,n,true); for (u64 i=0;i<n;i++) store(s,vc(d+i),8,a[1]); return Done; }
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: return Done;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: ret.push_back(a[0]); return Done;
    case Intrinsic::threadlocal_address: ret.push_back(a[0]); return Done;
    case Intrinsic::objectsize: ret.push_back(vc(~0ull&mask64(w))); return Done;
    case Intrinsic::is_constant: ret.push_back(vc(0)); return Done;
    case Intrinsic::stacksave: ret.push_back(vc(0)); return Done; case Intrinsic::stackrestore: return Done;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: terminateEv(s,"trap"); return Dead;
    case Intrinsic::eh_typeid_for: ret.push_back(vc(a[0].c>>ASH)); return Done;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      for (int k=0;k<I.n;k++) { V x=a[k],y=a[I.n+k]; V c=icmp(id==Intrinsic::umax?CmpInst::ICMP_UGT:id==Intrinsic::umin?CmpInst::ICMP_ULT:id==Intrinsic::smax?CmpInst::ICMP_SGT:CmpInst::ICMP_SLT,w,x,y);
        if (!c.e) ret.push_back(c.c?x:y); else rz(mkIte(c.e,toE(x,w),toE(y,w))); } return Done; }
    case Intrinsic::abs: for (int k=0;k<I.n;k++) { V c=icmp(CmpInst::ICMP_SLT,w,a[k],vc(0)); V ng=binop(s,OSub,w,vc(0),a[k],I); if (!c.e) ret.push_back(c.c?ng:a[k]); else rz(mkIte(c.e,toE(ng,w),toE(a[k],w))); } return Done;
    case Intrinsic::ctpop: { if (!a[0].e) { ret.push_back(vc(__builtin_popcountll(a[0].c))); return Done; } Expr *e=mkConst(w,0); for (unsigned i=0;i<w;i++) e=mkBin(OAdd,e,mkZExt(mkExtract(a[0].e,i,1),w)); rz(e); return Done; }
    case Intrinsic::ctlz: { if (!a[0].e) { ret.push_back(vc(a[0].c? __builtin_clzll(a[0].c)-(64-w):w)); return Done; } Expr *e=mkConst(w,w); for (unsigned i=0;i<w;i++) e=mkIte(mkExtract(a[0].e,i,1),mkConst(w,w-1-i),e); rz(e); return Done; }
    case Intrinsic::cttz: { if (!a[0].e) { ret.push_back(vc(a[0].c? __builtin_ctzll(a[0].c):w)); return Done; } Expr *e=mkConst(w,w); for (int i=w-1;i>=0;i--) e=mkIte(mkExtract(a[0].e,i,1),mkConst(w,i),e); rz(e); return Done; }
    case Intrinsic::bswap: { Expr *e=toE(a[0],w),*r=nullptr; for (unsigned i=0;i<w/8;i++) { Expr *b=mkExtract(e,8*i,8); r=r?mkConcat(r,b):b; } rz(r); return Done; }
    case Intrinsic::bitreverse: { Expr *e=toE(a[0],w),*r=nullptr; for (unsigned i=0;i<w;i++) { Expr *b=mkExtract(e,i,1); r=r?mkConcat(r,b):b; } rz(r); return Done; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Expr *c=mkConcat(toE(a[0],w),toE(a[1],w)); u64 sh=concretize(s,a[2],0)%w; if (id==Intrinsic::fshl) rz(mkExtract(c,w-sh,w)); else rz(mkExtract(c,sh,w)); return Done; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Op op= (id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?OAdd:(id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow)?OSub:OMul; bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow;
      if (w>63) { if (!a[0].e&&!a[1].e) { unsigned __int128 r; bool o; if (sg) { i64 q; o= op==OAdd?__builtin_add_overflow((i64)a[0].c,(i64)a[1].c,&q):op==OSub?__builtin_sub_overflow((i64)a[0].c,(i64)a[1].c,&q):__builtin_mul_overflow((i64)a[0].c,(i64)a[1].c,&q); r=(u64)q; } else { u64 q; o= op==OAdd?__builtin_add_overflow(a[0].c,a[1].c,&q):op==OSub?__builtin_sub_overflow(a[0].c,a[1].c,&q):__builtin_mul_overflow(a[0].c,a[1].c,&q); r=q; } ret.push_back(vc((u64)r)); ret.push_back(vc(o)); return Done; } }
      unsigned W= op==OMul? 2*w : w+1; if (W>128) throw Unsup("wide overflow intrinsic"); Expr *x=sg?mkSExt(toE(a[0],w),W):mkZExt(toE(a[0],w),W),*y=sg?mkSExt(toE(a[1],w),W):mkZExt(toE(a[1],w),W); Expr *r=mkBin(op,x,y); Expr *lo=mkExtract(r,0,w); rz(lo); rz(mkNot(mkEq(sg?mkSExt(lo,W):mkZExt(lo,W),r))); return Done; }
    case Intrinsic::usub_sat: { V c=icmp(CmpInst::ICMP_ULT,w,a[0],a[1]); V d=binop(s,OSub,w,a[0],a[1],I); if (!c.e) ret.push_back(c.c?vc(0):d); else rz(mkIte(c.e,mkConst(w,0),toE(d,w))); return Done; }
    case Intrinsic::uadd_sat: { V d=binop(s,OAdd,w,a[0],a[1],I); V c=icmp(CmpInst::ICMP_ULT,w,d,a[0]); if (!c.e) ret.push_back(c.c?vc(mask64(w)):d); else rz(mkIte(c.e,mkConst(w,maskw(w)),toE(d,w))); return Done; }
    case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp: case Intrinsic::canonicalize: { if (a[0].e&&(id==Intrinsic::floor||id==Intrinsic::ceil||id==Intrinsic::trunc||id==Intrinsic::rint||id==Intrinsic::nearbyint||id==Intrinsic::round||id==Intrinsic::canonicalize)) { unsigned b; if (intOf(a[0],w,b)) { ret.push_back(a[0]); return Done; } } double x=asD(concretize(s,a[0],0),w),y= id==Intrinsic::fabs?std::fabs(x):id==Intrinsic::floor?std::floor(x):id==Intrinsic::ceil?std::ceil(x):id==Intrinsic::sqrt?std::sqrt(x):id==Intrinsic::trunc?std::trunc(x):id==Intrinsic::round?std::round(x):id==Intrinsic::log?std::log(x):id==Intrinsic::log2?std::log2(x):id==Intrinsic::exp?std::exp(x):id==Intrinsic::canonicalize?x:std::rint(x); ret.push_back(vc(fromD(y,w))); return Done; }
    case Intrinsic::pow: { double x=asD(concretize(s,a[0],0),w),y=asD(concretize(s,a[1],0),w); ret.push_back(vc(fromD(std::pow(x,y),w))); return Done; }
    case Intrinsic::powi: { double x=asD(concretize(s,a[0],0),w); int y=(int)concretize(s,a[1],0); ret.push_back(vc(fromD(std::pow(x,y),w))); return Done; }
    case Intrinsic::ldexp: { double x=asD(concretize(s,a[0],0),w); int y=(int)concretize(s,a[1],0); ret.push_back(vc(fromD(std::ldexp(x,y),w))); return Done; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { double x=asD(concretize(s,a[0],0),w),y=asD(concretize(s,a[1],0),w),z=asD(concretize(s,a[2],0),w); ret.push_back(vc(fromD(x*y+z,w))); return Done; }
    case Intrinsic::maxnum: case Intrinsic::minnum: { double x=asD(concretize(s,a[0],0),w),y=asD(concretize(s,a[1],0),w); ret.push_back(vc(fromD(id==Intrinsic::maxnum?std::fmax(x,y):std::fmin(x,y),w))); return Done; }
    case Intrinsic::copysign: { double x=asD(concretize(s,a[0],0),w),y=asD(concretize(s,a[1],0),w); ret.push_back(vc(fromD(std::copysign(x,y),w))); return Done; }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: throw Unsup("saturating float conversion");
    case Intrinsic::vector_reduce_add: { V x=a[0]; for (size_t k=1;k<a.size();k++) x=binop(s,OAdd,w,x,a[k],I); ret.push_back(x); return Done; }
    case Intrinsic::vector_reduce_or: { V x=a[0]; for (size_t k=1;k<a.size();k++) x=binop(s,OOr,w,x,a[k],I); ret.push_back(x); return Done; }
    case Intrinsic::vector_reduce_and: { V x=a[0]; for (size_t k=1;k<a.size();k++) x=binop(s,OAnd,w,x,a[k],I); ret.push_back(x); return Done; }
    default: throw Unsup("intrinsic "+Intrinsic::getBaseName((Intrinsic::ID)id).str());
  }
}
// ------------------------------------------------------------------ library primitives
typedef std::function<R(State*,CallI&,Instr&,vector<V>&,vector<V>&)> BI;
static vector<BI> bis; static std::map<string,int> biIx;
static bool hasBuiltin(Func *f) { if (f->builtin==-2) { auto it=biIx.find(f->name); f->builtin= it==biIx.end()? -1: it->second; } return f->builtin>=0; }
static R builtin(State *s, Func *f, CallI &ci, Instr &I, vector<V> &a, vector<V> &ret) { f->ncalls++; return bis[f->builtin](s,ci,I,a,ret); }
#define BDEF(nm) biIx[nm]=bis.size(); bis.push_back([](State *s, CallI &ci, Instr &I, vector<V> &a, vector<V> &ret)->R
static void block(State *s, TSt st) { s->th[s->cur].st=st; schedule(s,true); }
static void cmpBytes(State *s, vector<V> &a, vector<V> &ret, bool eqOnly, bool str) {
  u64 n=str? ~0ull : concretize(s,a[2],0), p=concretize(s,a[0],0), q=concretize(s,a[1],0);
  if (str) throw Unsup("strcmp");
  rangeCheck(s,p,n,false); rangeCheck(s,q,n,false); Expr *r=mkConst(32,0);
  for (u64 i=n;i-->0;) { Expr *x=toE(load(s,vc(p+i),8),8),*y=toE(load(s,vc(q+i),8),8); r=mkIte(mkEq(x,y),r,mkIte(mkBin(OUlt,x,y),mkConst(32,0xffffffff),mkConst(32,1))); }
  ret.push_back(ve(r));
}
static void initBuiltins() {
  for (const char *nm:{"malloc","_Znwm","_Znam","_ZnwmSt11align_val_t","_ZnwmRKSt9nothrow_t"}) BDEF(nm) { u64 n=concretize(s,a[0],0); ret.push_back(vc(allocObj(s,n,K_Heap,false))); return Done; });
  BDEF("calloc") { u64 n=concretize(s,a[0],0)*concretize(s,a[1],0); ret.push_back(vc(allocObj(s,n,K_Heap,true))); return Done; });
  BDEF("realloc") { u64 n=concretize(s,a[1],0); u64 p=concretize(s,a[0],0); u64 q=allocObj(s,n,K_Heap,false); if (p) { Obj *o=objFor(s,p>>ASH); if (!o||o->freed) { memErr(s,p,1,false); throw DeadEx(); } copyMem(s,q,p,std::min<u64>(o->size,n)); freeObj(s,vc(p),"realloc"); } ret.push_back(vc(q)); return Done; });
  for (const char *nm:{"free","_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvmSt11align_val_t"}) BDEF(nm) { freeObj(s,vc(concretize(s,a[0],0)),"free"); return Done; });
  for (const char *nm:{"memcpy","memmove"}) BDEF(nm) { copyMem(s,concretize(s,a[0],0),concretize(s,a[1],0),concretize(s,a[2],0)); ret.push_back(a[0]); return Done; });
  BDEF("memset") { u64 n=concretize(s,a[2],0),d=concretize(s,a[0],0); rangeCheck(s,d,n,true); V b= a[1].e? ve(mkExtract(a[1].e,0,8)):vc(a[1].c&255); for (u64 i=0;i<n;i++) store(s,vc(d+i),8,b); ret.push_back(a[0]); return Done; });
  BDEF("memcmp") { cmpBytes(s,a,ret,false,false); return Done; });
  BDEF("bcmp") { cmpBytes(s,a,ret,true,false); return Done; });
  BDEF("strlen") { u64 p=concretize(s,a[0],0),n=0; for (;;n++) { V v=load(s,vc(p+n),8); u64 c=v.e? 1-concretize(s,ve(mkZExt(mkEq(toE(v,8),mkConst(8,0)),64)),0) : v.c; if (!c) break; } ret.push_back(vc(n)); return Done; });
  BDEF("abort") { terminateEv(s,"abort"); return Dead; });
  BDEF("_ZSt9terminatev") { terminateEv(s,"std::terminate"); return Dead; });
  BDEF("__clang_call_terminate") { terminateEv(s,"exception left a noexcept function"); return Dead; });
  BDEF("__assert_fail") { terminateEv(s,"assertion failed"); return Dead; });
  BDEF("__cxa_pure_virtual") { terminateEv(s,"pure virtual call"); return Dead; });
  for (const char *nm:{"exit","_exit","quick_exit"}) BDEF(nm) { endPath(s,"exit"); return Dead; });
  BDEF("__cxa_atexit") { ret.push_back(vc(0)); return Done; });
  BDEF("__cxa_thread_atexit") { ret.push_back(vc(0)); return Done; });
  BDEF("__cxa_guard_acquire") { V v=load(s,a[0],8,true); if (s->mt) { auto &c=s->atomVC[a[0].c]; join_vc(s->th[s->cur].vc,c.data()); } ret.push_back(vc(v.c?0:1)); return Done; });
  BDEF("__cxa_guard_release") { store(s,a[0],8,vc(1),true); if (s->mt) { auto &c=s->atomVC[a[0].c]; Thread &t=s->th[s->cur]; for (int i=0;i<8;i++) c[i]=std::max(c[i],t.vc[i]); t.vc[std::min(s->cur,7)]++; } return Done; });
  BDEF("__cxa_guard_abort") { return Done; });
  // exceptions
  BDEF("__cxa_allocate_exception") { ret.push_back(vc(allocObj(s,concretize(s,a[0],0),K_Heap,true))); return Done; });
  BDEF("__cxa_free_exception") { return Done; });
  BDEF("__cxa_throw") { Thread &t=s->th[s->cur]; t.exc=a[0].c; t.excTi=a[1].c; if (!unwind(s)) return Dead; return Stay; });
  BDEF("__cxa_begin_catch") { Thread &t=s->th[s->cur]; t.caught.push_back(a[0].c); t.caught.push_back(t.excTi); ret.push_back(a[0]); return Done; });
  BDEF("__cxa_end_catch") { Thread &t=s->th[s->cur]; if (t.caught.size()>1) { t.caught.pop_back(); t.caught.pop_back(); } return Done; });
  BDEF("__cxa_rethrow") { Thread &t=s->th[s->cur]; if (t.caught.empty()) { terminateEv(s,"throw without an exception"); return Dead; } t.excTi=t.caught.back(); t.exc=t.caught[t.caught.size()-2]; if (!unwind(s)) return Dead; return Stay; });
  BDEF("_Unwind_Resume") { s->th[s->cur].exc=a[0].c; if (!unwind(s)) return Dead; return Stay; });
  // mathematics on concrete doubles
  #define MATH1(nm,ex) BDEF(nm) { double x=asD(concretize(s,a[0],0),64); ret.push_back(vc(fromD(ex,64))); return Done; });
  MATH1("sqrt",std::sqrt(x)) MATH1("log",std::log(x)) MATH1("log2",std::log2(x)) MATH1("log10",std::log10(x)) MATH1("exp",std::exp(x)) MATH1("floor",std::floor(x)) MATH1("ceil",std::ceil(x)) MATH1("round",std::round(x)) MATH1("fabs",std::fabs(x)) MATH1("trunc",std::trunc(x))
  BDEF("powf") { double x=asD(concretize(s,a[0],0),32),y=asD(concretize(s,a[1],0),32); ret.push_back(vc(fromD(powf(x,y),32))); return Done; });
  #define MATH1F(nm,ex) BDEF(nm) { float x=asD(concretize(s,a[0],0),32); ret.push_back(vc(fromD(ex,32))); return Done; });
  MATH1F("sqrtf",std::sqrt(x)) MATH1F("logf",std::log(x)) MATH1F("log2f",std::log2(x)) MATH1F("log10f",std::log10(x)) MATH1F("expf",std::exp(x)) MATH1F("floorf",std::floor(x)) MATH1F("ceilf",std::ceil(x)) MATH1F("roundf",std::round(x)) MATH1F("truncf",std::trunc(x)) MATH1F("fabsf",std::fabs(x))
  BDEF("pow") { double x=asD(concretize(s,a[0],0),64),y=asD(concretize(s,a[1],0),64); ret.push_back(vc(fromD(std::pow(x,y),64))); return Done; });
  BDEF("fmod") { double x=asD(concretize(s,a[0],0),64),y=asD(concretize(s,a[1],0),64); ret.push_back(vc(fromD(std::fmod(x,y),64))); return Done; });
  BDEF("lround") { double x=asD(concretize(s,a[0],0),64); ret.push_back(vc((u64)std::lround(x))); return Done; });
  BDEF("llround") { double x=asD(concretize(s,a[0],0),64); ret.push_back(vc((u64)std::llround(x))); return Done; });
  // harness interface
  BDEF("hse_input") { string nm=cstr(s,a[0]); int k=s->occ[nm]++; string full=nm+"#"+std::to_string(k); unsigned w=concretize(s,a[1],0); u64 lo=concretize(s,a[2],0),hi=concretize(s,a[3],0);
    unsigned nb=1; while (nb<64 && (hi>>nb)) nb++; if (nb<w && hi<lo) nb=w; Expr *v=mkVar(full+":"+std::to_string(nb)+":"+std::to_string(lo)+":"+std::to_string(hi),nb,lo,hi); Expr *e=mkZExt(v,64); s->inputs.push_back({full,e}); if (nb==1&&lo==hi) e=mkConst(64,lo); ret.push_back(ve(e)); return Done; });
  BDEF("hse_assume") { Expr *c=toE(a[0],32); c=mkNot(mkEq(c,mkConst(32,0))); if (isFalse(c)) { killState(s); return Dead; } if (isTrue(c)) return Done; if (!evalS(s,c)) { MB m; if (sat(s,c,&m)!=1) { killState(s); return Dead; } s->model=m; } s->pc.push_back(c); return Done; });
  BDEF("hse_assert") { string id=cstr(s,a[1]); nAsserts++; assertIds[id]++; Expr *c=mkNot(mkEq(toE(a[0],32),mkConst(32,0))); if (isTrue(c)) return Done;
    if (isFalse(c)) { violation(s,"assert",id); killState(s); return Dead; }
    MB m; Expr *nc=mkNot(c); int r; if (!evalS(s,c)) { r=1; m=s->model; } else r=satAssert(s,nc,&m);
    if (r==1) { violation(s,"assert",id,m); MB m2; if (sat(s,c,&m2)!=1) { killState(s); return Dead; } s->model=m2; s->pc.push_back(c); }
    return Done; });
  BDEF("hse_fail") { string id=cstr(s,a[0]); nAsserts++; assertIds[id]++; violation(s,"assert",id); killState(s); return Dead; });
  BDEF("hse_reach") { reach[cstr(s,a[0])]++; return Done; });
  BDEF("hse_obs") { s->obs.push_back({cstr(s,a[0]),toE(a[1],64),""}); return Done; });
  BDEF("hse_obs_str") { string r; u64 n=concretize(s,a[2],0),p=concretize(s,a[1],0); for (u64 i=0;i<n;i++) r+=(char)evalV(s,load(s,vc(p+i),8)); s->obs.push_back({cstr(s,a[0]),nullptr,r}); return Done; });
  BDEF("hse_param") { string nm=cstr(s,a[0]); auto it=params.find(nm); ret.push_back(it!=params.end()? vc(it->second):a[1]); return Done; });
  BDEF("hse_merge") { s->merge=concretize(s,a[0],0); return Done; });
  BDEF("hse_allow_terminate") { s->allowTerm=concretize(s,a[0],0); return Done; });
  BDEF("hse_concrete") { ret.push_back(vc(concretize(s,a[0],0))); return Done; });
  BDEF("hse_refine") { // a fresh variable for a value that the path condition already bounds
    u64 lo=concretize(s,a[1],0), hi=concretize(s,a[2],0); Expr *x=a[0].e; if (!x || x->w!=64 || x->op==OVar || (x->lo>=lo && x->hi<=hi)) { ret.push_back(a[0]); return Done; }
    { Expr *y=x; while (y->op==OZExt) y=y->k[0]; if (y->lo>=lo&&y->hi<=hi) { ret.push_back(a[0]); return Done; } }
    Expr *out=mkNot(mkAndB(mkBin(OUle,mkConst(64,lo),x),mkBin(OUle,x,mkConst(64,hi)))); if (!isFalse(out)) { MB m; if (sat(s,out,&m)!=0) { ret.push_back(a[0]); return Done; } }
    u64 v=evalS(s,x); string nm="$r"+std::to_string(x->id)+"_"+std::to_string(lo)+"_"+std::to_string(hi); Expr *y=mkVar(nm,64,lo,hi);
    if (y->op==OVar) { Model m=s->model->m; m[y->aux]=v; s->model=newModel(m); } s->pc.push_back(mkEq(y,x)); ret.push_back(ve(y)); return Done; });
  BDEF("hse_digits") { // decimal digits of a value below 10^n, least significant first: fresh variables, determined by the value
    u64 n=concretize(s,a[1],0), out=concretize(s,a[2],0); Expr *x=toE(a[0],64); u64 lim=1; for (u64 i=0;i<n;i++) lim*=10;
    bool ok=n<=19; if (ok) { Expr *o=mkBin(OUle,mkConst(64,lim),x); if (!isFalse(o)) { MB m; if (sat(s,o,&m)!=0) ok=false; } }
    if (!ok) { ret.push_back(vc(0)); return Done; }
    u64 v=evalS(s,x); Expr *h=mkConst(64,0); vector<Expr*> ds(n); Model md=s->model->m; bool upd=false;
    for (u64 i=0;i<n;i++) { Expr *d=mkVar("$d"+std::to_string(x->id)+"_"+std::to_string(n)+"_"+std::to_string(i),8,0,9); if (d->op==OVar) { md[d->aux]=v%10; upd=true; } v/=10; ds[i]=d; store(s,vc(out+i),8,ve(d)); }
    if (upd) s->model=newModel(md);
    for (u64 i=n;i-->0;) h=mkBin(OAdd,mkBin(OMul,h,mkConst(64,10)),mkZExt(ds[i],64));
    Expr *q=mkEq(h,x); if (!isTrue(q)) s->pc.push_back(q); ret.push_back(vc(1)); return Done; });
  BDEF("hse_hint") { if (!a[0].e) { ret.push_back(a[0]); return Done; } Expr *x=a[0].e; while (x->op==OZExt) x=x->k[0]; if (isC(x)) { ret.push_back(a[0]); return Done; } x=mkBar(x); if (x->op==OBar) g_hints.push_back(x); ret.push_back(ve(mkZExt(x,64))); return Done; });
  BDEF("hse_is_engine") { ret.push_back(vc(1)); return Done; });
  BDEF("hse_is_concrete") { ret.push_back(vc(a[0].e?0:1)); return Done; });
  BDEF("hse_sched") { s->delays=concretize(s,a[0],0); s->spurious=concretize(s,a[1],0); return Done; });
  BDEF("hse_end") { endPath(s,"end"); return Dead; });
  BDEF("hse_print") { fprintf(stderr,"[hse] %s %llu%s\n",cstr(s,a[0]).c_str(),(unsigned long long)evalV(s,a[1]),a[1].e?" (symbolic)":""); if (a[1].e && getenv("HSE_SHOW")) fprintf(stderr,"   %s\n",exprStr(a[1].e,6).c_str()); return Done; });
  BDEF("hse_prints") { fprintf(stderr,"[hse] %s ",cstr(s,a[0]).c_str()); u64 n=concretize(s,a[2],0); for (u64 i=0;i<n;i++) fputc((int)evalV(s,load(s,vc(a[1].c+i),8,true)),stderr); fputc('\n',stderr); return Done; });
  BDEF("hse_run_crashable") { State::Snap sn; sn.mem=std::make_shared<Mem>(s->mem); Thread &t=s->th[s->cur]; sn.depth=t.frames.size(); s->snaps.push_back(sn); u64 fa=concretize(s,a[0],0); auto it=funcAt.find(fa); if (it==funcAt.end()) throw Unsup("crashable"); vector<V> args{a[1]}; pushFrame(s,it->second,args,-1,0); return Stay; });
  BDEF("hse_crash") { if (s->snaps.empty()) { violation(s,"harness","crash outside a crashable region"); killState(s); return Dead; } V code=a[0]; size_t d=s->snaps.back().depth; s->cur=0; s->th.resize(1); s->mt=false; s->mtx.clear(); Thread &t=s->th[0]; t.st=T_Run; t.caught.clear();
    while (t.frames.size()>d) { Frame &fr=t.frames.back(); t.allocas.resize(fr.alloca0); t.regs.resize(fr.base); t.frames.pop_back(); }
    while (!s->groups.empty()) leaveGroups(s,s->groups.size()-1);
    restoreSnap(s); Frame &fr=t.frames.back(); Instr &C=fr.f->code[fr.ip]; if (C.dst>=0) t.regs[fr.base+C.dst]=code; CallI &cc=fr.f->calls[C.x]; if (cc.normal>=0) takeEdge(s,cc.normal); else fr.ip++; return Stay; });
  // threads
  BDEF("pthread_create") { u64 fa=concretize(s,a[2],0); auto it=funcAt.find(fa); if (it==funcAt.end()) throw Unsup("pthread_create"); if (s->th.size()>=6) throw Unsup("too many threads");
    if (!s->mt) { s->mt=true; s->th[0].vc[0]=1; }
    int id=s->th.size(); store(s,a[0],64,vc(id+1)); Thread nt; nt.rank=s->th[s->cur].rank; join_vc(nt.vc,s->th[s->cur].vc); nt.vc[id]=1; s->th[s->cur].vc[s->cur]++; s->th.push_back(nt); int me=s->cur; s->cur=id; vector<V> args{a[3]}; pushFrame(s,it->second,args,-1,0); s->cur=me; ret.push_back(vc(0)); return Done; });
  BDEF("pthread_join") { if (!s->mt) { violation(s,"thread","join without thread"); throw DeadEx(); } u64 id=concretize(s,a[0],0)-1; if (id>=s->th.size()) { violation(s,"thread","join of an invalid thread"); throw DeadEx(); } if (!schedPoint(s)) return Stay; Thread &t=s->th[s->cur]; if (s->th[id].st!=T_Done) { t.on=id; t.sched=true; block(s,T_Join); return Stay; } t.st=T_Run; join_vc(t.vc,s->th[id].vc); ret.push_back(vc(0)); return Done; });
  BDEF("pthread_self") { ret.push_back(vc(s->cur+1)); return Done; });
  BDEF("pthread_detach") { ret.push_back(vc(0)); return Done; });
  for (const char *nm:{"pthread_mutex_init","pthread_cond_init","pthread_mutex_destroy","pthread_cond_destroy","pthread_mutexattr_init","pthread_mutexattr_settype","pthread_mutexattr_destroy"}) BDEF(nm) { ret.push_back(vc(0)); return Done; });
  BDEF("pthread_mutex_lock") { u64 m=concretize(s,a[0],0); load(s,vc(m),32,true); if (!schedPoint(s)) return Stay; Mutex &mx=mutexAt(s,m); Thread &t=s->th[s->cur];
    if (mx.owner==s->cur) { violation(s,"deadlock","thread locks a mutex it already holds"); throw DeadEx(); }
    if (mx.owner>=0) { t.mtx=m; t.sched=true; block(s,T_Mutex); return Stay; }
    t.st=T_Run; mx.owner=s->cur; if (s->mt) join_vc(t.vc,mx.vc); ret.push_back(vc(0)); return Done; });
  BDEF("pthread_mutex_trylock") { u64 m=concretize(s,a[0],0); load(s,vc(m),32,true); if (!schedPoint(s)) return Stay; Mutex &mx=mutexAt(s,m); Thread &t=s->th[s->cur]; if (mx.owner>=0) { ret.push_back(vc(16)); return Done; } mx.owner=s->cur; if (s->mt) join_vc(t.vc,mx.vc); ret.push_back(vc(0)); return Done; });
  BDEF("pthread_mutex_unlock") { u64 m=concretize(s,a[0],0); load(s,vc(m),32,true); Mutex &mx=mutexAt(s,m); Thread &t=s->th[s->cur]; if (mx.owner!=s->cur) { violation(s,"thread","unlock of a mutex that is not held"); throw DeadEx(); } mx.owner=-1; if (s->mt) { join_vc(mx.vc,t.vc); t.vc[std::min(s->cur,7)]++; } ret.push_back(vc(0)); return Done; });
  BDEF("pthread_cond_wait") { u64 c=concretize(s,a[0],0),m=concretize(s,a[1],0); load(s,vc(c),32,true); Thread &t=s->th[s->cur]; Mutex &mx=mutexAt(s,m);
    if (t.st==T_Mutex && t.mtx==m && t.on==c) { // signalled: take the mutex again
      if (mx.owner>=0) { block(s,T_Mutex); return Stay; } t.st=T_Run; t.on=0; mx.owner=s->cur; join_vc(t.vc,mx.vc); ret.push_back(vc(0)); return Done; }
    if (mx.owner!=s->cur) { violation(s,"thread","condition wait without holding the mutex"); throw DeadEx(); }
    if (!s->mt) { violation(s,"deadlock","condition wait without other threads"); throw DeadEx(); } if (!schedPoint(s)) return Stay;
    mx.owner=-1; join_vc(mx.vc,t.vc); t.vc[std::min(s->cur,7)]++; t.on=c; t.mtx=m; block(s,T_Cond); return Stay; });
  for (const char *nm:{"pthread_cond_signal","pthread_cond_broadcast"}) { bool all=nm[13]=='b'; biIx[nm]=bis.size(); bis.push_back([all](State *s, CallI &ci, Instr &I, vector<V> &a, vector<V> &ret)->R { u64 c=concretize(s,a[0],0); load(s,vc(c),32,true); if (!schedPoint(s)) return Stay; int n=s->th.size(); for (int k=1;k<n;k++) { int i=(s->cur+k)%n; Thread &t=s->th[i]; if (t.st==T_Cond && t.on==c) { t.st=T_Mutex; if (!all) break; } } ret.push_back(vc(0)); return Done; }); }
  BDEF("hse_sleep") { if (!s->mt) { s->idle++; if (s->idle>40) { violation(s,"hang","the only thread sleeps forever"); throw DeadEx(); } return Done; } Thread &t=s->th[s->cur]; if (t.sched) { t.sched=false; return Done; } t.sched=true; t.st=T_Sleep; schedule(s,true); return Stay; });
  BDEF("hse_rank") { int r=concretize(s,a[0],0); s->th[s->cur].rank=r; toRank(s,r); return Done; });
  BDEF("hse_rank_region") { u64 p=concretize(s,a[0],0), n=concretize(s,a[1],0); State::Region g; g.base=p; g.n=n; for (int i=0;i<4;i++) { u64 o=allocObj(s,n,K_Heap,true); copyRaw(s,o,p,n); g.shadow.push_back(o); } s->regions.push_back(g); return Done; });
  BDEF("hse_progress") { s->idle=0; return Done; });
}
// ------------------------------------------------------------------ output
static string js(const string &x) { string r="\""; for (unsigned char c:x) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static void writeOut(const string &fn, const string &entry) {
  std::ofstream o(fn); o<<"{\n\"entry\":"<<js(entry)<<",\n\"complete\":"<<((incomplete.empty()&&!stopAll)?"true":"false")<<",\n\"incomplete\":["; for (size_t i=0;i<incomplete.size();i++) o<<(i?",":"")<<js(incomplete[i]); o<<"],\n";
  auto ins=[&](const vector<std::pair<string,u64>> &v){ o<<"{"; bool f=true; for (auto &p:v) { o<<(f?"":",")<<js(p.first)<<":"<<p.second; f=false; } o<<"}"; };
  auto sch=[&](const vector<std::pair<int,int>> &v){ o<<"["; bool f=true; for (auto &p:v) { o<<(f?"":",")<<"["<<p.first<<","<<p.second<<"]"; f=false; } o<<"]"; };
  o<<"\"violations\":["; for (size_t i=0;i<viols.size();i++) { auto &v=viols[i]; o<<(i?",":"")<<"\n{\"kind\":"<<js(v.kind)<<",\"msg\":"<<js(v.msg)<<",\"loc\":"<<js(v.loc)<<",\"stack\":"<<js(v.stack)<<",\"inputs\":"; ins(v.inputs); o<<",\"sched\":"; sch(v.sched); o<<"}"; } o<<"],\n";
  o<<"\"tests\":["; for (size_t i=0;i<tests.size();i++) { auto &v=tests[i]; o<<(i?",":"")<<"\n{\"end\":"<<js(v.end)<<",\"inputs\":"; ins(v.inputs); o<<",\"sched\":"; sch(v.sched); o<<",\"obs\":["; for (size_t k=0;k<v.obs.size();k++) o<<(k?",":"")<<"["<<js(v.obs[k].first)<<","<<js(v.obs[k].second)<<"]"; o<<"]}"; } o<<"],\n";
  auto mp=[&](const char *n, std::map<string,u64> &m){ o<<"\""<<n<<"\":{"; bool f=true; for (auto &p:m) { o<<(f?"":",")<<js(p.first)<<":"<<p.second; f=false; } o<<"},\n"; };
  mp("reach",reach); mp("asserts",assertIds); mp("terminations",termEvents); 
  std::map<string,std::set<unsigned>> lines; std::map<string,std::set<string>> fns; std::map<string,u64> total;
  for (auto &p:g_funcs) if (p.second->ready) for (auto &I:p.second->code) if (I.hit) for (const DILocation *L=I.I->getDebugLoc().get();L;L=L->getInlinedAt()) { string f=L->getFilename().str(); if (f.rfind("/repo/",0)==0) { if (L->getLine()) lines[f].insert(L->getLine()); auto *SP=L->getScope()->getSubprogram(); fns[f].insert(SP->getName().str()); } }
  o<<"\"functions\":{"; bool f=true; for (auto &p:fns) { o<<(f?"":",")<<js(p.first)<<":["; bool g=true; for (auto &q:p.second) { o<<(g?"":",")<<js(q); g=false; } o<<"]"; f=false; } o<<"},\n";
  o<<"\"lines\":{"; f=true; for (auto &p:lines) { o<<(f?"":",")<<js(p.first)<<":["; bool g=true; for (auto q:p.second) { o<<(g?"":",")<<q; g=false; } o<<"]"; f=false; } o<<"},\n";
  o<<"\"paths\":"<<nPaths<<",\"states\":"<<nStates<<",\"forks\":"<<nForks<<",\"merges\":"<<nMerges<<",\"steps\":"<<nSteps<<",\"sched_points\":"<<nSchedPts<<",\"asserts_checked\":"<<nAsserts<<",\n\"queries\":"<<S->queries<<",\"sat\":"<<S->sat<<",\"unsat\":"<<S->unsat<<",\"unknown\":"<<S->unknown<<",\"hard\":"<<S->hard<<",\"sweep_proved\":"<<g_sweep.proved<<",\"sweep_queries\":"<<g_sweep.queries<<",\"sweep_merged\":"<<g_sweep.merged<<",\"solver_s\":"<<S->secs+g_sweep.secs<<",\"exprs\":"<<g_nexprs<<",\"vars\":"<<g_vars.size()<<",\"wall_s\":"<<(now()-t_start)<<"}\n";
}
static int realMain(int argc, char **argv) {
  string bc, entry="harness", out="/dev/stdout"; S=new Solver; t_start=now();
  for (int i=1;i<argc;i++) { string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if (a=="--entry") entry=nx(); else if (a=="--out") out=nx(); else if (a=="--max-viol") optMaxViol=std::stoull(nx()); else if (a=="--tests") optTests=std::stoull(nx()); else if (a=="--steps") optSteps=std::stoull(nx()); else if (a=="--time") optTime=std::stoull(nx()); else if (a=="--trace") optTrace=true;
    else if (a=="--inc-timeout") S->inc_timeout_ms=std::stoul(nx()); else if (a=="--hard-timeout") S->hard_timeout_ms=std::stoul(nx());
    else if (a=="--arg") { string q=nx(); size_t e=q.find('='); params[q.substr(0,e)]=std::stoull(q.substr(e+1)); } else bc=a; }
  SMDiagnostic err; M=parseIRFile(bc,err,Ctx); if (!M) { err.print("hse",errs()); return 3; }
  g_DL=&M->getDataLayout(); initBuiltins();
  State *s=new State; s->model=newModel(Model()); s->stepLimit=optSteps; s->th.resize(1); 
  for (auto &F:*M) addrOfGlobal(&F);
  for (auto &G:M->globals()) { u64 a=addrOfGlobal(&G); u64 sz=G.getValueType()->isSized()? g_DL->getTypeAllocSize(G.getValueType()).getFixedValue():64; if (G.isDeclaration()) sz=std::max<u64>(sz,256); gvarAt[a>>ASH]=&G; Obj *o=newObj(sz,K_Global); memset(o->data,0,sz); s->mem.put(a>>ASH,o); }
  for (auto &G:M->globals()) if (G.hasInitializer()) { Obj *o=s->mem.getW(addrOfGlobal(&G)>>ASH); try { initGlobalMem(o,G.getInitializer(),0); } catch (Unsup &u) { note("global initialiser: "+u.msg); } if (G.isConstant()) o->kind=K_Const; }
  for (auto &F:*M) { Obj *o=newObj(0,K_Func); s->mem.put(addrOfGlobal(&F)>>ASH,o); }
  // order of execution: constructors, then the entry
  vector<Function*> order; if (auto *G=M->getGlobalVariable("llvm.global_ctors")) if (auto *A=dyn_cast<ConstantArray>(G->getInitializer())) { vector<std::pair<u64,Function*>> v; for (auto &op:A->operands()) { auto *CS=cast<ConstantStruct>(op); v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(),dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(),v.end(),[](auto&x,auto&y){return x.first<y.first;}); for (auto &p:v) if (p.second) order.push_back(p.second); }
  Function *E=M->getFunction(entry); if (!E||E->isDeclaration()) { fprintf(stderr,"hse: no entry %s\n",entry.c_str()); return 3; }
  // a driver function that calls everything in order
  Function *D=Function::Create(FunctionType::get(Type::getVoidTy(Ctx),false),GlobalValue::ExternalLinkage,"hse.driver",M.get()); BasicBlock *B=BasicBlock::Create(Ctx,"b",D); for (auto *F:order) CallInst::Create(F->getFunctionType(),F,{},"",B); CallInst::Create(E->getFunctionType(),E,{},"",B); ReturnInst::Create(Ctx,B);
  pushFrame(s,getFunc(D),{},-1,0); work.push_back(s);
  while (!work.empty() && !stopAll) { State *x=work.back(); work.pop_back(); execState(x); }
  writeOut(out,entry);
  if (g_forkprof) printForks();
  fprintf(stderr,"hse %s: %s paths=%llu forks=%llu merges=%llu steps=%llu queries=%llu (sat %llu unsat %llu unknown %llu hard %llu) solver=%.1fs wall=%.1fs viol=%zu\n",entry.c_str(),(incomplete.empty()&&!stopAll)?"complete":"INCOMPLETE",(unsigned long long)nPaths,(unsigned long long)nForks,(unsigned long long)nMerges,(unsigned long long)nSteps,(unsigned long long)S->queries,(unsigned long long)S->sat,(unsigned long long)S->unsat,(unsigned long long)S->unknown,(unsigned long long)S->hard,S->secs,now()-t_start,viols.size());
  for (auto &m:incomplete) fprintf(stderr,"  incomplete: %s\n",m.c_str());
  fflush(0); _exit(viols.empty()?0:1);
}
#include <pthread.h>
int main(int argc, char **argv) {
  static int ac; static char **av; static int rc; ac=argc; av=argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,2ull<<30); pthread_t t;
  pthread_create(&t,&at,[](void*)->void*{ try { rc=realMain(ac,av); } catch (std::exception &e) { fprintf(stderr,"hse: internal error: %s\n",e.what()); rc=4; } catch (z3::exception &e) { fprintf(stderr,"hse: z3: %s\n",e.msg()); rc=4; } catch (Unsup &u) { fprintf(stderr,"hse: unsupported: %s\n",u.msg.c_str()); rc=4; } return nullptr; },nullptr); pthread_join(t,nullptr); return rc;
}
