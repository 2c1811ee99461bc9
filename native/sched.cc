// Replays a schedule: one thread runs at a time, and changes hands at the same
// points and by the same rule as in the symbolic executor (engine/hse.cc).
// Batons are futexes, invisible to the sanitizers, so that accesses which only
// the baton orders are still races to them.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <hse_api.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <vector>
#include <dlfcn.h>
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
extern std::map<int,int> hse_sched_script; extern int hse_delays, hse_spurious;
enum St { Run, Mutex, Cond, Join, Sleep, Done };
struct Th { int st; void *mtx, *cond; int join; volatile int baton; pthread_t real; void *(*fn)(void*); void *arg; int rank; };
enum { MAXT=8, MAXM=4096 };
static Th th[MAXT]; static int n, cur, npoints, idle_, idler=-1, on; static __thread int me_;
static struct { void *m; int owner; } mx[MAXM]; static int nm;
static int &owner(void *m) { for (int i=0;i<nm;i++) if (mx[i].m==m) return mx[i].owner; if (nm==MAXM) _exit(79); mx[nm].m=m; mx[nm].owner=-1; return mx[nm++].owner; }
template<class F> static F real(const char *s) { static std::map<const char*,void*> *c; return (F)dlsym(RTLD_NEXT,s); }
static bool mine(void *ra) { Dl_info i; if (!on || !dladdr(ra,&i)) return false; return i.dli_fbase && (strstr(i.dli_fname,"libstdc++") || !strstr(i.dli_fname,".so")); }
static bool enabled(int i) { Th &t=th[i]; switch (t.st) { case Run: case Sleep: return true; case Done: case Cond: return false; case Mutex: return owner(t.mtx)<0; case Join: return th[t.join].st==Done; } return false; }
static void hang(const char *w) { fprintf(stderr,"HSE-HANG %s:",w); static const char *nmz[]={"running","waits for a mutex","waits for a condition","joins","sleeps","ended"}; for (int i=0;i<n;i++) fprintf(stderr," thread %d %s;",i,nmz[th[i].st]); fprintf(stderr,"\n"); fflush(0); _exit(75); }
static void give(int i) { th[i].baton=1; syscall(SYS_futex,&th[i].baton,FUTEX_WAKE,1,0,0,0); }
static void await(int i) { while (!th[i].baton) syscall(SYS_futex,&th[i].baton,FUTEX_WAIT,0,0,0,0); th[i].baton=0; }
static struct { char *p; size_t n; char *s[4]; } reg[16]; static int nreg, rank_;
__attribute__((no_sanitize("address"))) static void cp(char *d, const char *f, size_t n) { for (size_t i=0;i<n;i++) { d[i]=f[i]; __asm__ volatile("" ::: "memory"); } }
static void toRank(int r) { if (r==rank_) return; for (int i=0;i<nreg;i++) { cp(reg[i].s[rank_],reg[i].p,reg[i].n); cp(reg[i].p,reg[i].s[r],reg[i].n); } rank_=r; }
// chooses who runs next and hands over; returns when the caller runs again
static void schedule(bool blocked) {
  int me=cur, o[32], k=0; auto add=[&](int i){ for (int j=0;j<k;j++) if (o[j]==i) return; o[k++]=i; };
  if (!blocked && th[me].st==Run) add(me);
  for (int d=1;d<=n;d++) { int i=(me+d)%n; if (th[i].st!=Sleep && enabled(i) && !(blocked && i==me && th[i].st==Run)) add(i); }
  for (int d=1;d<=n;d++) { int i=(me+d)%n; if (th[i].st==Sleep) add(i); }
  int fs=k;
  if (hse_spurious>0) for (int d=0;d<n;d++) { int i=(me+d)%n; if (th[i].st==Cond && owner(th[i].mtx)<0) add(i); }
  int point=npoints++;
  if (!fs) hang("deadlock"); if (idle_>40) hang("no progress");
  auto it=hse_sched_script.find(point); int c= it==hse_sched_script.end()? o[0] : it->second; bool ok=false; for (int j=0;j<k;j++) ok|=o[j]==c;
  if (!ok) { fprintf(stderr,"HSE-MODEL thread %d cannot run at point %d\n",c,point); fflush(0); _exit(79); }
  Th &t=th[c];
  if (t.st==Sleep) { bool other=false; for (int j=0;j<n;j++) if (j!=c && th[j].st!=Sleep && enabled(j)) other=true; if (!other) { idle_++; idler=c; } t.st=Run; } else { if (c!=idler) idle_=0; if (t.st==Cond) { t.st=Mutex; hse_spurious--; } }
  if (c==me) { cur=c; return; }
  bool done=th[me].st==Done; cur=c; toRank(t.rank); give(c); if (done) return; await(me);
}
static void *tramp(void *p) { int i=(int)(long)p; me_=i; await(i); void *r=th[i].fn(th[i].arg); th[i].st=Done; schedule(true); return r; }
static void lock(void *m) { Th &t=th[cur]; while (owner(m)>=0) { if (owner(m)==cur) hang("locks a mutex it already holds"); t.mtx=m; t.st=Mutex; schedule(true); } t.st=Run; owner(m)=cur; real<int(*)(void*)>("pthread_mutex_lock")(m); }
extern "C" {
void hse_sched_enable(int) { on=1; if (!n) { n=1; th[0].st=Run; } }
int pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*f)(void*), void *arg) {
  if (!mine(__builtin_return_address(0))) return real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create")(id,a,f,arg);
  if (n>=MAXT) _exit(79); int i=n++; th[i].st=Run; th[i].rank=th[cur].rank; th[i].fn=f; th[i].arg=arg; th[i].baton=0;
  int r=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create")(id,a,tramp,(void*)(long)i); th[i].real=*id; return r; }
int pthread_join(pthread_t id, void **r) {
  if (!mine(__builtin_return_address(0))) return real<int(*)(pthread_t,void**)>("pthread_join")(id,r);
  int i=n-1; while (i>0 && !pthread_equal(th[i].real,id)) i--; if (i<=0) return ESRCH;
  schedule(false); if (th[i].st!=Done) { th[cur].st=Join; th[cur].join=i; schedule(true); } th[cur].st=Run;
  return real<int(*)(pthread_t,void**)>("pthread_join")(id,r); }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on || n<2 || !mine(__builtin_return_address(0))) { int r=real<int(*)(void*)>("pthread_mutex_lock")(m); if (on && mine(__builtin_return_address(0))) owner(m)=cur; return r; } schedule(false); lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!on || !mine(__builtin_return_address(0))) return real<int(*)(void*)>("pthread_mutex_trylock")(m); if (n>1) schedule(false); if (owner(m)>=0) return EBUSY; owner(m)=cur; return real<int(*)(void*)>("pthread_mutex_trylock")(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (on && mine(__builtin_return_address(0))) { if (owner(m)!=cur) { fprintf(stderr,"HSE-ASSERT unlock of a mutex that is not held\n"); _exit(77); } owner(m)=-1; } return real<int(*)(void*)>("pthread_mutex_unlock")(m); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!mine(__builtin_return_address(0))) return real<int(*)(void*,void*)>("pthread_cond_wait")(c,m);
  if (n<2) hang("condition wait without other threads"); if (owner(m)!=cur) { fprintf(stderr,"HSE-ASSERT condition wait without holding the mutex\n"); _exit(77); }
  schedule(false);
  owner(m)=-1; real<int(*)(void*)>("pthread_mutex_unlock")(m); Th &t=th[cur]; t.cond=c; t.mtx=m; t.st=Cond; schedule(true);
  t.cond=0; while (owner(m)>=0) { t.st=Mutex; schedule(true); } t.st=Run; owner(m)=cur; real<int(*)(void*)>("pthread_mutex_lock")(m); return 0; }
static void wake(void *c, bool all) { if (n>1) schedule(false); for (int k=1;k<n;k++) { Th &t=th[(cur+k)%n]; if (t.st==Cond && t.cond==c) { t.st=Mutex; if (!all) break; } } }
int pthread_cond_signal(pthread_cond_t *c) { if (!mine(__builtin_return_address(0))) return real<int(*)(void*)>("pthread_cond_signal")(c); wake(c,false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!mine(__builtin_return_address(0))) return real<int(*)(void*)>("pthread_cond_broadcast")(c); wake(c,true); return 0; }
static void nap(void) { if (n<2) { if (++idle_>40) hang("sleeps forever"); return; } th[cur].st=Sleep; schedule(true); }
void hse_sleep(void) { if (on) nap(); else usleep(1000); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!mine(__builtin_return_address(0))) return real<int(*)(const void*,void*)>("nanosleep")(a,b); nap(); return 0; }
int clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) { if (!mine(__builtin_return_address(0))) return real<int(*)(clockid_t,int,const void*,void*)>("clock_nanosleep")(k,f,a,b); nap(); return 0; }
int usleep(useconds_t u) { if (!mine(__builtin_return_address(0))) return real<int(*)(useconds_t)>("usleep")(u); nap(); return 0; }
int sched_yield(void) { if (!mine(__builtin_return_address(0))) return real<int(*)()>("sched_yield")(); nap(); return 0; }
static long ticks;
int clock_gettime(clockid_t k, struct timespec *t) { if (!on || !mine(__builtin_return_address(0))) return real<int(*)(clockid_t,struct timespec*)>("clock_gettime")(k,t); long m=hse_param("clock_step",0)*++ticks; t->tv_sec=1700000000+m/1000; t->tv_nsec=(m%1000)*1000000; return 0; }
void hse_progress(void) { idle_=0; }
void hse_rank(int r) { th[cur].rank=r; toRank(r); }
void hse_rank_region(void *p, size_t n) { if (nreg==16) _exit(79); reg[nreg].p=(char*)p; reg[nreg].n=n; for (auto &x : reg[nreg].s) { x=(char*)malloc(n); cp(x,(char*)p,n); } nreg++; }
}
