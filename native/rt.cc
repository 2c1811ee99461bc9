// Runs a harness against the real code with the inputs of one model.
// HSE_IN: lines "i name value", "p name value", "s index thread". HSE_OBS: where observations go.
#include <hse_api.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <execinfo.h>
static std::map<std::string,uint64_t> ins, prm; static std::map<std::string,int> cnt; static FILE *obsf; static int allowTerm;
std::map<int,int> hse_sched_script; int hse_delays, hse_spurious;
static int died(const char *what, const char *id) { fprintf(stderr,"HSE-%s %s\n",what,id); fflush(0); return 77; }
extern "C" {
uint64_t hse_input(const char *name, unsigned bits, uint64_t lo, uint64_t hi) {
  std::string f=std::string(name)+"#"+std::to_string(cnt[name]++); auto it=ins.find(f); uint64_t v= it==ins.end()? lo : it->second; if (v<lo||v>hi) v=lo; return v; }
void hse_assume(int c) { if (!c) { fprintf(stderr,"HSE-ASSUME failed\n"); fflush(0); _exit(78); } }
void hse_assert(int c, const char *id) { if (!c) _exit(died("ASSERT",id)); }
void hse_fail(const char *id) { if (!strncmp(id,"model:",6)) { fprintf(stderr,"HSE-MODEL %s\n",id); _exit(79); } _exit(died("ASSERT",id)); }
void hse_reach(const char *) {}
void hse_obs(const char *n, uint64_t v) { if (obsf) { fprintf(obsf,"%s %llu\n",n,(unsigned long long)v); fflush(obsf); } }
void hse_obs_str(const char *n, const void *p, size_t k) { if (obsf) { fprintf(obsf,"%s ",n); for (size_t i=0;i<k;i++) fprintf(obsf,"%02x",((const unsigned char*)p)[i]); fprintf(obsf,"\n"); fflush(obsf); } }
uint64_t hse_param(const char *n, uint64_t d) { auto it=prm.find(n); return it==prm.end()? d : it->second; }
void hse_merge(int) {}
void hse_allow_terminate(int on) { allowTerm=on; }
uint64_t hse_concrete(uint64_t v) { return v; }
uint64_t hse_refine(uint64_t v, uint64_t, uint64_t) { return v; }
uint64_t hse_hint(uint64_t v) { return v; }
int hse_digits(uint64_t v, unsigned n, unsigned char *o) { for (unsigned i=0;i<n;i++) { o[i]=v%10; v/=10; } return 1; }
int hse_is_concrete(uint64_t) { return 1; }
int hse_is_engine(void) { return 0; }
__attribute__((weak)) void hse_sched_enable(int) {}
void hse_sched(int d, int s) { hse_delays=d; hse_spurious=s; hse_sched_enable(d>0||s>0||1); }
void hse_end(void) { fflush(0); _exit(0); }
void hse_print(const char *n, uint64_t v) { fprintf(stderr,"%s=%llu\n",n,(unsigned long long)v); }
void hse_prints(const char *s) { fprintf(stderr,"%s\n",s); }
static int *crashCode;
int hse_run_crashable(void (*fn)(void*), void *arg) {
  if (!crashCode) crashCode=(int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  fflush(0); *crashCode=0; pid_t p=fork();
  if (!p) { fn(arg); fflush(0); _exit(0); }
  int st; while (waitpid(p,&st,0)<0); if (*crashCode) return *crashCode;
  if (WIFEXITED(st)) { if (WEXITSTATUS(st)==0) return 0; _exit(WEXITSTATUS(st)); }
  fprintf(stderr,"HSE-SIGNAL %d\n",WTERMSIG(st)); _exit(76); }
void hse_crash(int code) { if (crashCode) *crashCode=code; _exit(0); }
__attribute__((weak)) void hse_sleep(void) { usleep(1000); }
__attribute__((weak)) void hse_progress(void) {}
void HSE_ENTRY(void);
}
int main() {
  if (const char *f=getenv("HSE_IN")) { FILE *h=fopen(f,"r"); char k; char nm[512]; unsigned long long v; char line[1024]; if (h) { while (fgets(line,sizeof line,h)) { if (sscanf(line,"%c %511s %llu",&k,nm,&v)!=3) continue; if (k=='i') ins[nm]=v; else if (k=='p') prm[nm]=v; else if (k=='s') hse_sched_script[atoi(nm)]=(int)v; } fclose(h); } }
  if (const char *f=getenv("HSE_OBS")) obsf=fopen(f,"w");
  HSE_ENTRY(); if (obsf) { fprintf(obsf,"$end 0\n"); fclose(obsf); } fflush(0); _exit(0); }
