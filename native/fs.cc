// Counts the operations that change files by the same rule as models/rt_fs.cc,
// ends the process at, or fails, a chosen one; replays random_device.
#include <hse_api.h>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <set>
#include <random>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/mman.h>
static int armed, nops, crash_at, fail_at, nfail; static std::set<int> *fds; static int *draws;
template<class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT,n); }
static bool there(const char *p) { struct stat s; return stat(p,&s)==0; }
static bool track(int fd) { if (!fds) fds=new std::set<int>; return fd>=0 && fds->insert(fd).second; }
static bool ours(int fd) { return armed && fds && fds->count(fd); }
static bool create(const char *p, bool trunc) { // false: fails
  if (!armed) return true; bool ex=there(p); if (ex && !trunc) return true;
  ++nops; if (nops==crash_at) hse_crash(1);
  if (!ex && nops==fail_at) { nfail++; errno=ENOSPC; return false; } return true; }
static ssize_t rawwrite(int fd, const char *b, size_t n) { size_t d=0; while (d<n) { ssize_t k=real<ssize_t(*)(int,const void*,size_t)>("write")(fd,b+d,n-d); if (k<=0) return k; d+=k; } return n; }
static ssize_t dowrite(int fd, const char *b, size_t n) {
  int k=++nops;
  if (k==crash_at) { size_t m=hse_input("torn",8,0,2); m = m==0? 0 : m==1? n/2 : n-1; rawwrite(fd,b,m); hse_crash(1); }
  if (k==fail_at || (fail_at && nfail && hse_param("fail_sticky",1))) { nfail++; errno=ENOSPC; size_t m= nfail==1 && hse_input("short",8,0,1)? n/2 : 0; if (m) return rawwrite(fd,b,m); return -1; }
  return rawwrite(fd,b,n); }
static bool step() { if (armed) { ++nops; if (nops==crash_at) hse_crash(1); } return true; }
extern "C" {
void hse_fs_arm(int c, int f) { armed=1; nops=0; nfail=0; crash_at=c; fail_at=f; }
void hse_fs_disarm(void) { armed=0; }
int hse_fs_failed(void) { return nfail; }
static FILE *fop(const char *sym, const char *p, const char *m) { bool w=strpbrk(m,"wa+")!=0; if (w && m[0]!='r' && !create(p,m[0]=='w')) return 0; FILE *f=real<FILE*(*)(const char*,const char*)>(sym)(p,m); if (f && w && armed) track(fileno(f)); return f; }
FILE *fopen(const char *p, const char *m) { return fop("fopen",p,m); }
FILE *fopen64(const char *p, const char *m) { return fop("fopen64",p,m); }
static int op(const char *sym, const char *p, int fl, int mode) { bool w=(fl&3)!=O_RDONLY; if (w && (fl&O_CREAT) && !create(p,fl&O_TRUNC)) return -1; int fd=real<int(*)(const char*,int,...)>(sym)(p,fl,mode); if (w && armed) track(fd); return fd; }
int open(const char *p, int fl, ...) { va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return op("open",p,fl,m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return op("open64",p,fl,m); }
ssize_t write(int fd, const void *b, size_t n) { return ours(fd)? dowrite(fd,(const char*)b,n) : real<ssize_t(*)(int,const void*,size_t)>("write")(fd,b,n); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (!ours(fd)) return real<ssize_t(*)(int,const struct iovec*,int)>("writev")(fd,v,c); std::string s; for (int i=0;i<c;i++) s.append((char*)v[i].iov_base,v[i].iov_len); return dowrite(fd,s.data(),s.size()); }
int close(int fd) { if (fds) fds->erase(fd); return real<int(*)(int)>("close")(fd); }
int fclose(FILE *f) { if (fds) fds->erase(fileno(f)); return real<int(*)(FILE*)>("fclose")(f); }
int rename(const char *a, const char *b) { if (there(a)) step(); return real<int(*)(const char*,const char*)>("rename")(a,b); }
int unlink(const char *p) { if (there(p)) step(); return real<int(*)(const char*)>("unlink")(p); }
int remove(const char *p) { if (there(p)) step(); return real<int(*)(const char*)>("remove")(p); }
int mkdir(const char *p, mode_t m) { if (!there(p)) step(); return real<int(*)(const char*,mode_t)>("mkdir")(p,m); }
}
namespace std { random_device::result_type random_device::_M_getval() {
  if (!draws) { draws=(int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
  unsigned i=(*draws)++; return i<hse_param("random_draws",0)? (unsigned)hse_input(i==0?"random_0":i==1?"random_1":i==2?"random_2":i==3?"random_3":i==4?"random_4":i==5?"random_5":"random_6",32,0,hse_param("random_max",0)) : 1000+i; } }
__attribute__((constructor)) static void first() { draws=(int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
