// In-memory file system and its POSIX face.
#include <hse_api.h>
#include <hse_fs.h>
#include <string.h>
#include <errno.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
extern "C" {
FsmState hse_persist_fs={0,0,0,0,{{2,0,"/cwd",""},{2,0,"/tmp",""}}};
// Each state-changing operation is a point at which the process may be killed
// (crash_at == operation number; a write then leaves an arbitrary prefix) or,
// for data writes, the device may be full (fail_at == operation number).
static int op_begin() { return ++hse_persist_fs.nops; }
struct Norm { char s[FSM_NAME]; int bad; Norm(const char *p) { int n=0; bad=!p[0]; if (p[0]!='/') { const char *c="/cwd"; while (*c) s[n++]=*c++; }
    for (int i=0;p[i];) { while (p[i]=='/') i++; if (!p[i]) break; int j=i; while (p[j] && p[j]!='/') j++; if (j-i==1 && p[i]=='.') { i=j; continue; } if (n+(j-i)+2>FSM_NAME) { bad=1; break; } s[n++]='/'; while (i<j) s[n++]=p[i++]; }
    if (!n) s[n++]='/'; s[n]=0; } };
static int lk(const char *path) { if (path[0]=='/'&&!path[1]) return -2; for (int i=0;i<FSM_MAXF;i++) if (hse_persist_fs.f[i].kind && !strcmp(hse_persist_fs.f[i].name,path)) return i; return -1; }
int fsm_lookup(const char *path) { Norm n(path); return n.bad? -1 : lk(n.s); }
static int parent_ok(const char *path) { char d[FSM_NAME]; int n=-1; for (int i=0;path[i];i++) if (path[i]=='/') n=i; if (n<=0) return 1; for (int i=0;i<n;i++) d[i]=path[i]; d[n]=0; int k=lk(d); return k>=0 && hse_persist_fs.f[k].kind==2; }
static int newent(const char *path, int kind) { if (!path[0] || !parent_ok(path) || strlen(path)>=FSM_NAME) { errno=ENOENT; return -1; } for (int i=0;i<FSM_MAXF;i++) if (!hse_persist_fs.f[i].kind) { strcpy(hse_persist_fs.f[i].name,path); hse_persist_fs.f[i].kind=kind; hse_persist_fs.f[i].len=0; return i; } hse_fail("model: file table full"); return -1; }
int fsm_create(const char *path0, int trunc, int excl) {
  Norm nm(path0); if (nm.bad) { errno=ENOENT; return -1; } const char *path=nm.s;
  int i=lk(path);
  if (i>=0) { if (hse_persist_fs.f[i].kind==2) { errno=EISDIR; return -1; } if (excl) { errno=EEXIST; return -1; } if (trunc) { if (op_begin()==hse_persist_fs.crash_at) hse_crash(1); hse_persist_fs.f[i].len=0; } return i; }
  if (op_begin()==hse_persist_fs.crash_at) hse_crash(1);
  if (hse_persist_fs.nops==hse_persist_fs.fail_at) { hse_persist_fs.ndata_fail++; errno=ENOSPC; return -1; }
  return newent(path,1);
}
static void put(int ino, const char *p, size_t n, size_t off) { FsmFile &f=hse_persist_fs.f[ino]; if (off+n>FSM_DATA) { hse_fail("model: file too long"); return; } for (size_t i=f.len;i<off;i++) f.data[i]=0; for (size_t i=0;i<n;i++) f.data[off+i]=p[i]; if (off+n>f.len) f.len=off+n; }
long fsm_write(int ino, const char *p, size_t n, size_t off) {
  int k=op_begin();
  if (k==hse_persist_fs.crash_at) { size_t m=hse_concrete(hse_input("torn",8,0,2)); m = m==0? 0 : m==1? n/2 : n-1; put(ino,p,m,off); hse_crash(1); }
  if (k==hse_persist_fs.fail_at || (hse_persist_fs.fail_at && hse_persist_fs.ndata_fail && hse_param("fail_sticky",1))) { hse_persist_fs.ndata_fail++; errno=ENOSPC; size_t m= hse_persist_fs.ndata_fail==1 && hse_concrete(hse_input("short",8,0,1))? n/2 : 0; if (m) { put(ino,p,m,off); return m; } return -1; }
  put(ino,p,n,off); return n;
}
int fsm_rename(const char *a, const char *b0) { int i=fsm_lookup(a); Norm nb(b0); const char *b=nb.s; if (nb.bad) { errno=ENOENT; return -1; } if (i<0) { errno=ENOENT; return -1; } if (!parent_ok(b)) { errno=ENOENT; return -1; } if (op_begin()==hse_persist_fs.crash_at) hse_crash(1); int j=lk(b); if (j==i) return 0; if (j>=0) { if (hse_persist_fs.f[j].kind==2) { errno=EISDIR; return -1; } hse_persist_fs.f[j].kind=0; } strcpy(hse_persist_fs.f[i].name,b); return 0; }
int fsm_unlink(const char *p) { int i=fsm_lookup(p); if (i<0) { errno=ENOENT; return -1; } if (op_begin()==hse_persist_fs.crash_at) hse_crash(1); hse_persist_fs.f[i].kind=0; return 0; }
int fsm_mkdir(const char *p0) { Norm nm(p0); const char *p=nm.s; if (nm.bad) { errno=ENOENT; return -1; } if (fsm_lookup(p)>=0) { errno=EEXIST; return -1; } if (op_begin()==hse_persist_fs.crash_at) hse_crash(1); return newent(p,2)<0? -1 : 0; }
// POSIX face
static struct { int used, ino, fl; size_t off; } fds[8];
int open(const char *p, int fl, ...) { int w=fl&3, ino; if (w==O_RDONLY) { ino=fsm_lookup(p); if (ino<0) { errno=ENOENT; return -1; } } else if (fl&O_CREAT) ino=fsm_create(p,(fl&O_TRUNC)!=0,(fl&O_EXCL)!=0); else { ino=fsm_lookup(p); if (ino>=0 && (fl&O_TRUNC)) ino=fsm_create(p,1,0); }
  if (ino<0) return -1; for (int i=0;i<8;i++) if (!fds[i].used) { fds[i]={1,ino,fl,(fl&O_APPEND)?hse_persist_fs.f[ino].len:0}; return i+3; } return -1; }
int open64(const char *p, int fl, ...) { return open(p,fl,0666); }
int creat(const char *p, mode_t) { return open(p,O_WRONLY|O_CREAT|O_TRUNC,0666); }
static bool bad(int fd) { return fd<3 || fd>=11 || !fds[fd-3].used; }
ssize_t write(int fd, const void *b, size_t n) { if (bad(fd)) { errno=EBADF; return -1; } auto &d=fds[fd-3]; long k=fsm_write(d.ino,(const char*)b,n,d.off); if (k>0) d.off+=k; return k; }
ssize_t read(int fd, void *b, size_t n) { if (bad(fd)) { errno=EBADF; return -1; } auto &d=fds[fd-3]; size_t i=0; for (;i<n && d.off<hse_persist_fs.f[d.ino].len;i++) ((char*)b)[i]=hse_persist_fs.f[d.ino].data[d.off++]; return i; }
int close(int fd) { if (bad(fd)) { errno=EBADF; return -1; } fds[fd-3].used=0; return 0; }
int fsync(int fd) { return bad(fd)? -1 : 0; } int fdatasync(int fd) { return bad(fd)? -1 : 0; } void sync() {}
int rename(const char *a, const char *b) { return fsm_rename(a,b); } int unlink(const char *p) { return fsm_unlink(p); } int remove(const char *p) { return fsm_unlink(p); } int mkdir(const char *p, mode_t) { return fsm_mkdir(p); }
int access(const char *p, int) { if (fsm_lookup(p)>=0) return 0; errno=ENOENT; return -1; }
}
