// Model of the C library functions the code may reach (locale "C").
#define _GNU_SOURCE
#include <stddef.h>
#define __NO_CTYPE
#include <string.h>
void *malloc(size_t); void free(void*);
#include <stdio.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#include <ctype.h>
#include <hse_api.h>

int strcmp(const char *a, const char *b) { while (*a && *a==*b) { ++a; ++b; } return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n,++a,++b) { if (*a!=*b) return (unsigned char)*a-(unsigned char)*b; if (!*a) return 0; } return 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s=(const unsigned char*)p; for (; n; --n,++s) if (*s==(unsigned char)c) return (void*)s; return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r=0; for (;; ++s) { if (*s==(char)c) r=(char*)s; if (!*s) return r; } }
char *strcpy(char *d, const char *s) { char *r=d; while ((*d++=*s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i=0; for (; i<n && s[i]; i++) d[i]=s[i]; for (; i<n; i++) d[i]=0; return d; }
char *strcat(char *d, const char *s) { strcpy(d+strlen(d),s); return d; }
char *strdup(const char *s) { size_t n=strlen(s)+1; char *r=(char*)malloc(n); memcpy(r,s,n); return r; }
static unsigned long su(const char *s, char **e, int base, int *neg, int *any) {
  while (*s==' '||(*s>=9&&*s<=13)) ++s; *neg=0; if (*s=='-'||*s=='+') *neg=*s++=='-';
  if ((base==0||base==16) && s[0]=='0' && (s[1]=='x'||s[1]=='X')) { s+=2; base=16; } else if (base==0) base= *s=='0'? 8 : 10;
  unsigned long v=0; *any=0; int over=0;
  for (;; ++s) { unsigned d; if (*s>='0'&&*s<='9') d=*s-'0'; else if (*s>='a'&&*s<='z') d=*s-'a'+10; else if (*s>='A'&&*s<='Z') d=*s-'A'+10; else break; if (d>=(unsigned)base) break; if (v>(~0UL-d)/base) over=1; else v=v*base+d; *any=1; }
  if (e) *e=(char*)s; if (over) { errno=ERANGE; return ~0UL; } return v;
}
static int hse_errno; int *__errno_location(void) { return &hse_errno; }
unsigned long strtoul(const char *s, char **e, int b) { int n,a; char *ee; unsigned long v=su(s,&ee,b,&n,&a); if (e) *e=a? ee : (char*)s; return n? 0-v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s,e,b); }
long strtol(const char *s, char **e, int b) { int n,a; char *ee; unsigned long v=su(s,&ee,b,&n,&a); if (e) *e=a? ee : (char*)s; if (n) { if (v>1UL<<63) { errno=ERANGE; return (long)(1UL<<63); } return (long)(0-v); } if (v>~0UL>>1) { errno=ERANGE; return (long)(~0UL>>1); } return v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s,e,b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s,e,b); } unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s,e,b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s,e,b); } long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s,e,b); }
int (atoi)(const char *s) { return (int)strtol(s,0,10); } long (atol)(const char *s) { return strtol(s,0,10); }
int (isdigit)(int c) { return c>='0'&&c<='9'; } int (isspace)(int c) { return c==' '||(c>=9&&c<=13); } int (isalpha)(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } int (isalnum)(int c) { return isdigit(c)||isalpha(c); }
int (tolower)(int c) { return c>='A'&&c<='Z'? c+32 : c; } int (toupper)(int c) { return c>='a'&&c<='z'? c-32 : c; }
int puts(const char *s) { return 1; } int (putchar)(int c) { return c; } int fputs(const char *s, FILE *f) { return 1; } int fputc(int c, FILE *f) { return c; }
int printf(const char *f, ...) { return 0; } int fprintf(FILE *g, const char *f, ...) { return 0; } size_t fwrite(const void *p, size_t a, size_t n, FILE *f) { return n; } int fflush(FILE *f) { return 0; }
char *getenv(const char *n) { return 0; }
int rand(void) { return (int)hse_input("rand",31,0,0x7fffffff); } void srand(unsigned x) {}
int __popcountdi2(long x) { int r=0; for (int i=0;i<64;i++) r+=(x>>i)&1; return r; }
// time: a clock that never goes back
static long hse_now_ms; static long tick(void) { hse_now_ms += hse_param("clock_step",0) ? (long)hse_concrete(hse_input("clock",20,0,1))*hse_param("clock_step",0) : 0; return hse_now_ms; }
int clock_gettime(clockid_t c_, struct timespec *t) { long m=tick(); t->tv_sec=1700000000+m/1000; t->tv_nsec=(m%1000)*1000000; return 0; }
time_t time(time_t *p) { time_t t=1700000000+tick()/1000; if (p) *p=t; return t; }
int nanosleep(const struct timespec *a_, struct timespec *b_) { hse_sleep(); return 0; } int clock_nanosleep(clockid_t c_, int f_, const struct timespec *a_, struct timespec *b_) { hse_sleep(); return 0; }
int usleep(unsigned u_) { hse_sleep(); return 0; } unsigned sleep(unsigned u_) { hse_sleep(); return 0; } int sched_yield(void) { hse_sleep(); return 0; }
// pthread pieces that are not primitive
int pthread_once(pthread_once_t *o, void (*f)(void)) { static pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); if (!*o) { *o=1; f(); } pthread_mutex_unlock(&m); return 0; }
int pthread_cond_timedwait(pthread_cond_t *c_, pthread_mutex_t *m, const struct timespec *t_) { pthread_mutex_unlock(m); hse_sleep(); pthread_mutex_lock(m); return ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t *c_, pthread_mutex_t *m, clockid_t k_, const struct timespec *t_) { pthread_mutex_unlock(m); hse_sleep(); pthread_mutex_lock(m); return ETIMEDOUT; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t_) { return pthread_mutex_trylock(m)? (hse_sleep(), pthread_mutex_trylock(m)? ETIMEDOUT : 0) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k_, const struct timespec *t) { return pthread_mutex_timedlock(m,t); }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return pthread_mutex_lock((pthread_mutex_t*)l); } int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return pthread_mutex_lock((pthread_mutex_t*)l); } int pthread_rwlock_unlock(pthread_rwlock_t *l) { return pthread_mutex_unlock((pthread_mutex_t*)l); }
int pthread_rwlock_init(pthread_rwlock_t *l_, const pthread_rwlockattr_t *a_) { return 0; } int pthread_rwlock_destroy(pthread_rwlock_t *l_) { return 0; }

