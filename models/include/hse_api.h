// Interface between a harness and whatever runs it: the symbolic executor
// (builtins) or the native replay runtime (native/rt.cc).
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t hse_input(const char *name, unsigned bits, uint64_t lo, uint64_t hi); // lo <= result <= hi
void hse_assume(int);
void hse_assert(int, const char *id);
void hse_fail(const char *id);
void hse_reach(const char *id);
void hse_obs(const char *name, uint64_t v);
void hse_obs_str(const char *name, const void *p, size_t n);
uint64_t hse_param(const char *name, uint64_t dflt);
void hse_merge(int on);
void hse_allow_terminate(int on);
uint64_t hse_concrete(uint64_t v);
uint64_t hse_refine(uint64_t v, uint64_t lo, uint64_t hi); // v, known to lie in [lo, hi]
int hse_digits(uint64_t v, unsigned n, unsigned char *out); // out: n decimal digits, least significant first; 0: not possible
uint64_t hse_hint(uint64_t v); // v itself: a value worth comparing with others (see engine/sweep.cc)
int hse_is_concrete(uint64_t v);
int hse_is_engine(void);
void hse_sched(int delays, int spurious);
void hse_end(void);
void hse_print(const char *name, uint64_t v);
void hse_prints(const char *s);
int hse_run_crashable(void (*fn)(void *), void *arg); // 0 normal return, else the crash code
void hse_crash(int code);
void hse_sleep(void);
void hse_progress(void);
void hse_rank(int process);                     // the process this thread, and the threads it starts, belong to (at most 4)
void hse_rank_region(void *p, size_t n);        // data of which every process has its own copy, beginning as it is now
#ifdef __cplusplus
}
#endif
