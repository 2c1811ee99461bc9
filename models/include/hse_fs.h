// In-memory file system the stream, POSIX and boost::filesystem models share.
// Lives in a global named hse_persist_* so that it survives hse_run_crashable.
#pragma once
#include <stddef.h>
extern "C" {
enum { FSM_MAXF=34, FSM_NAME=120, FSM_DATA=1536 };
struct FsmFile { int kind; unsigned len; char name[FSM_NAME]; char data[FSM_DATA]; }; // kind 0 unused, 1 file, 2 directory
struct FsmState { int nops, crash_at, fail_at, ndata_fail; FsmFile f[FSM_MAXF]; };
extern FsmState hse_persist_fs;
int fsm_lookup(const char *path);                 // index or -1
int fsm_create(const char *path, int trunc, int excl); // open for writing: index or -1 (counts as an operation when it changes something)
long fsm_write(int ino, const char *p, size_t n, size_t off); // bytes written or -1
int fsm_rename(const char *a, const char *b);
int fsm_unlink(const char *path);
int fsm_mkdir(const char *path);
}
