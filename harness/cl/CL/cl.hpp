// OpenCL as far as the host code uses it: an in-order queue that works off commands either at once or only when it is waited for.
#pragma once
#include <cstring>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
typedef int cl_int; typedef unsigned long cl_mem_flags; typedef unsigned cl_bool;
enum { CL_SUCCESS = 0, CL_FALSE = 0, CL_TRUE = 1, CL_OUT_OF_HOST_MEMORY = -6, CL_INVALID_COMMAND_QUEUE = -36, CL_BUILD_PROGRAM_FAILURE = -11, CL_INVALID_VALUE = -30, CL_INVALID_ARG_INDEX = -49, CL_INVALID_ARG_SIZE = -51, CL_MEM_READ_WRITE = 1, CL_MEM_WRITE_ONLY = 2, CL_MEM_READ_ONLY = 4, CL_PROGRAM_BUILD_LOG = 1, CL_PLATFORM_VENDOR = 2, CL_DEVICE_TYPE_GPU = 4, CL_DEVICE_TYPE_ACCELERATOR = 8 };
namespace cl {
struct Arg { const void *mem = 0; std::string val; size_t local = 0; bool set = false; };
struct Item { size_t id = 0, global = 1, lid = 0, local = 1; };
extern bool lazy;                                                                // commands wait until the queue is waited for
extern bool build(const std::string &code, const std::string &options, unsigned &variant);
extern int launch(const std::string &name, unsigned variant, const std::vector<Arg> &args, size_t global, size_t local);
struct Device {}; struct Context { Context(const Device &) {} };
struct Platform { static cl_int get(std::vector<Platform> *v) { v->assign(1, Platform()); return 0; } template <class T> cl_int getInfo(int, T *p) const { *p = "vendor"; return 0; } template <class D> cl_int getDevices(int t, std::vector<D> *v) const { v->assign(t == CL_DEVICE_TYPE_GPU, D()); return 0; } };
struct Buffer { char *m; size_t n; Buffer(const Context &, cl_mem_flags, size_t n) : m((char *)malloc(n)), n(n) {} ~Buffer() { free(m); } Buffer(const Buffer &) = delete; };
struct NDRange { size_t n; bool null; NDRange() : n(0), null(true) {} explicit NDRange(size_t n) : n(n), null(false) {} };
static const NDRange NullRange;
struct Program {
  typedef std::vector<std::pair<const char *, size_t>> Sources; std::string code; unsigned variant = 0;
  Program(const Context &, const Sources &s) { for (auto &x : s) code += std::string(x.first, x.second); }
  cl_int build(const std::vector<Device> &, const char *o) { return cl::build(code, o, variant) ? CL_SUCCESS : CL_BUILD_PROGRAM_FAILURE; }
  template <int> std::string getBuildInfo(const Device &) const { return "error"; } };
struct Kernel { std::string name; unsigned variant; std::vector<Arg> args; Kernel(const Program &p, const char *n) : name(n), variant(p.variant), args(8) {}
  cl_int setArg(unsigned i, const Buffer &b) { if (i >= args.size()) return CL_INVALID_ARG_INDEX; args[i] = Arg(); args[i].mem = b.m; args[i].set = true; return 0; }
  cl_int setArg(unsigned i, size_t n, const void *p) { if (i >= args.size()) return CL_INVALID_ARG_INDEX; args[i] = Arg(); args[i].set = true; if (p) args[i].val.assign((const char *)p, n); else args[i].local = n; return 0; } };
struct CommandQueue { std::vector<std::function<int()>> todo; CommandQueue(const Context &, const Device &) {}
  cl_int run() { cl_int r = 0; for (auto &f : todo) { int x = f(); if (x) r = x; } todo.clear(); return r; }
  cl_int add(std::function<int()> f, bool wait) { todo.push_back(f); return !lazy || wait ? run() : 0; }
  cl_int enqueueWriteBuffer(const Buffer &b, cl_bool wait, size_t off, size_t n, const void *p) { if (off + n > b.n) return CL_INVALID_VALUE; char *d = b.m + off; return add([=] { memcpy(d, p, n); return 0; }, wait); }
  cl_int enqueueReadBuffer(const Buffer &b, cl_bool wait, size_t off, size_t n, void *p) { if (off + n > b.n) return CL_INVALID_VALUE; const char *s = b.m + off; return add([=] { memcpy(p, s, n); return 0; }, wait); }
  cl_int enqueueNDRangeKernel(const Kernel &k, const NDRange &, const NDRange &g, const NDRange &l) { std::string n = k.name; unsigned v = k.variant; std::vector<Arg> a = k.args; size_t G = g.n, L = l.null ? 1 : l.n; return add([=] { return launch(n, v, a, G, L); }, false); }
  cl_int finish() { return run(); } };
}
