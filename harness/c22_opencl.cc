// C22: the OpenCL path of counting points: host code, and the device code as the host hands it to the OpenCL compiler.
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include "common.h"
#include "curve.hh"
#include "fq_element_table.hh"
#include "opencl/interface.hh"
#include "opencl/program_evaluation.hh"
#include "opencl/program_reduction.hh"
#include "reduction_table.hh"
using namespace std;
// the texts of the kernels are compiled by the driver (KERNELS in props.py)
const string OpenCLProgramEvaluation::_function_name = "evaluate"; const string OpenCLProgramEvaluation::_code = "evaluate";
const string OpenCLProgramReduction::_function_name = "reduce"; const string OpenCLProgramReduction::_code = "reduce";
typedef void Eval(const int *, int, const int *, const int *, int *, int *); typedef void Red(const int *, int, int *, int *);
extern "C" { Eval evaluate_4, evaluate_5, evaluate_6, evaluate_7; Red reduce_1, reduce_2, reduce_4; }
// --- work items
static size_t NG, GS, LS;
#ifdef HSE_ENGINE
static size_t GIDS[8];
#define GID GIDS[pthread_self()]
#else
static thread_local size_t GID;
#endif
size_t get_global_id(unsigned d) { return d ? 0 : GID; } size_t get_global_size(unsigned d) { return d ? 1 : GS; } size_t get_local_id(unsigned d) { return d ? 0 : GID % LS; } size_t get_local_size(unsigned d) { return d ? 1 : LS; } size_t get_group_id(unsigned d) { return d ? 0 : GID / LS; } size_t get_num_groups(unsigned d) { return d ? 1 : GS / LS; }
static mutex BM; static condition_variable BC; static unsigned waiting, round_;
void barrier(unsigned) { if (LS == 1) return; unique_lock<mutex> l(BM); unsigned r = round_; if (++waiting == LS) { waiting = 0; round_++; BC.notify_all(); } else while (round_ == r) BC.wait(l); }
namespace cl {
bool lazy; static vector<string> built;
bool build(const string &code, const string &o, unsigned &v) { v = 0; if (code == "evaluate") { size_t i = o.find("-DPOLY_SIZE="); if (i == string::npos) return false; v = atoi(o.c_str() + i + 12); return v >= 4 && v <= 7; } return true; }
int launch(const string &n, unsigned v, const vector<Arg> &a, size_t G, size_t L) {
  hse_assert(n == "evaluate", "kernel that the host runs"); if (n != "evaluate") return -1;
  for (unsigned i = 0; i < 6; i++) { hse_assert(a[i].set && (i == 1 ? a[i].val.size() == 4 : a[i].mem != 0), "argument of the kernel"); if (!a[i].set) return -1; }
  static Eval *const E[] = {evaluate_4, evaluate_5, evaluate_6, evaluate_7}; int pred; memcpy(&pred, a[1].val.data(), 4);
  GS = G; LS = L; for (GID = 0; GID < G; GID++) E[v - 4]((const int *)a[0].mem, pred, (const int *)a[2].mem, (const int *)a[3].mem, (int *)a[4].mem, (int *)a[5].mem);
  GID = 0; return 0; }
}
// several curves, one after the other, over extensions whose tables they share
extern "C" void c22_count() {
  unsigned p = P("p", 3), r = P("r", 1), K = P("K", 1), size = P("size", 4), n = P("curves", 1), q = 1; for (unsigned i = 0; i < r; i++) q *= p;
  cl::lazy = hse_concrete(hse_input("lazy", 1, 0, 1));
  auto table = make_shared<FqElementTable>(p, r); auto ocl = make_shared<OpenCLInterface>(); vector<shared_ptr<ReductionTable>> R, S;
  for (unsigned k = K; k; k--) { R.push_back(make_shared<ReductionTable>(p, r * k)); S.push_back(hse_concrete(hse_input(Nm("given_away", k), 1, 0, P("given_away", 1))) ? make_shared<ReductionTable>(p, r * k, shared_ptr<OpenCLInterface>(ocl)) : make_shared<ReductionTable>(p, r * k, ocl)); }
  for (unsigned c = 0; c < n; c++) {
    unsigned sz = size + (c ? hse_concrete(hse_input(Nm("longer", c), 1, 0, 1)) : 0); vector<unsigned> e(sz);
    for (unsigned i = 0; i < sz; i++) e[i] = i < P("free", 16) ? hse_input(Nm("e", c, i), 32, 0, i + 1 == sz ? q - 2 : q - 1) : (i * 5 + c) % (q - 1);
    Curve a(table, e), b(table, e); hse_merge(1);
    for (unsigned i = 0; i < K; i++) { a.count(*R[i]); b.count(*S[i]); }
    hse_merge(0);
    for (unsigned k = 1; k <= K; k++) { auto x = a.number_of_points().at(r * k), y = b.number_of_points().at(r * k); hse_obs("n2", get<0>(x)); hse_obs("n1", get<1>(x)); hse_obs("m2", get<0>(y)); hse_obs("m1", get<1>(y));
      hse_assert((get<0>(x) == get<0>(y)) & (get<1>(x) == get<1>(y)), "the device and the CPU count differently"); } }
  hse_reach("end");
}
// reduction in work groups: local memory is shared by the work items of a group
static const int *IN; static int LEN, PART[64], OUT[64]; static unsigned VAR; static Red *const RS[] = {reduce_1, reduce_2, reduce_4};
static void item(size_t id) { GID = id; RS[VAR](IN, LEN, PART, OUT); }
extern "C" void c22_reduce() {
  unsigned n = P("n", 6), partial; VAR = P("variant", 0); partial = 1u << VAR; LS = P("local", 2); NG = P("groups", 2); GS = LS * NG;
  LEN = hse_concrete(hse_input("len", 32, 0, n)); int *in = (int *)malloc(4 * LEN + 1); unsigned want = 0, got = 0;
  for (int i = 0; i < LEN; i++) { in[i] = (int)hse_input(Nm("a", i), 32, 0, 0x7fffffffu / n); want += in[i]; }
  for (unsigned i = 0; i < 64; i++) PART[i] = 12345, OUT[i] = 54321;
  IN = in; hse_sched(P("delays", 0), 0);
  for (unsigned g = 0; g < NG; g++) { waiting = round_ = 0;
    if (LS == 1) item(g); else { vector<thread> t; for (unsigned i = 0; i < LS; i++) t.emplace_back(item, g * LS + i); for (auto &x : t) x.join(); } }
  for (unsigned i = 0; i < partial * NG; i++) got += OUT[i];
  hse_obs("sum", got); hse_assert(got == want, "sum of the partial sums"); for (unsigned i = partial * NG; i < 64; i++) hse_assert(OUT[i] == 54321, "write beyond the partial sums");
  free(in); hse_reach("end");
}
