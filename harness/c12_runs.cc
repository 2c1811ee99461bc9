// C12: runs over several problems, saved and resumed.
#include <memory>
#include <sstream>
#include <fstream>
#include <set>
#include <map>
#include <boost/filesystem.hpp>
#include "common.h"
#include "curve_iterator.hh"
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_data.hh"
#include "worker_pool/standalone.hh"
using namespace std;
#ifdef HSE_ENGINE
#include <hse_fs.h>
static void hse_fs_arm(int c, int f) { hse_persist_fs.nops = 0; hse_persist_fs.ndata_fail = 0; hse_persist_fs.crash_at = c; hse_persist_fs.fail_at = f; }
static void hse_fs_disarm() { hse_persist_fs.crash_at = hse_persist_fs.fail_at = 0; }
#else
extern "C" { void hse_fs_arm(int, int); void hse_fs_disarm(void); }
#endif
typedef HyCu::CurveData::ExplicitRamificationHasseWeil CD; typedef HyCu::StoreData::Count SD;
typedef map<CD::ValueType, SD::ValueType> Tab; typedef boost::filesystem::path Path;
struct St : Store<CD, SD> { Tab &tab() { return store; } };
struct Problem { ConfigNode c; vector<vuu_block> blocks; vector<Tab> tab; };
static const unsigned PR[] = {7, 13, 7};
// Y^2 = X^3 + a: one curve per block
static Problem problem(unsigned k, unsigned n) {
  Problem r; unsigned p = PR[k]; r.c.prime = p; r.c.prime_exponent = 1; r.c.genus = 1; r.c.with_marked_point = false; r.c.count_exponent = 1; r.c.package_size = 1;
  r.c.result_path = Path("out") / Path(string(1, 'a' + k)); boost::filesystem::create_directories(r.c.result_path);
  auto t = make_shared<FqElementTable>(p, 1); ReductionTable red(p, 1);
  // problem 2 has the prime, and some of the blocks, of problem 0
  for (unsigned i = 0; i < n; i++) { r.blocks.push_back(vuu_block{make_tuple(i, i + 1), make_tuple(p - 1, p), make_tuple(p - 1, p), make_tuple(0u, 1u)});
    Curve c(t, {i, p - 1, p - 1, 0}); St s; if (c.has_squarefree_rhs()) { c.count(red); s.register_curve(c); } r.tab.push_back(s.tab()); }
  return r; }
static void add(Tab &a, const Tab &b) { for (auto &x : b) if (a.count(x.first)) a[x.first] += x.second; else a[x.first] = x.second; }
static bool eq(const Tab &a, const Tab &b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (!(i->first == j->first) || !fmpz_equal(i->second.counter, j->second.counter)) return false; return true; }
// what a directory of results holds: how often each block is recorded; every record agrees with its store
static void results(const Problem &r, vector<unsigned> &times) {
  times.assign(r.blocks.size(), 0);
  for (boost::filesystem::directory_iterator i(r.c.result_path), e; i != e; ++i) { Path p(*i); if (!boost::filesystem::is_regular_file(p) || p.extension() != ".hycu_record") continue;
    set<vuu_block> rec; { fstream f(p.native(), ios_base::in); FileStore::extract(f, rec); } Tab want;
    for (auto &b : rec) { bool hit = false; for (size_t j = 0; j < r.blocks.size(); j++) if (r.blocks[j] == b) { hit = true; times[j]++; add(want, r.tab[j]); } hse_assert(hit, "a block of another problem is recorded"); }
    Path st(p); st.replace_extension(".hycu_store"); hse_assert(boost::filesystem::is_regular_file(st), "a record without a store"); St s; { ifstream f(st.native()); s.extract(f); }
    hse_assert(eq(s.tab(), want), "the store next to a record does not hold the results of its blocks"); } }
static vector<Problem> *PS; static unsigned T_; static void run_(void *) {
  StandaloneWorkerPool pool(StoreType::EC, T_, 0);
  for (auto &r : *PS) { pool.update_config(r.c); for (auto &b : r.blocks) pool.assign(b); } }
static void complete(vector<Problem> &ps) { for (auto &r : ps) { vector<unsigned> t; results(r, t); for (auto n : t) hse_assert(n == 1, "times a block is recorded after the run"); } }
// some of the blocks are recorded when the run begins
extern "C" void c12_run() {
  unsigned M = P("problems", 2), n = P("blocks", 2); vector<Problem> ps; for (unsigned k = 0; k < M; k++) ps.push_back(problem(k, n));
  for (unsigned k = 0; k < M; k++) { St s; set<vuu_block> rec; for (unsigned i = 0; i < n; i++) if (hse_concrete(hse_input(Nm("done", k, i), 1, 0, P("resume", 1)))) { rec.insert(ps[k].blocks[i]); add(s.tab(), ps[k].tab[i]); }
    if (!rec.empty()) { fstream a((ps[k].c.result_path / Path("x.hycu_store")).native(), ios_base::out); s.insert(a); fstream b((ps[k].c.result_path / Path("x.hycu_record")).native(), ios_base::out); FileStore::insert(b, rec); } }
  T_ = hse_concrete(hse_input("threads", 8, P("threads0", 1), P("threads", 2))); PS = &ps;
  hse_sched(P("delays", 1), 0); run_(0);
  complete(ps); hse_reach("end");
}
// killed at any operation on files, resumed, and run once more with nothing left to do
extern "C" void c12_killed() {
  unsigned M = P("problems", 1), n = P("blocks", 2); vector<Problem> ps; for (unsigned k = 0; k < M; k++) ps.push_back(problem(k, n));
  T_ = hse_concrete(hse_input("threads", 8, P("threads0", 1), P("threads", 1))); PS = &ps;
  int c = hse_concrete(hse_input("crash_at", 32, 0, P("ops", 12)));
  hse_sched(P("delays", 1), 0);
  hse_fs_arm(c, 0); int code = hse_run_crashable(run_, 0); hse_fs_disarm(); hse_obs("crashed", code != 0);
  vector<unsigned> t; for (auto &r : ps) { results(r, t); for (auto x : t) hse_assert(x <= 1, "times a block is recorded"); }
  hse_sched(0, 0); run_(0); complete(ps);
  hse_reach("end");
}
