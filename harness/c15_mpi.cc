// C15: master and worker processes.  Processes are threads; the statics of the stores are private to each of them.
#include <condition_variable>
#include <deque>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <boost/filesystem.hpp>
#include "common.h"
#include "block_iterator.hh"
#include "config/config_node.hh"
#include "curve.hh"
#define private public
#include "store/store.hh"
#undef private
#define main mpi_main
#include "executables/mpi.cc"
#undef main
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store_data.hh"
using namespace std;
typedef HyCu::CurveData::ExplicitRamificationHasseWeil CD; typedef HyCu::StoreData::Count SD;
typedef map<CD::ValueType, SD::ValueType> Tab; typedef boost::filesystem::path Path;
struct St : Store<CD, SD> { Tab &tab() { return store; } };
// --- messages: in order between two processes; sending may wait for the receiver
struct Msg { int src, tag; string b; bool taken; };
static mutex MM; static condition_variable MC; static list<Msg> box[4]; static deque<string> cast_[4]; static pthread_t who[4]; static bool started[4]; static int N; static bool rendezvous, aborted; static int ended;
int hse_mpi_size() { return N; }
int hse_mpi_rank() { lock_guard<mutex> l(MM); for (int i = 0; i < N; i++) if (started[i] && pthread_equal(who[i], pthread_self())) return i; hse_assert(0, "MPI is used by a thread other than the main one"); return 0; }
static void mine(int self) { hse_assert(hse_mpi_rank() == self, "MPI is used by a thread of another process"); }
void hse_mpi_abort(int) { hse_reach("abort"); hse_end(); }
void hse_mpi_send(int self, int dest, int tag, const string &b) { mine(self); hse_assert(dest >= 0 && dest < N && dest != self, "destination of a message"); if (dest < 0 || dest >= N) return; unique_lock<mutex> l(MM); box[dest].push_back(Msg{self, tag, b, false}); auto it = --box[dest].end(); MC.notify_all(); if (rendezvous) { while (!it->taken) MC.wait(l); box[dest].erase(it); } }
static Msg *first(int self, int src, int tag) { for (auto &m : box[self]) if (!m.taken && (src < 0 || m.src == src) && (tag < 0 || m.tag == tag)) return &m; return 0; }
string hse_mpi_recv(int self, int src, int tag, int *from, int *rt) { mine(self); unique_lock<mutex> l(MM); Msg *m; while (!(m = first(self, src, tag))) MC.wait(l); string b = m->b; *from = m->src; *rt = m->tag; m->taken = true; if (rendezvous) MC.notify_all(); else for (auto i = box[self].begin(); i != box[self].end(); ++i) if (&*i == m) { box[self].erase(i); break; } return b; }
void hse_mpi_probe(int self, int src, int tag, int *from, int *rt) { mine(self); unique_lock<mutex> l(MM); Msg *m; while (!(m = first(self, src, tag))) MC.wait(l); *from = m->src; *rt = m->tag; }
void hse_mpi_bcast(int self, int root, string &b) { mine(self); unique_lock<mutex> l(MM); if (self == root) { for (int i = 0; i < N; i++) if (i != root) cast_[i].push_back(b); MC.notify_all(); } else { while (cast_[self].empty()) MC.wait(l); b = cast_[self].front(); cast_[self].pop_front(); } }
// --- what is to be computed
struct Problem { ConfigNode c; vector<vuu_block> blocks; vector<Tab> tab; };
static const unsigned PR[] = {7, 13};
static void add(Tab &a, const Tab &b) { for (auto &x : b) if (a.count(x.first)) a[x.first] += x.second; else a[x.first] = x.second; }
static bool eq(const Tab &a, const Tab &b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (!(i->first == j->first) || !fmpz_equal(i->second.counter, j->second.counter)) return false; return true; }
static Problem problem(unsigned k, unsigned n) {
  Problem r; unsigned p = PR[k]; r.c.prime = p; r.c.prime_exponent = 1; r.c.genus = 1; r.c.with_marked_point = false; r.c.count_exponent = 1; r.c.package_size = 1;
  r.c.result_path = Path("out") / Path(string(1, 'a' + k)); boost::filesystem::create_directories(r.c.result_path);
  auto t = make_shared<FqElementTable>(p, 1); ReductionTable red(p, 1);
  for (unsigned i = 0; i < n; i++) { r.blocks.push_back(vuu_block{make_tuple(i, i + 1), make_tuple(p - 1, p), make_tuple(p - 1, p), make_tuple(0u, 1u)});
    Curve c(t, {i, p - 1, p - 1, 0}); St s; if (c.has_squarefree_rhs()) { c.count(red); s.register_curve(c); } r.tab.push_back(s.tab()); }
  return r; }
// every record agrees with the store next to it; how often is each block recorded
static void results(const Problem &r, vector<unsigned> &times) {
  times.assign(r.blocks.size(), 0);
  for (boost::filesystem::directory_iterator i(r.c.result_path), e; i != e; ++i) { Path p(*i); if (!boost::filesystem::is_regular_file(p) || p.extension() != ".hycu_record") continue;
    set<vuu_block> rec; { fstream f(p.native(), ios_base::in); FileStore::extract(f, rec); } Tab want;
    for (auto &b : rec) { bool hit = false; for (size_t j = 0; j < r.blocks.size(); j++) if (r.blocks[j] == b) { hit = true; times[j]++; add(want, r.tab[j]); } hse_assert(hit, "a block of another problem is recorded"); }
    Path st(p); st.replace_extension(".hycu_store"); hse_assert(boost::filesystem::is_regular_file(st), "a record without a store"); St s; { ifstream f(st.native()); s.extract(f); }
    hse_assert(eq(s.tab(), want), "the store next to a record does not hold the results of its blocks"); } }
static void world() { N = P("processes", 2); rendezvous = hse_concrete(hse_input("rendezvous", 1, P("rendezvous0", 0), P("rendezvous", 1)));
  hse_rank_region(&Store<CD, SD>::static_store, sizeof(Store<CD, SD>::static_store)); hse_rank_region(&Store<CD, SD>::static_record, sizeof(Store<CD, SD>::static_record)); }
static void begin(int r) { hse_rank(r); lock_guard<mutex> l(MM); who[r] = pthread_self(); started[r] = true; }
static void quiet() { for (int i = 0; i < N; i++) { hse_assert(box[i].empty(), "a message nobody received"); hse_assert(cast_[i].empty(), "a broadcast nobody received"); } }
static vector<Problem> *PS; static int T_;
static void worker(int r) { begin(r); int x = main_mpi_worker(make_shared<mpi::communicator>()); hse_assert(x == 0, "exit status of a worker process"); }
extern "C" void c15_pool() {
  unsigned M = P("problems", 2), n = P("blocks", 2); vector<Problem> ps; for (unsigned k = 0; k < M; k++) ps.push_back(problem(k, n)); PS = &ps;
  vector<vector<unsigned>> done(M, vector<unsigned>(n));
  for (unsigned k = 0; k < M; k++) { St s; set<vuu_block> rec; for (unsigned i = 0; i < n; i++) if ((done[k][i] = hse_concrete(hse_input(Nm("done", k, i), 1, 0, P("resume", 1))))) { rec.insert(ps[k].blocks[i]); add(s.tab(), ps[k].tab[i]); }
    if (!rec.empty()) { fstream a((ps[k].c.result_path / Path("x.hycu_store")).native(), ios_base::out); s.insert(a); fstream b((ps[k].c.result_path / Path("x.hycu_record")).native(), ios_base::out); FileStore::insert(b, rec); } }
  T_ = hse_concrete(hse_input("threads", 8, P("threads0", 1), P("threads", 1)));
  world(); hse_sched(P("delays", 1), 0);
  vector<thread> w; for (int i = 1; i < N; i++) w.emplace_back(worker, i); begin(0);
  { MPIWorkerPool pool(make_shared<mpi::communicator>(), StoreType::EC, T_, 0); for (auto &r : ps) { pool.update_config(r.c); for (auto &b : r.blocks) pool.assign(b); } }
  for (auto &t : w) t.join();
  quiet(); for (auto &r : ps) { vector<unsigned> t; results(r, t); for (auto x : t) hse_assert(x == 1, "times a block is recorded after the run"); }
  hse_reach("end");
}
// --- the executable
static vector<string> ARGS; static int status_[4];
static void process(int r) { begin(r); vector<string> a = ARGS; vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); status_[r] = mpi_main(a.size(), v.data()); }
static unsigned records_in(const char *d) { unsigned n = 0; if (!boost::filesystem::is_directory(d)) return 0; for (boost::filesystem::directory_iterator i(d), e; i != e; ++i) { auto x = Path(*i).extension(); n += x == ".hycu_record" || x == ".hycu_store"; } return n; }
static void launch() { world(); hse_sched(P("delays", 0), 0); vector<thread> w; for (int i = 1; i < N; i++) w.emplace_back(process, i); process(0); for (auto &t : w) t.join(); quiet(); }
extern "C" void c15_main() {
  unsigned p = P("p", 3), package = hse_concrete(hse_input("package", 32, P("package0", 1), P("package", 2))) * P("unit", 9); bool second = P("second", 0); unsigned threads = P("threads", 1);
  string y = "Moduli:\n"; set<vuu_block> blocks[2]; Tab tab[2];
  for (unsigned k = 0; k <= second; k++) { unsigned q = k ? 5 : p; y += "  - Prime: " + to_string(q) + "\n    PrimeExponent: 1\n    Genus: 1\n    ResultPath: " + string(1, 'a' + k) + "\n    PackageSize: " + to_string(package) + "\n";
    auto t = make_shared<FqElementTable>(q, 1); ReductionTable red(q, 1); St s;
    for (CurveIterator it(*t, 1, false, package); !it.is_end(); it.step()) { auto b = it.as_block(); blocks[k].insert(b); for (BlockIterator i(b); !i.is_end(); i.step()) { Curve c(t, i.as_position()); if (!c.has_squarefree_rhs()) continue; c.count(red); s.register_curve(c); } } tab[k] = s.tab(); }
  { ofstream o("c.yaml"); o << y; } ARGS = {"hycu-mpi", "-n", to_string(threads), "c.yaml", "out"};
  launch(); for (int i = 0; i < N; i++) hse_assert(status_[i] == 0, "exit status of a process");
  for (unsigned k = 0; k <= second; k++) { set<vuu_block> rec; Tab got; Path d = Path("out") / Path(string(1, 'a' + k));
    for (boost::filesystem::directory_iterator i(d), e; i != e; ++i) { Path f(*i); if (f.extension() != ".hycu_record") continue; set<vuu_block> r; { fstream x(f.native(), ios_base::in); FileStore::extract(x, r); } for (auto &b : r) hse_assert(rec.insert(b).second, "a block is recorded twice"); f.replace_extension(".hycu_store"); St s; { ifstream x(f.native()); s.extract(x); } add(got, s.tab()); }
    hse_assert(rec == blocks[k], "blocks recorded for a problem"); hse_assert(eq(got, tab[k]), "results of a problem"); hse_obs("keys", got.size()); }
  hse_assert(records_in("out") == 0 & records_in(".") == 0, "results outside of the result directories"); hse_reach("end");
}
extern "C" void c15_reject() {
  unsigned c = hse_concrete(hse_input("case", 8, 0, 8)); string t = "Moduli:\n  - Prime: 3\n    PrimeExponent: 1\n    Genus: 1\n    ResultPath: a\n    PackageSize: 9\n"; vector<string> a = {"-n", "1", "c.yaml", "out"};
  { ofstream o("there"); o << "x"; }
  switch (c) { case 0: a = {}; break; case 1: a = {"c.yaml"}; break; case 2: a[2] = "missing.yaml"; break; case 3: t = "StoreType: XY\n" + t; break; case 4: t[t.find("Prime: 3") + 7] = '0'; break; case 5: t[t.find("PackageSize: 9") + 13] = '0'; break; case 6: a = {"--help"}; break; case 7: boost::filesystem::create_directory("out"); { ofstream o("out/there"); } t.replace(t.find("ResultPath: a"), 13, "ResultPath: there/a"); break; case 8: t += "  - Prime: 0\n    PrimeExponent: 1\n    Genus: 1\n    ResultPath: b\n    PackageSize: 9\n"; break; }
  { ofstream o("c.yaml"); o << t; } ARGS = {"hycu-mpi"}; ARGS.insert(ARGS.end(), a.begin(), a.end());
  hse_allow_terminate(1); launch(); hse_allow_terminate(0); if (c != 6) hse_assert(status_[0] != 0, "exit status of an unusable invocation"); for (int i = 1; i < N; i++) hse_assert(status_[i] == 0, "exit status of a worker process");
  if (c != 8) hse_assert(records_in("out/a") == 0 & records_in("out") == 0, "results of an unusable invocation"); hse_reach("end");
}
