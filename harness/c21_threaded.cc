// C21: the threaded program, from its command line and configuration file to its result files.
#include <memory>
#include <sstream>
#include <fstream>
#include <set>
#include <map>
#include <boost/filesystem.hpp>
#include "common.h"
#define main threaded_main
#include "executables/threaded.cc"
#undef main
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_data.hh"
using namespace std;
typedef HyCu::CurveData::ExplicitRamificationHasseWeil CD; typedef HyCu::StoreData::Count SD;
typedef map<CD::ValueType, SD::ValueType> Tab; typedef boost::filesystem::path Path;
struct St : Store<CD, SD> { Tab &tab() { return store; } };
static void add(Tab &a, const Tab &b) { for (auto &x : b) if (a.count(x.first)) a[x.first] += x.second; else a[x.first] = x.second; }
static bool eq(const Tab &a, const Tab &b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (!(i->first == j->first) || !fmpz_equal(i->second.counter, j->second.counter)) return false; return true; }
struct Prob { unsigned p, r, g, K, package; bool marked; set<vuu_block> blocks; Tab tab; };
// what a problem amounts to, one curve after the other
static void reference(Prob &x) {
  auto t = make_shared<FqElementTable>(x.p, x.r); vector<shared_ptr<ReductionTable>> red; for (unsigned k = 1; k <= x.K; k++) red.push_back(make_shared<ReductionTable>(x.p, x.r * k));
  St s; for (CurveIterator it(*t, x.g, x.marked, x.package); !it.is_end(); it.step()) { auto b = it.as_block(); x.blocks.insert(b); for (BlockIterator i(b); !i.is_end(); i.step()) { Curve c(t, i.as_position()); if (!c.has_squarefree_rhs()) continue; for (auto &q : red) c.count(*q); s.register_curve(c); } }
  x.tab = s.tab(); }
static void results(const Path &d, set<vuu_block> &rec, Tab &tab) {
  for (boost::filesystem::directory_iterator i(d), e; i != e; ++i) { Path p(*i); if (!boost::filesystem::is_regular_file(p) || p.extension() != ".hycu_record") continue;
    set<vuu_block> r; { fstream f(p.native(), ios_base::in); FileStore::extract(f, r); } for (auto &b : r) hse_assert(rec.insert(b).second, "a block is recorded twice");
    Path st(p); st.replace_extension(".hycu_store"); hse_assert(boost::filesystem::is_regular_file(st), "a record without a store"); St s; { ifstream f(st.native()); s.extract(f); } add(tab, s.tab()); } }
static unsigned records_in(const char *d) { unsigned n = 0; if (!boost::filesystem::is_directory(d)) return 0; for (boost::filesystem::directory_iterator i(d), e; i != e; ++i) { auto x = Path(*i).extension(); n += x == ".hycu_record" || x == ".hycu_store"; } return n; }
static int call(vector<string> a) { a.insert(a.begin(), "hycu-threaded"); vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); try { return threaded_main(a.size(), v.data()); } catch (...) { return 255; } }
static string num(unsigned v) { return to_string(v); }
static string yaml(const Prob &x, const string &dir, unsigned count, unsigned mark) { return "  - Prime: " + num(x.p) + "\n    PrimeExponent: " + num(x.r) + "\n    Genus: " + num(x.g) + "\n    ResultPath: " + dir + "\n    PackageSize: " + num(x.package) + "\n" + (count ? "    CountExponent: " + num(x.K) + "\n" : "") + (mark ? string("    WithMarkedPoint: ") + (x.marked ? "true" : "false") + "\n" : ""); }
static void write(const char *fn, const string &t) { ofstream o(fn); o << t; }
extern "C" void c21_run() {
  unsigned M = P("problems", 1), threads = hse_concrete(hse_input("threads", 8, P("threads0", 1), P("threads", 1))), again = hse_concrete(hse_input("again", 1, 0, P("again", 1)));
  vector<Prob> ps; string t = hse_concrete(hse_input("type", 1, 0, P("types", 1))) ? "StoreType: EC\nModuli:\n" : "Moduli:\n"; static const char *DS[][2] = {{"first", "second/below"}, {"a/x", "b/y"}, {"a/x", "a/y"}, {"a/x/u", "a"}}; const char **D = DS[M == 2 ? hse_concrete(hse_input("dirs", 8, P("dirs0", 0), P("dirs", 3))) : 0];
  for (unsigned k = 0; k < M; k++) { Prob x; x.p = k ? P("p1", 5) : P("p", 3); x.r = 1; x.g = 1; unsigned count = hse_concrete(hse_input(Nm("count_given", k), 1, 0, 1)), mark = hse_concrete(hse_input(Nm("mark", k), 8, P("mark0", 0), 2)); x.K = count ? hse_concrete(hse_input(Nm("count", k), 8, 1, P("K", 2))) : x.g; x.marked = mark == 2; x.package = hse_concrete(hse_input(Nm("package", k), 32, P("package0", 1), P("package", 4))) * P("unit", 3);
    reference(x); t += yaml(x, D[k], count, mark); ps.push_back(x); }
  write("c.yaml", t);
  hse_sched(P("delays", 0), 0);
  unsigned style = hse_concrete(hse_input("style", 8, 0, P("styles", 1)));
  for (unsigned i = 0; i <= again; i++) {
    int r = style ? call({"--nmb-threads", num(threads), "--config-file", "c.yaml", "--output-path", "res/ults"}) : call({"-n", num(threads), "c.yaml", "res/ults"});
    hse_assert(r == 0, "exit status when everything is done");
    for (unsigned k = 0; k < M; k++) { set<vuu_block> rec; Tab tab; Path d = Path("res/ults") / Path(D[k]); hse_assert(boost::filesystem::is_directory(d), "result directory of a problem"); results(d, rec, tab); hse_assert(rec == ps[k].blocks, "blocks recorded for a problem"); hse_assert(eq(tab, ps[k].tab), "results of a problem"); hse_obs("keys", tab.size()); hse_obs("blocks", rec.size()); }
    if (M == 2) for (auto o : {"second", "a", "b", "x", "y", "a/b", "a/x/y"}) if (string(o) != D[0] && string(o) != D[1]) hse_assert(records_in((string("res/ults/") + o).c_str()) == 0, "results outside of the result directories"); }
  hse_assert(records_in(".") == 0 & records_in("res/ults") == 0, "results outside of the result directories");
  hse_reach("end");
}
extern "C" void c21_reject() {
  unsigned c = hse_concrete(hse_input("case", 8, 0, 14)); string good = "Moduli:\n  - Prime: 3\n    PrimeExponent: 1\n    Genus: 1\n    ResultPath: a\n    PackageSize: 9\n", t = good; vector<string> a = {"-n", "1", "c.yaml", "out"}; bool ok = false;
  write("there", "x"); 
  switch (c) {
    case 0: a = {}; break; case 1: a = {"c.yaml"}; break; case 2: a = {"-n", "1", "missing.yaml", "out"}; break; case 3: a = {"-n", "1", "c.yaml", "there"}; break; case 4: t = "StoreType: XY\n" + good; break;
    case 5: case 6: case 7: case 8: case 9: { static const char *K[] = {"Prime: 3", "PrimeExponent: 1", "Genus: 1", "PackageSize: 9"}; if (c == 9) { t += "    CountExponent: 0\n"; break; } size_t i = t.find(K[c - 5]); t[i + strlen(K[c - 5]) - 1] = '0'; break; }
    case 10: t = good.substr(0, good.find("    PackageSize")); break; case 11: t = good; { size_t i = t.find("ResultPath: a"); t.replace(i, 13, "ResultPath: there/a"); } boost::filesystem::create_directory("out"); write("out/there", "x"); break;
    case 12: t.replace(t.find("Prime: 3"), 8, "Prime: x"); break; case 13: a = {"--help"}; ok = true; break; case 14: a = {"-n", "1", "there/c.yaml", "out"}; break; }
  write("c.yaml", t);
  hse_sched(0, 0); int r = call(a);
  hse_assert((r == 0) == ok, "exit status of an unusable invocation"); hse_assert(records_in("out") == 0 & records_in("out/a") == 0, "results of an unusable invocation"); hse_obs("status", r); hse_reach("end");
}
