#define WITH_MERGER
#include "c08_files.cc"
static int run(const string &in, const string &out) { vector<string> a = {"hycu-merger", in, out}; vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); return merger_main(3, v.data()); }
static void put(const Path &p, const string &s) { fstream f(p.native(), ios_base::out); f << s; }
static map<Key, Cnt> table(const Path &p) { St s; ifstream i(p.native()); s.extract(i); return s.tab(); }
static set<vuu_block> recs(const Path &p) { set<vuu_block> r; fstream f(p.native(), ios_base::in); FileStore::extract(f, r); return r; }
static void sum(const vector<Result> &rs, const vector<bool> &in, unsigned *has, unsigned long *n, set<vuu_block> &b) {
  for (unsigned k = 0; k < NK; k++) has[k] = 0, n[k] = 0;
  for (size_t i = 0; i < rs.size(); i++) if (in[i]) { b.insert(rs[i].blocks.begin(), rs[i].blocks.end()); for (unsigned k = 0; k < NK; k++) if (rs[i].has[k]) has[k] = 1, n[k] += rs[i].n[k]; } }
// a directory of n results, some of them incomplete, among other files
extern "C" void c08_merge() {
  Path d = dir(); vector<Result> rs; unsigned n = P("n", 2); vector<bool> in; bool orphan = false;
  for (unsigned i = 0; i < n; i++) {
    rs.push_back(result(i)); unsigned what = hse_concrete(hse_input(Nm("files", i), 8, 0, 3)); // both, store only, record only, neither
    string nm = string(1, 'a' + i); bool rec = what == 0 || what == 2, st = what < 2; in.push_back(rec && st); orphan |= rec && !st;
    if (rec) put(d / (nm + ".hycu_record"), get<0>(rs[i].text)); if (st) put(d / (nm + ".hycu_store"), get<1>(rs[i].text)); }
  // files that have nothing to do with the results
  unsigned other = hse_concrete(hse_input("other", 8, 0, P("others", 5)));
  if (other == 1) put(d / "notes.txt", "1 2 \n"); if (other == 2) put(d / "x.hycu_record.tmp", "1 2 \n"); if (other == 3) put(d / "x.hycu_store", get<1>(rs[0].text)); if (other == 4) boost::filesystem::create_directory(d / "x.hycu_record"); if (other == 5) put(d / "hycu_record", "1 2 \n");
  int r = run("results", "out");
  unsigned has[NK]; unsigned long m[NK]; set<vuu_block> want;
  hse_obs("status", r);
  if (orphan) { hse_assert(r != 0, "a record without a store is not reported"); hse_assert(!boost::filesystem::exists("out.hycu_record") & !boost::filesystem::exists("out.hycu_store"), "output although a store is missing"); hse_reach("orphan"); return; }
  hse_assert(r == 0, "merging complete results fails");
  sum(rs, in, has, m, want);
  hse_assert(recs("out.hycu_record") == want, "merged record"); auto t = table("out.hycu_store"); equal(t, has, m, "merged counts");
  hse_obs("blocks", want.size()); hse_obs("keys", t.size());
  hse_reach("end");
}
// merging in two steps; the results of merging are results themselves
extern "C" void c08_again() {
  Path d = dir(); boost::filesystem::create_directory("second"); vector<Result> rs; unsigned n = P("n", 3); vector<bool> in(n, true);
  for (unsigned i = 0; i < n; i++) { rs.push_back(result(i)); string nm = string(1, 'a' + i); bool later = i + 1 == n; Path e = later ? Path("second") : d; put(e / (nm + ".hycu_record"), get<0>(rs[i].text)); put(e / (nm + ".hycu_store"), get<1>(rs[i].text)); }
  hse_assert(run("results", "second/merged") == 0, "merging fails"); hse_assert(run("second", "out") == 0, "merging merged results fails");
  unsigned has[NK]; unsigned long m[NK]; set<vuu_block> want; sum(rs, in, has, m, want);
  hse_assert(recs("out.hycu_record") == want, "merged record"); auto t = table("out.hycu_store"); equal(t, has, m, "merged counts");
  // a file of results with a merged name is contained in nothing else, and merging it alone changes nothing
  boost::filesystem::create_directory("third"); hse_assert(run("second", "third/x") == 0, "merging fails"); hse_assert(run("third", "third/y") == 0, "merging one result fails");
  hse_assert(recs("third/y.hycu_record") == want, "record of a single merged file"); auto u = table("third/y.hycu_store"); equal(u, has, m, "counts of a single merged file");
  hse_reach("end");
}
// unusable arguments
extern "C" void c08_usage() {
  unsigned c = hse_concrete(hse_input("case", 8, 0, 4)); int r; dir(); put("results/a.hycu_record", "0 3 \n"); put("results/a.hycu_store", "");
  if (c == 0) r = run("missing", "out"); else if (c == 1) r = run("results/a.hycu_record", "out"); else { vector<string> a = {"hycu-merger", "results"}; if (c == 2) a.pop_back(); if (c == 4) a[1] = "--help"; vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); r = merger_main(a.size(), v.data()); }
  hse_assert(c == 4 ? r == 0 : r != 0, "exit status"); hse_assert(!boost::filesystem::exists("out.hycu_record"), "output for an unusable invocation"); hse_obs("status", r); hse_reach("end");
}
static int *st; static void merging(void *) { *st = 100 + run("results", "out"); }
static void outcome(const vector<Result> &rs, bool old, const vector<bool> &in0) {
  // whatever the record of the output vouches for is in its store
  if (!boost::filesystem::is_regular_file("out.hycu_record")) return;
  auto rec = recs("out.hycu_record"); if (rec.empty()) return;
  unsigned has[NK]; unsigned long m[NK]; set<vuu_block> want; vector<bool> in(rs.size(), false); unsigned n = 0;
  for (size_t i = 0; i < rs.size(); i++) for (auto &b : rs[i].blocks) if (rec.count(b)) { in[i] = true; n++; }
  hse_assert(n == rec.size(), "a block is recorded that was not in the input");
  sum(rs, in, has, m, want); hse_assert(rec == want, "a block is missing in the record whose data is in the store");
  map<Key, Cnt> t; bool ok = readable("out.hycu_store", t); hse_assert(ok, "the output is a record without a store"); if (ok) equal(t, has, m, "blocks of the output are recorded, but their data is not in the store"); }
static void faults(int crash) {
  Path d = dir(); vector<Result> rs; unsigned n = P("n", 2); vector<bool> in(n, true); unsigned old = P("old", 0);
  for (unsigned i = 0; i < n; i++) { rs.push_back(result(i)); string nm = string(1, 'a' + i); put(d / (nm + ".hycu_record"), get<0>(rs[i].text)); put(d / (nm + ".hycu_store"), get<1>(rs[i].text));
    if (old && i == 0) hse_assert(run("results", "out") == 0, "merging fails"); }
  int c = hse_concrete(hse_input(crash ? "crash_at" : "fail_at", 32, 0, P("ops", 20)));
  st = shared(); *st = 0;
  hse_fs_arm(crash ? c : 0, crash ? 0 : c); if (crash) hse_run_crashable(merging, 0); else try { merging(0); } catch (...) { *st = 200; } hse_fs_disarm();
  outcome(rs, old, in);
  if (*st == 100) { unsigned has[NK]; unsigned long m[NK]; set<vuu_block> want; sum(rs, in, has, m, want); hse_assert(boost::filesystem::is_regular_file("out.hycu_record") && recs("out.hycu_record") == want, "merging reports success, but the record is not there"); map<Key, Cnt> t; hse_assert(readable("out.hycu_store", t), "merging reports success, but the store is not there"); equal(t, has, m, "merging reports success, but counts are missing"); }
  hse_obs("status", *st); hse_reach("end");
}
extern "C" void c09_merge() { faults(1); }
extern "C" void c10_merge() { faults(0); }
