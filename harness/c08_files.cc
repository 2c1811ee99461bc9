// C08, C09, C10: result files: merging, and saving with the process killed or the device full at any moment.
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <set>
#include <map>
#include <boost/filesystem.hpp>
#include "common.h"
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_data.hh"
#ifdef WITH_MERGER
#define main merger_main
#define merge merger_merge
#include "executables/merger.cc"
#undef main
#undef merge
#endif
using namespace std;
#ifdef HSE_ENGINE
#include <hse_fs.h>
static void hse_fs_arm(int c, int f) { hse_persist_fs.nops = 0; hse_persist_fs.ndata_fail = 0; hse_persist_fs.crash_at = c; hse_persist_fs.fail_at = f; }
static void hse_fs_disarm() { hse_persist_fs.crash_at = hse_persist_fs.fail_at = 0; }
#else
extern "C" { void hse_fs_arm(int, int); void hse_fs_disarm(void); }
#endif
typedef HyCu::CurveData::ExplicitRamificationHasseWeil CD; typedef HyCu::StoreData::Count SD;
typedef CD::ValueType Key; typedef SD::ValueType Cnt;
struct St : Store<CD, SD> { map<Key, Cnt> &tab() { return store; } };
typedef boost::filesystem::path Path;
static Key key(unsigned i) { Key k; k.ramification_type = i % 2 ? vector<unsigned>{1, 3} : vector<unsigned>{1, 1, 2}; k.hasse_weil_offsets = {(int)i - 1, 7}; return k; }
static Cnt cnt(unsigned long v) { Cnt c; fmpz_set_ui(c.counter, v); return c; }
enum { NK = 3 };
// what one call of save is given: some blocks, and the counts for some invariants that belong to them
struct Result { set<vuu_block> blocks; unsigned has[NK]; unsigned long n[NK]; tuple<string, string> text; };
static void flush(Result &r) {
  St s; for (unsigned k = 0; k < NK; k++) if (r.has[k]) s.tab()[key(k)] = cnt(r.n[k]);
  unsigned i = 0; for (auto &b : r.blocks) { if (i++) s.tab().clear(); s.flush_to_static_store(b); }
  r.text = s.flush_static_store(); }
static vuu_block block(unsigned lo, unsigned hi) { return vuu_block{make_tuple(lo, hi), make_tuple(0u, 3u)}; }
static Result result(unsigned i) {
  Result r; unsigned nb = hse_concrete(hse_input(Nm("blocks", i), 8, P("b0", 1), P("b1", 2)));
  // bounds with several digits: a prefix of a line reads like another block
  for (unsigned j = 0; j < nb; j++) { unsigned lo = 100 * i + 10 * j; r.blocks.insert(block(lo, lo + 11)); }
  for (unsigned k = 0; k < NK; k++) { r.has[k] = k < P("keys", 2) && hse_concrete(hse_input(Nm("has", i, k), 1, P("has0", 0), 1)); r.n[k] = r.has[k] ? (P("sym", 1) ? hse_input(Nm("count", i, k), 64, 1, P("cmax", 9)) : 10 * i + k + 1) : 0; }
  flush(r); return r; }
static Path dir() { Path d("results"); boost::filesystem::create_directory(d); return d; }
static ConfigNode config() { ConfigNode c; c.prime = 3; c.prime_exponent = 1; c.genus = 1; c.result_path = Path("results"); c.package_size = 1; c.count_exponent = 1; return c; }
static vector<Path> records(const Path &d) { vector<Path> v; for (boost::filesystem::directory_iterator i(d), e; i != e; ++i) { Path p(*i); if (boost::filesystem::is_regular_file(p) && p.extension() == ".hycu_record") v.push_back(p); } return v; }
static void equal(map<Key, Cnt> &t, const unsigned *has, const unsigned long *n, const char *id) {
  unsigned m = 0; for (unsigned k = 0; k < NK; k++) if (has[k]) { m++; auto it = t.find(key(k)); hse_assert(it != t.end(), id); if (it == t.end()) return; hse_assert(fmpz_cmp_ui(it->second.counter, n[k]) == 0, id); }
  hse_assert(t.size() == m, id); }
static bool readable(const Path &f, map<Key, Cnt> &t) { // a store that cannot be parsed is no complete store
  if (!boost::filesystem::is_regular_file(f)) return false; St s; ifstream i(f.native()); try { s.extract(i); } catch (...) { return false; } t = s.tab(); return true; }
// everything that is recorded is vouched for by the store next to it
static set<vuu_block> vouched(const vector<Result> &rs, vector<bool> &seen) {
  set<vuu_block> all;
  for (auto &p : records(Path("results"))) {
    set<vuu_block> rec; { fstream f(p.native(), ios_base::in); FileStore::extract(f, rec); }
    Path st(p); st.replace_extension(".hycu_store"); unsigned n = 0;
    if (rec.empty()) continue; // it vouches for nothing
    for (size_t i = 0; i < rs.size(); i++) { bool hit = false; for (auto &b : rec) if (rs[i].blocks.count(b)) { hit = true; n++; }
      if (!hit) continue; map<Key, Cnt> t; bool ok = readable(st, t); hse_assert(ok, "a block is recorded without its store"); if (!ok) return all;
      hse_assert(!seen[i], "a block is recorded twice"); seen[i] = true; equal(t, rs[i].has, rs[i].n, "a block is recorded, but its data is not in the store"); }
    hse_assert(n == rec.size(), "a block is recorded that was not computed");
    all.insert(rec.begin(), rec.end());
  }
  return all; }
static vector<Result> *RS; static int *hse_persist_progress_p; extern "C" { int hse_persist_done; }
static void saves(void *) { FileStore fs(config()); for (size_t i = 0; i < RS->size(); i++) { fs.save((*RS)[i].text); ++*hse_persist_progress_p; } }
#ifdef HSE_ENGINE
static int *shared() { return &hse_persist_done; }
#else
#include <sys/mman.h>
static int *shared() { return (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
#endif
static void contained(const set<vuu_block> &rec) { FileStore fs(config()); for (auto &b : rec) hse_assert(fs.contains(b), "a recorded block is not found again");
  unsigned x = hse_concrete(hse_input("asked_lo", 32, 0, P("ask", 3))), y = hse_concrete(hse_input("asked_hi", 32, 0, P("ask", 3))); vuu_block b{make_tuple(x, y)}; if (!rec.count(b)) hse_assert(!fs.contains(b), "a block is found that was not recorded");
  hse_assert(!fs.contains(vuu_block()), "the empty block is found"); }
#ifndef WITH_MERGER
// killed at any operation on the files, with any part of a write done
extern "C" void c09_crash() {
  dir(); vector<Result> rs; unsigned n = P("n", 2); for (unsigned i = 0; i < n; i++) rs.push_back(result(i));
  RS = &rs; hse_persist_progress_p = shared(); *hse_persist_progress_p = 0;
  int c = hse_concrete(hse_input("crash_at", 32, 0, P("ops", 24)));
  hse_fs_arm(c, 0); int code = hse_run_crashable(saves, 0); hse_fs_disarm();
  unsigned done = *hse_persist_progress_p; hse_obs("crashed", code != 0);
  vector<bool> seen(n, false); auto rec = vouched(rs, seen);
  for (unsigned i = 0; i < done; i++) hse_assert(seen[i], "a result that was saved is lost");
  contained(rec);
  // resumed: what is not recorded is computed again; then every block counts once
  { FileStore fs(config()); for (unsigned i = 0; i < n; i++) { unsigned m = 0; for (auto &b : rs[i].blocks) m += fs.contains(b); hse_assert(m == 0 || m == rs[i].blocks.size(), "some of the blocks of a saved store are not recorded"); if (!m) fs.save(rs[i].text); } }
  vector<bool> again(n, false); vouched(rs, again); for (unsigned i = 0; i < n; i++) hse_assert(again[i], "a block is missing after the run was resumed");
  hse_obs("records", records(Path("results")).size());
  hse_reach("end");
}
// the device is full from some operation on
extern "C" void c10_full() {
  dir(); vector<Result> rs; unsigned n = P("n", 2); for (unsigned i = 0; i < n; i++) rs.push_back(result(i));
  FileStore fs(config());
  int c = hse_concrete(hse_input("fail_at", 32, 0, P("ops", 24)));
  hse_fs_arm(0, c); bool thrown = false;
  for (unsigned i = 0; i < n && !thrown; i++) try { fs.save(rs[i].text); } catch (...) { thrown = true; }
  hse_fs_disarm();
  vector<bool> seen(n, false); auto rec = vouched(rs, seen);
  if (!c) for (unsigned i = 0; i < n; i++) hse_assert(seen[i], "a result that was saved is lost");
  contained(rec);
  hse_obs("records", rec.size());
  hse_reach("end");
}
// names that are taken already
extern "C" void c09_names() {
  dir(); vector<Result> rs; unsigned n = P("n", 2); for (unsigned i = 0; i < n; i++) rs.push_back(result(i));
  { FileStore fs(config()); for (unsigned i = 0; i < n; i++) fs.save(rs[i].text); }
  vector<bool> seen(n, false); auto rec = vouched(rs, seen); for (unsigned i = 0; i < n; i++) hse_assert(seen[i], "a result that was saved is lost");
  contained(rec);
  hse_reach("end");
}
#endif
