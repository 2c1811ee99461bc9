// C19: what a thread contributes for a block.
#include <memory>
#include <sstream>
#include <set>
#include <map>
#include "common.h"
#include "threaded/thread.hh"
#include "threaded/thread_pool.hh"
#include "store/file_store.hh"
using namespace std;
struct Entry_ { vector<unsigned> e; map<unsigned, tuple<unsigned, unsigned>> n; };
static vector<Entry_> seen; static vector<vuu_block> flushed; static unsigned after;
struct Rec : StoreInterface {
  vector<Entry_> mine; bool done = false;
  void register_curve(const Curve &c) final { if (done) after++; mine.push_back({c.rhs_coeff_exponents(), c.number_of_points()}); }
  void flush_to_static_store(const vuu_block &b) final { seen.insert(seen.end(), mine.begin(), mine.end()); mine.clear(); flushed.push_back(b); done = true; }
  tuple<string, string> flush_static_store() final { return make_tuple("", ""); }
  void extract(istream &) final {} void extract(istream &&) final {} void insert(ostream &) const final {} void insert(ostream &&) const final {} };
struct Fac : StoreFactoryInterface { shared_ptr<StoreInterface> create() const final { return make_shared<Rec>(); } };
// greatest common divisor of f and its derivative, over the field of the oracle
static OField F;
static void norm(vector<unsigned> &f) { while (!f.empty() && !f.back()) f.pop_back(); }
static unsigned neg(unsigned a) { unsigned r = 0, w = 1; for (; a; a /= F.p, w *= F.p) r += (F.p - a % F.p) % F.p * w; return r; }
static unsigned inv(unsigned a) { return F.pw(a, F.q - 2); }
static bool squarefree(vector<unsigned> f) {
  norm(f); if (f.empty()) return false; vector<unsigned> d; for (size_t i = 1; i < f.size(); i++) { unsigned s = 0; for (unsigned k = 0; k < i % F.p; k++) s = F.add(s, f[i]); d.push_back(s); } norm(d);
  while (!d.empty()) { while (f.size() >= d.size()) { unsigned c = F.mul(f.back(), inv(d.back())); size_t o = f.size() - d.size(); for (size_t i = 0; i < d.size(); i++) f[o + i] = F.add(f[o + i], neg(F.mul(c, d[i]))); norm(f); } swap(f, d); }
  return f.size() == 1; }
// the vectors of a block
static void vectors(const vuu_block &b, vector<vector<unsigned>> &out) { vector<unsigned> v; for (auto &x : b) v.push_back(get<0>(x)); for (;;) { out.push_back(v); size_t i = 0; for (; i < b.size(); i++) { if (++v[i] < get<1>(b[i])) break; v[i] = get<0>(b[i]); } if (i == b.size()) return; } }
static ConfigNode config(unsigned p, unsigned r, unsigned k) { ConfigNode c; c.prime = p; c.prime_exponent = r; c.genus = 1; c.with_marked_point = false; c.count_exponent = k; c.package_size = 100; return c; }
static vuu_block symbolic_block(unsigned size, unsigned q, unsigned max, const char *nm) {
  vuu_block b; unsigned left = max; for (unsigned i = 0; i < size; i++) { unsigned top = i + 1 == size, lo, n;
    if (i >= P("free", 9)) { lo = top ? 0 : q - 1 - (i % 2) * 1; n = 1; } else { lo = hse_concrete(hse_input(Nm(nm, i, 0), 32, 0, q - (top ? 2 : 1))); unsigned m = q - (top ? 1 : 0) - lo; n = hse_concrete(hse_input(Nm(nm, i, 1), 32, 1, left < m ? left : m)); }
    left /= n; b.push_back(make_tuple(lo, lo + n)); }
  return b; }
static void drive(ThreadPool &pool, const vuu_block &b) { pool.flush_ready_threads(); pool.assign(b, false); for (;;) { auto f = pool.flush_finished_blocks(); if (!f.empty()) { hse_assert(f.size() == 1 && f[0] == b, "block reported finished"); return; } this_thread::sleep_for(chrono::milliseconds(50)); } }
extern "C" void c19_block() {
  unsigned p = P("p", 3), r = P("r", 1), K = P("K", 2), size = P("size", 4), q = 1; for (unsigned i = 0; i < r; i++) q *= p;
  F.init(p, r, r == 1 ? vector<unsigned>{0, 1} : conway_modulus(p, r));
  auto table = make_shared<FqElementTable>(p, r);
  vuu_block b = symbolic_block(size, q, P("max", 6), "coordinate");
  vector<vector<unsigned>> all; vectors(b, all);
  // the field as the oracle sees it: powers of the generator of the table
  auto code = [&](unsigned e) -> unsigned { if (e == q - 1) return 0; if (r == 1) return table->at_nmod(e); return F.ex[e]; };
  if (r == 1) { F.p = F.q = p; F.n = 1; F.m = {0, 1}; }
  map<vector<unsigned>, unsigned> want; map<vector<unsigned>, map<unsigned, tuple<unsigned, unsigned>>> cnt; vector<unique_ptr<ReductionTable>> red; for (unsigned k = 1; k <= K; k++) red.emplace_back(new ReductionTable(p, r * k));
  for (auto &v : all) { vector<unsigned> f; for (auto e : v) f.push_back(code(e)); if (!squarefree(f)) continue; Curve c(table, v); for (auto &t : red) c.count(*t); want[c.rhs_coeff_exponents()]++; cnt[c.rhs_coeff_exponents()] = c.number_of_points(); c.has_squarefree_rhs(); }
  for (auto &v : all) { Curve c(table, v); c.has_squarefree_rhs(); }
  hse_sched(0, 0);
  auto pool = make_shared<ThreadPool>(make_shared<Fac>()); pool->spark_threads(1, 0); pool->update_config(config(p, r, K)); drive(*pool, b); pool->shutdown_threads();
  hse_assert(flushed.size() == 1 && flushed[0] == b, "the block its results are flushed with"); hse_assert(!after, "a curve is registered after the results were flushed");
  map<vector<unsigned>, unsigned> got; for (auto &x : seen) got[x.e]++;
  for (auto &x : got) hse_assert(want.count(x.first), "a curve was registered that is not in the block or not squarefree");
  for (auto &x : want) hse_assert(got.count(x.first) && got[x.first] == x.second, "times a curve of the block was registered");
  for (auto &x : seen) { auto &m = cnt[x.e]; hse_assert(x.n.size() == K, "extensions over which a curve was counted"); hse_assert(x.n == m, "points counted for a curve"); }
  hse_obs("curves", seen.size()); hse_obs("all", all.size()); hse_reach("end");
}
// two blocks, one after the other under different configurations, with the real store
extern "C" void c19_store() {
  unsigned p0 = P("p", 3), size = P("size", 4), K0 = hse_concrete(hse_input("K_0", 8, 1, P("K", 2))), K1 = hse_concrete(hse_input("K_1", 8, 1, P("K", 2))); unsigned ps[2] = {p0, (unsigned)P("p1", 5)}, Ks[2] = {K0, K1};
  vuu_block b[2]; string want[2]; for (unsigned j = 0; j < 2; j++) { b[j] = symbolic_block(size, ps[j], P("max", 2), j ? "second" : "first"); }
  auto fac = create_store_factory(StoreType::EC);
  for (unsigned j = 0; j < 2; j++) { auto t = make_shared<FqElementTable>(ps[j], 1); auto st = fac->create(); vector<vector<unsigned>> all; vectors(b[j], all); for (auto &v : all) { Curve c(t, v); if (!c.has_squarefree_rhs()) continue; for (unsigned k = Ks[j]; k >= 1; k--) { ReductionTable red(ps[j], k); c.count(red); } st->register_curve(c); } stringstream s; st->insert(s); want[j] = s.str(); }
  hse_sched(0, 0);
  auto pool = make_shared<ThreadPool>(fac); pool->spark_threads(1, 0);
  for (unsigned j = 0; j < 2; j++) { pool->update_config(config(ps[j], 1, Ks[j])); drive(*pool, b[j]); auto got = pool->flush_global_store(); hse_assert(get<1>(got) == want[j], "what a block adds to the results"); set<vuu_block> rec; FileStore::extract(stringstream(get<0>(got)), rec); hse_assert(rec.size() == 1 && *rec.begin() == b[j], "the block recorded with its results"); }
  pool->shutdown_threads(); hse_obs_str("first", want[0].data(), want[0].size()); hse_reach("end");
}
