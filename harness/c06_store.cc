// C06, C07, C20: stores, their text form, and the counts in them.
#include <memory>
#include <sstream>
#include "common.h"
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_data.hh"
using namespace std;
typedef HyCu::CurveData::ExplicitRamificationHasseWeil CD; typedef HyCu::StoreData::Count SD;
typedef CD::ValueType Key;
struct Cu : Curve { using Curve::Curve; void set(unsigned fx, unsigned n2, unsigned n1) { nmb_points[fx] = make_tuple(n2, n1); } };
struct St : Store<CD, SD> { map<Key, SD::ValueType> &tab() { return store; } };
static unsigned ipow(unsigned b, unsigned e) { unsigned r = 1; while (e--) r *= b; return r; }
struct Reg { vector<unsigned> ram; vector<int> off; unsigned mult; };
// ramified points over F_q, F_{q^2}, F_{q^3} for right hand sides of degree 3 and 4
static const struct { unsigned deg, n[3]; vector<unsigned> ram; } RT[] = {
  {4, {4, 4, 4}, {1, 1, 1, 1}}, {4, {2, 4, 2}, {1, 1, 2}}, {4, {1, 1, 4}, {1, 3}}, {4, {0, 4, 0}, {2, 2}}, {4, {0, 0, 0}, {4}},
  {3, {4, 4, 4}, {1, 1, 1, 1}}, {3, {2, 4, 2}, {1, 1, 2}}, {3, {1, 1, 4}, {1, 3}} };
static unsigned total(map<Key, SD::ValueType> &t) { unsigned s = 0; for (auto &x : t) s += fmpz_get_ui(x.second.counter); return s; }
static unsigned same(const vector<int> &a, const vector<int> &b, int twist) { unsigned e = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); i++) e &= a[i] == (twist && i % 2 == 0 ? -b[i] : b[i]); return e; }
static void compare(map<Key, SD::ValueType> &t, const vector<Reg> &regs) {
  unsigned all = 0; for (auto &g : regs) all += 2 * g.mult;
  for (auto &x : t) {
    unsigned want = 0;
    for (auto &g : regs) if (g.ram == x.first.ramification_type) want += g.mult * (same(x.first.hasse_weil_offsets, g.off, 0) + same(x.first.hasse_weil_offsets, g.off, 1));
    hse_assert(fmpz_cmp_ui(x.second.counter, want) == 0, "count stored for an invariant");
  }
  hse_assert(total(t) == all, "curves lost or counted in excess");
  hse_obs("entries", t.size()); hse_obs("total", total(t));
}
// what = 0: registered in one store, 1: several stores, flushed in any order, read back from the text
static void registers(unsigned what) {
  unsigned p = P("p", 3), r = P("r", 1), n = P("n", 2), K = P("K", 2), span = P("span", 2);
  auto table = make_shared<FqElementTable>(p, r); unsigned q = ipow(p, r), z = q - 1;
  vector<Reg> regs; St st[3]; vector<vuu_block> blocks; int used[3] = {0, 0, 0};
  for (unsigned i = 0; i < n; i++) {
    unsigned t = hse_concrete(hse_input(Nm("type", i), 8, P("t0", 0), P("t1", 7))), sup = hse_concrete(hse_input(Nm("support", i), 8, 0, 1));
    vector<unsigned> e = RT[t].deg == 4 ? vector<unsigned>{0, z, sup ? 0u : z, sup ? z : 0u, 0} : vector<unsigned>{1, sup ? 0u : z, sup ? z : 0u, 0};
    Cu c(table, e); Reg g; g.ram = RT[t].ram;
    for (unsigned k = 1; k <= K; k++) { int o = (int)hse_input(Nm("offset", 10 * i + k), 32, 0, 2 * span) - (int)span; g.off.push_back(o); c.set(r * k, ipow(q, k) + 1 - RT[t].n[k - 1] - o, RT[t].n[k - 1]); }
    fmpz_t m; fmpz_init(m); CurveIterator::multiplicity(m, p, q, c.rhs_support()); g.mult = fmpz_get_ui(m); fmpz_clear(m);
    regs.push_back(g);
    unsigned s = what ? hse_concrete(hse_input(Nm("store", i), 8, 0, 1)) : 0;
    st[s].register_curve(c); used[s] = 1;
    if (what && hse_concrete(hse_input(Nm("flush", i), 1, 0, 1))) { vuu_block b{make_tuple(i, i + 1)}; st[s].flush_to_static_store(b); blocks.push_back(b); hse_assert(st[s].tab().empty(), "store not empty after it was flushed"); used[s] = 0; }
  }
  if (!what) { compare(st[0].tab(), regs); return; }
  for (unsigned s = 0; s < 2; s++) if (used[s]) { vuu_block b{make_tuple(50 + s, 60 + s)}; st[s].flush_to_static_store(b); blocks.push_back(b); }
  auto rs = st[0].flush_static_store();
  St back; back.extract(stringstream(get<1>(rs))); compare(back.tab(), regs);
  // a second flush has nothing left
  auto rs2 = st[1].flush_static_store(); hse_assert(get<0>(rs2).empty() && get<1>(rs2).empty(), "saved twice");
  set<vuu_block> rec; FileStore::extract(stringstream(get<0>(rs)), rec);
  hse_assert(rec == set<vuu_block>(blocks.begin(), blocks.end()), "blocks recorded");
}
extern "C" void c06_register() { registers(0); hse_reach("end"); }
extern "C" void c06_flush() { registers(1); hse_reach("end"); }
// The twisted invariant is the invariant of the curve with all coefficients multiplied by a non-square.
extern "C" void c06_twist() {
  unsigned p = P("p", 3), r = P("r", 1), size = P("size", 4), K = P("K", 2), q = ipow(p, r);
  auto table = make_shared<FqElementTable>(p, r);
  vector<unsigned> e(size), w(size); static unsigned nx[1024]; for (unsigned i = 0; i < q - 1; i++) nx[i] = (i + 1) % (q - 1); nx[q - 1] = q - 1;
  hse_merge(1);
  for (unsigned i = 0; i < size; i++) { e[i] = hse_input(Nm("e", i), 32, 0, i + 1 == size ? q - 2 : q - 1); w[i] = nx[e[i]]; }
  hse_merge(0);
  Curve a(table, e), b(table, w);
  hse_merge(1);
  for (unsigned k = 1; k <= K; k++) { ReductionTable red(p, r * k); a.count(red); b.count(red); }
  unsigned bad = 0;
  vector<int> oa, ob;
  for (unsigned k = 1; k <= K; k++) { auto x = a.number_of_points().at(r * k), y = b.number_of_points().at(r * k); unsigned Q = ipow(q, k);
    bad |= get<1>(x) != get<1>(y); oa.push_back(Q + 1 - get<0>(x) - get<1>(x)); ob.push_back(Q + 1 - get<0>(y) - get<1>(y)); }
  hse_merge(0);
  hse_assert(!bad, "a curve and its twist are ramified differently");
  // CurveData::twist on the offsets of a
  struct D : Cu { using Cu::Cu; };
  Cu c(table, vector<unsigned>{0, q - 1, q - 1, q - 1, 0}); for (unsigned k = 1; k <= K; k++) c.set(r * k, ipow(q, k) + 1 - RT[0].n[0] - oa[k - 1], RT[0].n[0]);
  CD d(c); Key t = d.twist().as_value(), k0 = d.as_value();
  hse_assert(same(k0.hasse_weil_offsets, oa, 0), "offsets");
  hse_assert(same(t.hasse_weil_offsets, ob, 0) & (t.ramification_type == k0.ramification_type), "twisted invariant differs from the invariant of the twist");
  hse_obs("o1", ob[0]);
  hse_reach("end");
}
// C07
static int num(const char *n, unsigned i, unsigned digits, bool neg) {
  unsigned m = digits >= 10 ? 0x7fffffff : ipow(10, digits) - 1;
  int v = neg ? (int)hse_input(Nm(n, i), 32, 0, 2 * m) - (int)m : (int)hse_input(Nm(n, i), 32, 0, m);
  return v; }
extern "C" void c07_record() {
  unsigned n = hse_concrete(hse_input("n", 8, 0, P("n", 2))), L = hse_concrete(hse_input("len", 8, 1, P("len", 2))), dg = P("digits", 2);
  set<vuu_block> rec, back;
  for (unsigned i = 0; i < n; i++) { vuu_block b; for (unsigned j = 0; j < L; j++) { unsigned a = num("lo", 10 * i + j, dg, false), c = num("hi", 10 * i + j, dg, false); b.push_back(make_tuple(a, c)); } rec.insert(b); }
  stringstream s; FileStore::insert(s, rec);
  FileStore::extract(s, back);
  hse_assert(back.size() == rec.size(), "number of blocks changes when a record is written and read");
  hse_assert(back == rec, "blocks change when a record is written and read");
  // one block by itself, as given to other processes
  for (auto &b : rec) { stringstream t; FileStore::insert(t, b); vuu_block c; FileStore::extract(t, c); hse_assert(c == b, "a block changes when written and read"); }
  hse_obs("size", rec.size());
  hse_reach("end");
}
extern "C" void c07_store() {
  unsigned n = hse_concrete(hse_input("n", 8, 0, P("n", 2))), nr = P("nr", 2), no = P("no", 2), dg = P("digits", 1), od = P("odigits", 1), cd = P("cdigits", 1);
  St a, b;
  for (unsigned i = 0; i < n; i++) {
    Key k; unsigned x = hse_concrete(hse_input(Nm("nr", i), 8, 1, nr)), y = hse_concrete(hse_input(Nm("no", i), 8, 1, no));
    for (unsigned j = 0; j < x; j++) k.ramification_type.push_back(num("r", 10 * i + j, dg, false));
    for (unsigned j = 0; j < y; j++) k.hasse_weil_offsets.push_back(num("o", 10 * i + j, od, true));
    auto &cn = a.tab()[k].counter; unsigned e = P("big", 0) ? hse_concrete(hse_input(Nm("e", i), 8, 0, 3)) : 0;
    if (e) { static const unsigned E[] = {0, 62, 64, 100}; fmpz_set_ui(cn, 1); for (unsigned t = 0; t < E[e]; t += 2) fmpz_mul_ui(cn, cn, 4); fmpz_add_ui(cn, cn, hse_concrete(hse_input(Nm("f", i), 8, 0, 2))); }
    else fmpz_set_ui(cn, num("c", i, cd, false));
  }
  stringstream s; a.insert(s); b.extract(s);
  hse_assert(a.tab().size() == b.tab().size(), "number of entries changes when a store is written and read");
  auto x = a.tab().begin(); auto y = b.tab().begin();
  for (; x != a.tab().end(); ++x, ++y) {
    hse_assert(x->first == y->first, "an invariant changes when a store is written and read");
    hse_assert(fmpz_equal(x->second.counter, y->second.counter), "a count changes when a store is written and read");
  }
  // reading twice adds up
  stringstream s2; a.insert(s2); b.extract(s2);
  for (x = a.tab().begin(), y = b.tab().begin(); x != a.tab().end(); ++x, ++y) { SD::ValueType w; fmpz_mul_ui(w.counter, x->second.counter, 2); hse_assert(fmpz_equal(w.counter, y->second.counter), "reading a store twice does not add up"); }
  hse_obs("size", a.tab().size());
  hse_reach("end");
}
// C08, C06: the order of the keys is a strict weak order in which only equal keys are equivalent, so that every invariant has one place in a store
extern "C" void c08_order() {
  Key k[3]; unsigned n = P("n", 3), L = P("len", 2); less<Key> lt;
  for (unsigned i = 0; i < n; i++) { unsigned x = hse_concrete(hse_input(Nm("nr", i), 8, P("nr0", 0), L)), y = hse_concrete(hse_input(Nm("no", i), 8, P("no0", 0), L));
    for (unsigned j = 0; j < x; j++) k[i].ramification_type.push_back(hse_input(Nm("r", 10 * i + j), 32, 0, 0xffffffffu)); for (unsigned j = 0; j < y; j++) k[i].hasse_weil_offsets.push_back((int)hse_input(Nm("o", 10 * i + j), 32, 0, 0xffffffffu)); }
  bool l[3][3], e[3][3];
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { hse_merge(1); l[i][j] = lt(k[i], k[j]); bool q = k[i].ramification_type.size() == k[j].ramification_type.size() && k[i].hasse_weil_offsets.size() == k[j].hasse_weil_offsets.size();
    if (q) { for (unsigned t = 0; t < k[i].ramification_type.size(); t++) q &= k[i].ramification_type[t] == k[j].ramification_type[t]; for (unsigned t = 0; t < k[i].hasse_weil_offsets.size(); t++) q &= k[i].hasse_weil_offsets[t] == k[j].hasse_weil_offsets[t]; }
    e[i][j] = q; hse_merge(0); }
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { hse_assert(e[i][j] == !(l[i][j] | l[j][i]), "keys are equivalent, but different, or the other way round"); hse_assert(!(l[i][j] & l[j][i]), "keys precede each other");
    hse_assert((k[i] == k[j]) == e[i][j], "comparison of keys");
    for (unsigned t = 0; t < n; t++) hse_assert(!(l[i][j] & l[j][t]) | l[i][t], "the order of the keys is not transitive"); }
  hse_obs("l", l[0][n > 1]); hse_reach("end");
}
// C20
typedef unsigned __int128 u128;
static void eq(const SD::ValueType &v, u128 x, const char *id) { fmpz_t w; fmpz_init(w); fmpz_set_ui(w, (unsigned long)(x >> 64)); fmpz_mul_2exp(w, w, 32); fmpz_mul_2exp(w, w, 32); fmpz_add_ui(w, w, (unsigned long)x); hse_assert(fmpz_equal(w, v.counter), id); fmpz_clear(w); }
extern "C" void c20_counts() {
  unsigned nops = P("ops", 3); u128 sx[3];
  { map<int, SD::ValueType> m;
  // values on either side of the size at which their representation changes
  static const char *B[] = {"4611686018427387900", "5", "18446744073709551610"};
  for (int i = 0; i < 3; i++) { unsigned x = hse_input(Nm("x", i), 32, 0, 0xffffu); SD::ValueType v(x); SD::ValueType b{string(B[i])}; v += b;
    sx[i] = x + (i == 0 ? ((u128)1 << 62) - 4 : i == 1 ? 5 : ((u128)1 << 64) - 6); eq(v, sx[i], "sum"); m[i] = v; eq(m[i], sx[i], "assignment"); eq(v, sx[i], "assignment changes the source"); }
  for (unsigned k = 0; k < nops; k++) {
    unsigned op = hse_concrete(hse_input(Nm("op", k), 8, 0, 6)), i = hse_concrete(hse_input(Nm("i", k), 8, 0, P("ni", 3) - 1)), j = hse_concrete(hse_input(Nm("j", k), 8, 0, P("ni", 3) - 1));
    switch (op) {
      case 0: m[i] += m[j]; sx[i] += sx[j]; break;
      case 1: m[i] = m[j]; sx[i] = sx[j]; break;
      case 2: { SD::ValueType c(m[j]); c += m[i]; eq(c, sx[i] + sx[j], "sum in a copy"); break; }
      case 3: { map<int, SD::ValueType> n(m); n[i] += n[j]; n.erase(j); if (i != j) eq(n[i], sx[i] + sx[j], "copied table"); break; }
      case 4: m.erase(i); m[i] = SD::ValueType(7u); sx[i] = 7; break;
      case 5: { vector<SD::ValueType> v; v.push_back(m[i]); v.push_back(m[j]); v.push_back(m[i]); eq(v[0], sx[i], "list"); eq(v[1], sx[j], "list"); m[j] = v[2]; sx[j] = sx[i]; break; }
      case 6: { SD::ValueType c = std::move(m[j]); m[j] = c; hse_assert((m[i] == m[j]) == (sx[i] == sx[j]), "comparison"); break; }
    }
    for (int l = 0; l < 3; l++) eq(m[l], sx[l], "count after an operation");
  } }
  hse_reach("end");
}
// the text of counts, across the sizes at which their representation changes
extern "C" void c20_text() {
  static const char *T[] = {"0", "1", "4611686018427387903", "4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1267650600228229401496703205376", "99999999999999999999999999999999"};
  unsigned i = hse_concrete(hse_input("i", 8, 0, 9)), j = hse_concrete(hse_input("j", 8, 0, 9)), times = hse_concrete(hse_input("times", 8, 1, 2));
  string line = string("1,3;-2,4:") + T[i] + "\n", line2 = string("1,3;") + (hse_concrete(hse_input("same", 1, 0, 1)) ? "-2,4:" : "2,4:") + T[j] + "\n";
  St a; for (unsigned k = 0; k < times; k++) { a.extract(stringstream(line)); a.extract(stringstream(line2)); }
  stringstream o; a.insert(o); St b; b.extract(o);
  fmpz_t s, x; fmpz_init(s); fmpz_init(x); fmpz_set_str(x, T[i], 10); fmpz_add(s, s, x); fmpz_set_str(x, T[j], 10); fmpz_add(s, s, x); fmpz_mul_ui(s, s, times);
  fmpz_t t; fmpz_init(t); for (auto &e : b.tab()) fmpz_add(t, t, e.second.counter);
  hse_assert(fmpz_equal(s, t), "large counts change when written and read");
  hse_obs_str("text", o.str().data(), o.str().size());
  fmpz_clear(s); fmpz_clear(t); fmpz_clear(x);
  hse_reach("end");
}
// sums over the multiplicities of curves over large fields
extern "C" void c20_register() {
  unsigned n = P("n", 2); St st[2]; auto table = make_shared<FqElementTable>(3, 1);
  struct M : Cu { using Cu::Cu; };
  // multiplicities of this size need fields which are too large to enumerate: registering is repeated instead, starting from a large count
  Cu c(table, {0, 2, 2, 0, 0}); c.set(1, 2, 0); c.set(2, 4, 0);
  fmpz_t big; fmpz_init(big); unsigned e = hse_concrete(hse_input("e", 8, 60, 66)); fmpz_set_ui(big, 1); fmpz_mul_2exp(big, big, e - 10); fmpz_mul_2exp(big, big, 10);
  fmpz_sub_ui(big, big, hse_concrete(hse_input("less", 8, 0, 3)));
  CD d(c); unsigned a0 = hse_concrete(hse_input("twist", 1, 0, 1));
  Key k0 = d.as_value(), k1 = d.twist().as_value();
  SD::ValueType v; fmpz_set(v.counter, big); st[0].tab()[k0] = v; st[0].tab()[k1] = v; st[1].tab()[k0] = v;  st[1].tab()[k1] = v;
  fmpz_t m; fmpz_init(m); CurveIterator::multiplicity(m, 3, 3, c.rhs_support());
  for (unsigned i = 0; i < n; i++) st[hse_concrete(hse_input(Nm("s", i), 1, 0, 1))].register_curve(c);
  st[0].flush_to_static_store(vuu_block{make_tuple(0u, 1u)}); st[1].flush_to_static_store(vuu_block{make_tuple(1u, 2u)});
  auto rs = st[0].flush_static_store(); St back; back.extract(stringstream(get<1>(rs)));
  fmpz_mul_ui(big, big, 2); fmpz_mul_ui(m, m, n); fmpz_add(big, big, m);
  hse_assert(back.tab().size() == 2, "entries");
  for (auto &x : back.tab()) hse_assert(fmpz_equal(x.second.counter, big), "large counts are not summed exactly");
  fmpz_clear(m); fmpz_clear(big);
  hse_reach("end");
}
