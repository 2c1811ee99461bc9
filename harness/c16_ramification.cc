// C16, C17: invariants read off the counted points.
#include <algorithm>
#include <memory>
#include "common.h"
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include <flint/fq_nmod_poly.h>
#include <flint/nmod_poly.h>
using namespace std;
struct Cu : Curve { using Curve::Curve; void set(unsigned fx, unsigned n2, unsigned n1) { nmb_points[fx] = make_tuple(n2, n1); } };
static unsigned ipow(unsigned b, unsigned e) { unsigned r = 1; while (e--) r *= b; return r; }
static fq_nmod_ctx_struct *context(unsigned p, unsigned r) { static fq_nmod_ctx_t c; static int on; if (!on) { on = 1; fmpz_t P; fmpz_init_set_ui(P, p); fq_nmod_ctx_init_conway(c, P, r, "T"); fmpz_clear(P); } return c; }
static unsigned hookDeg[16], hookCalls; static vector<unsigned> hookCodes; static int hookOrder;
#ifdef HSE_ENGINE
extern "C" int hse_factor_hook(const unsigned long *codes, int n, unsigned long q, int *degs, int *exps, int max) {
  hookCalls++; hse_assert(n == (int)hookCodes.size(), "factored polynomial has the wrong degree"); unsigned ok = 1; for (int i = 0; i < n; i++) ok &= codes[i] == hookCodes[i]; hse_assert(ok, "factored polynomial is not the right hand side");
  int k = 0; for (unsigned d = 1; d < 16; d++) for (unsigned j = 0; j < hookDeg[d]; j++) { degs[k] = d; exps[k++] = 1; }
  if (hookOrder) for (int i = 0; i < k / 2; i++) swap(degs[i], degs[k - 1 - i]);
  return k; }
#else
// a product of different irreducible polynomials of the given degrees
static vector<unsigned> product(const FqElementTable &t, unsigned p, unsigned r, const unsigned *m) {
  vector<unsigned> e; unsigned q = ipow(p, r);
  fq_nmod_poly_t f, g, h; const fq_nmod_ctx_struct *c = context(p, r); fq_nmod_poly_init(f, c); fq_nmod_poly_init(g, c); fq_nmod_poly_one(f, c);
  for (unsigned d = 1; d < 16; d++) { unsigned left = m[d];
    for (unsigned long k = 0; left; k++) { fq_nmod_poly_zero(g, c); unsigned long s = k; for (unsigned i = 0; i < d; i++, s /= q) fq_nmod_poly_set_coeff(g, i, t.at(s % q), c); fq_nmod_t one; fq_nmod_init(one, c); fq_nmod_one(one, c); fq_nmod_poly_set_coeff(g, d, one, c); fq_nmod_clear(one, c);
      if (s) hse_fail("model: not enough irreducible polynomials"); if (fq_nmod_poly_is_irreducible(g, c)) { fq_nmod_poly_mul(f, f, g, c); --left; } } }
  for (long i = 0; i <= fq_nmod_poly_degree(f, c); i++) { fq_nmod_t x; fq_nmod_init(x, c); fq_nmod_poly_get_coeff(x, f, i, c); for (unsigned j = 0; j < q; j++) if (fq_nmod_equal(x, t.at(j), c)) e.push_back(j); fq_nmod_clear(x, c); }
  fq_nmod_poly_clear(f, c); fq_nmod_poly_clear(g, c); return e; }
#endif
extern "C" void c16_types() {
  unsigned p = P("p", 11), r = P("r", 1), deg = P("deg", 6), kmax = P("kmax", 6), q = ipow(p, r);
  auto table = make_shared<FqElementTable>(p, r);
  // number of irreducible factors of each degree
  unsigned sum = 0; for (unsigned d = 1; d <= deg; d++) sum += d * (hookDeg[d] = hse_input(Nm("factors", d), 8, 0, deg / d));
  hse_assume(sum == deg);
  // points are counted over the extensions 1..first-1 and first+1..kmax except for one more
  unsigned first = hse_concrete(hse_input("first", 8, 1, kmax + 1)), gap = first < kmax ? hse_concrete(hse_input("gap", 8, first, kmax)) : first;
  vector<unsigned> e;
  unsigned lead = hse_concrete(hse_input("lead", 1, 0, 1));
  hookOrder = hse_concrete(hse_input("order", 1, 0, 1));
#ifdef HSE_ENGINE
  for (unsigned i = 0; i < deg; i++) e.push_back(i % 3 == 1 ? q - 1 : (5 * i + 1) % (q - 1)); e.push_back(0);
#else
  e = product(*table, p, r, hookDeg);
#endif
  if (lead) for (auto &x : e) if (x != q - 1) x = (x + 1) % (q - 1);
  Cu c(table, e);
  for (unsigned i = 0; i <= deg; i++) { unsigned w = 0; if (r == 1) w = table->at_nmod(e[i]); else { auto x = table->at(e[i]); for (unsigned j = 0, s = 1; j < r; j++, s *= p) w += s * nmod_poly_get_coeff_ui(x, j); } hookCodes.push_back(w); }
  for (unsigned k = 1; k <= kmax; k++) if (k != first && k != gap) {
    unsigned n = deg & 1; for (unsigned d = 1; d <= k; d++) if (k % d == 0) n += d * hookDeg[d];
    c.set(r * k, hse_input(Nm("unramified", k), 32, 0, 1000), n); }
  auto ram = c.ramification_type();
  vector<unsigned> cnt(16, 0); unsigned sorted = 1, total = 0; for (size_t i = 0; i < ram.size(); i++) { hse_assert(ram[i] >= 1 && ram[i] <= deg, "degree out of range"); cnt[ram[i]]++; total += ram[i]; if (i) sorted &= ram[i - 1] <= ram[i]; }
  unsigned ok = 1; for (unsigned d = 1; d <= deg; d++) ok &= cnt[d] == hookDeg[d] + (d == 1 && (deg & 1));
  hse_assert(ok, "ramification type is not the list of degrees of the factors");
  hse_assert(sorted, "ramification type is not sorted");
  hse_obs("parts", ram.size()); hse_obs("total", total);
  hse_reach("end");
}
// the polynomial used for factoring and squarefreeness is the right hand side
extern "C" void c16_rhs() {
  unsigned p = P("p", 3), r = P("r", 1), size = P("size", 5), q = ipow(p, r);
  auto table = make_shared<FqElementTable>(p, r); OField F; F.init(p, r, conway_modulus(p, r));
  static unsigned code[1024]; for (unsigned i = 0; i < q - 1; i++) code[i] = F.ex[i]; code[q - 1] = 0;
  vector<unsigned> e; for (unsigned i = 0; i < size; i++) e.push_back(hse_input(Nm("e", i), 32, 0, q - 1));
  hse_assume(e[0] != q - 1 || size > 3); hse_assume(e.back() != q - 1 || e[1] != q - 1 || e[2] != q - 1); hse_assume(e[2] != q - 1);
  Curve c(table, e);
  unsigned n = size; while (e[n - 1] == q - 1) n--;
  hse_assert(c.degree() == n - 1, "degree"); hse_assert(c.genus() == (n - 2) / 2, "genus");
  vector<unsigned> s = c.rhs_support(); unsigned sup = 0; for (auto i : s) sup |= 1u << i; for (unsigned i = 0; i < size; i++) hse_assert((sup >> i & 1) == (e[i] != q - 1), "support");
  hse_assert(s.back() == n - 1, "support misses the leading coefficient");
  if (r == 1) { auto f = c.rhs_nmod_polynomial(); hse_assert(nmod_poly_length(&f) == n, "length of the polynomial over the prime field"); for (unsigned i = 0; i < n; i++) hse_assert(nmod_poly_get_coeff_ui(&f, i) == code[e[i]], "coefficient over the prime field"); nmod_poly_clear(&f); }
  auto f = c.rhs_polynomial(); auto ctx = context(p, r); hse_assert(fq_nmod_poly_length(&f, ctx) == n, "length of the polynomial");
  for (unsigned i = 0; i < n; i++) { fq_nmod_t x; fq_nmod_init(x, ctx); fq_nmod_poly_get_coeff(x, &f, i, ctx); unsigned v = code[e[i]], ok = 1; for (unsigned j = 0; j < r; j++, v /= p) ok &= nmod_poly_get_coeff_ui(x, j) == v % p; hse_assert(ok, "coefficient"); fq_nmod_clear(x, ctx); }
  fq_nmod_poly_clear(&f, ctx);
  hse_obs("n", n); hse_obs("support", sup); hse_reach("end");
}
#ifdef HSE_ENGINE
// squarefreeness is asked about the right hand side and the answer is passed on
static unsigned sqfAsk, sqfAnswer;
extern "C" int hse_squarefree_hook(const unsigned long *codes, int n, unsigned long q) { if (!sqfAsk) return -1; hse_assert(n == (int)hookCodes.size(), "length"); unsigned ok = 1; for (int i = 0; i < n; i++) ok &= codes[i] == hookCodes[i]; hse_assert(ok, "polynomial"); return sqfAnswer; }
#endif
// squarefree if and only if no square of a polynomial of positive degree divides
extern "C" void c16_squarefree() {
  unsigned p = P("p", 3), r = P("r", 1), size = P("size", 5), q = ipow(p, r);
  auto table = make_shared<FqElementTable>(p, r); OField F; F.init(p, r, conway_modulus(p, r));
  vector<unsigned> e, v; static unsigned code[1024]; for (unsigned i = 0; i < q - 1; i++) code[i] = F.ex[i]; code[q - 1] = 0;
  for (unsigned i = 0; i < size; i++) { unsigned x = hse_input(Nm("e", i), 32, 0, i + 1 == size ? q - 2 : q - 1); if (i >= P("free", 2)) x = hse_concrete(x); e.push_back(x); v.push_back(code[x]); }
  Curve c(table, e); hse_merge(1); unsigned got = c.has_squarefree_rhs(); hse_merge(0);
  // the number of roots, counted by multiplicity, in every extension would be needed; instead: f = g^2 h by trying every monic g
  unsigned bad = 0;
  static unsigned mulT[64][64]; if (q > 64) hse_fail("model: field too large"); for (unsigned a = 0; a < q; a++) for (unsigned b = 0; b < q; b++) mulT[a][b] = F.mul(a, b);
  static unsigned dg[64][4]; for (unsigned a = 0; a < q; a++) for (unsigned j = 0, s = a; j < r; j++, s /= p) dg[a][j] = s % p;
  for (unsigned d = 1; 2 * d < size; d++) { unsigned ng = ipow(q, d);
    for (unsigned k = 0; k < ng; k++) { unsigned g[8], s = k; for (unsigned i = 0; i < d; i++, s /= q) g[i] = s % q; g[d] = 1; unsigned gg[16] = {0}; for (unsigned i = 0; i <= d; i++) for (unsigned j = 0; j <= d; j++) gg[i + j] = F.add(gg[i + j], mulT[g[i]][g[j]]);
      // remainder of X^i modulo gg, then of f as a linear combination
      unsigned rem[16][16]; for (unsigned i = 0; i < size; i++) { for (unsigned j = 0; j < 2 * d; j++) rem[i][j] = i < 2 * d ? i == j : 0; if (i >= 2 * d) { unsigned t = rem[i - 1][2 * d - 1]; for (unsigned j = 0; j < 2 * d; j++) { unsigned neg = 0; for (unsigned z = 0; z < p - 1; z++) neg = F.add(neg, mulT[t][gg[j]]); rem[i][j] = F.add(j ? rem[i - 1][j - 1] : 0, neg); } } }
      unsigned zero = 1;
      for (unsigned j = 0; j < 2 * d; j++) { unsigned acc[4] = {0, 0, 0, 0}; for (unsigned i = 0; i < size; i++) if (rem[i][j]) { static unsigned row[64]; for (unsigned w = 0; w < r; w++) { for (unsigned a = 0; a < q; a++) row[a] = dg[mulT[a][rem[i][j]]][w]; acc[w] += row[v[i]]; } }
        static unsigned modp[1024]; for (unsigned i = 0; i < 1024; i++) modp[i] = i % p; for (unsigned w = 0; w < r; w++) zero &= modp[acc[w]] == 0; }
      bad |= zero; } }
  hse_assert(got == !bad, "squarefreeness of the right hand side");
  hse_obs("squarefree", got); hse_reach("end");
}
// C17
extern "C" void c17_offsets() {
  unsigned p = P("p", 3), r = P("r", 1), kmax = P("kmax", 4), Q = ipow(p, r);
  auto table = make_shared<FqElementTable>(p, r);
  Cu c(table, vector<unsigned>{0, Q - 1, Q - 1, 0, 1});
  unsigned mask = hse_concrete(hse_input("counted", 8, 0, (1u << kmax) - 1)), run = 0; bool open = true;
  long want[16]; unsigned n2[16], n1[16];
  for (unsigned k = 1; k <= kmax; k++) { unsigned long q = 1; for (unsigned i = 0; i < k; i++) q *= Q;
    if (!(mask >> (k - 1) & 1)) { open = false; continue; }
    if (open) run = k;
    n2[k] = hse_input(Nm("unramified", k), 32, 0, 2 * q + 2); n1[k] = hse_input(Nm("ramified", k), 8, 0, 10); hse_assume((unsigned long)n1[k] + n2[k] <= 2 * q + 2);
    want[k] = (long)(q + 1) - (long)n2[k] - (long)n1[k]; c.set(r * k, n2[k], n1[k]); }
  if (P("other", 0)) c.set(r * kmax + 1, 5, 1); // an extension of no interest
  hse_assert(c.max_prime_exponent() == r * run, "range of counted extensions");
  for (unsigned k = 1; k <= kmax; k++) hse_assert(c.has_counted(r * k) == (mask >> (k - 1) & 1), "counted");
  for (unsigned up = 1; up <= run; up++) {
    vector<int> o = c.hasse_weil_offsets(r * up); hse_assert(o.size() == up, "number of offsets");
    auto pts = c.number_of_points(r * up); hse_assert(pts.size() == up, "number of point counts");
    for (unsigned k = 1; k <= up; k++) { hse_assert(o[k - 1] == want[k], "offset"); hse_assert((get<0>(pts[k - 1]) == n2[k]) & (get<1>(pts[k - 1]) == n1[k]), "point counts"); } }
  map<unsigned, int> all = c.hasse_weil_offsets();
  for (unsigned k = 1; k <= kmax; k++) { auto i = all.find(r * k); hse_assert((i != all.end()) == (mask >> (k - 1) & 1), "set of offsets"); if (i != all.end()) hse_assert(i->second == want[k], "offset by extension"); }
  hse_obs("run", run); if (run) hse_obs("first", want[1] + 1000);
  hse_reach("end");
}
