// C05: the enumerated curves with their multiplicities account for every polynomial exactly once.
#include <memory>
#include "common.h"
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
using namespace std;
static unsigned mult2(unsigned p, unsigned q, unsigned pattern) {
  vector<unsigned> s; for (unsigned i = 0; i < 16; i++) if (pattern >> i & 1) s.push_back(i);
  fmpz_t m; fmpz_init(m); CurveIterator::multiplicity(m, p, q, s); unsigned r = fmpz_get_ui(m); fmpz_clear(m); return 2 * r; }
struct Box { unsigned lo[12], hi[12]; };
// For every polynomial f of degree deg: the sum over all g in the group of coordinate changes
// (x -> bx+a, scaling by c) of 2*multiplicity over the enumerated curves equal to g.f is the order of the group,
// i.e. the enumerated representatives of the class of f count as many curves as there are polynomials in it.
extern "C" void c05_orbits() {
  unsigned p = P("p", 3), r = P("r", 1), g = P("g", 1), deg = P("deg", 3), marked = P("marked", 0), top = P("top", 3), package = P("package", 100000000);
  FqElementTable table(p, r); OField F; F.init(p, r, conway_modulus(p, r)); unsigned q = F.q;
  static unsigned lg[1024]; lg[0] = q - 1; for (unsigned i = 0; i < q - 1; i++) lg[F.ex[i]] = i;
  vector<Box> boxes; unsigned steps = 0;
  for (CurveIterator it(table, g, marked, package); !it.is_end(); it.step()) {
    auto b = it.as_block(); hse_assert(b.size() >= 2 * g + 2 && b.size() <= 2 * g + 3u - marked, "enumerated polynomial of the wrong length");
    hse_assert(get<0>(b.back()) < get<1>(b.back()) && get<1>(b.back()) <= q - 1, "leading coefficient may vanish");
    for (auto &x : b) hse_assert(get<0>(x) < get<1>(x) && get<1>(x) <= q, "coefficient out of range");
    if (b.size() != deg + 1) continue;
    Box x; for (unsigned i = 0; i <= deg; i++) { x.lo[i] = get<0>(b[i]); x.hi[i] = get<1>(b[i]); } boxes.push_back(x); }
  static unsigned M[1 << 12]; for (unsigned k = 0; k < 1u << deg; k++) M[k] = mult2(p, q, k | 1u << deg);
  // f: monic without loss of generality, arbitrary otherwise; its top coefficients are split into cases
  unsigned v[12]; static unsigned dig[12][4]; static unsigned char DT[4][1024];
  for (unsigned x = 0; x < q; x++) for (unsigned d = 0, y = x; d < r; d++, y /= p) DT[d][x] = y % p;
  v[deg] = 1;
  for (unsigned i = deg; i-- > 0;) { v[i] = hse_input(Nm("f", i), 16, 0, q - 1); if (i + top > deg) v[i] = hse_concrete(v[i]); }
  for (unsigned i = 0; i <= deg; i++) for (unsigned d = 0; d < r; d++) dig[i][d] = DT[d][v[i]];
  unsigned sum = 0;
  unsigned binom[12][12]; for (unsigned i = 0; i < 12; i++) for (unsigned j = 0; j <= i; j++) binom[i][j] = j == 0 || j == i ? 1 : (binom[i - 1][j - 1] + binom[i - 1][j]) % p;
  static unsigned MODP[4096]; for (unsigned i = 0; i < 4096; i++) MODP[i] = i % p;
  hse_merge(1);
  for (unsigned a = 0; a < q; a++) {
    unsigned t[12]; unsigned ap[12]; ap[0] = 1; for (unsigned i = 1; i < 12; i++) ap[i] = F.mul(ap[i - 1], a);
    unsigned pat = 0;
    for (unsigned i = 0; i <= deg; i++) {
      unsigned acc[4] = {0, 0, 0, 0};
      for (unsigned j = i; j <= deg; j++) {
        unsigned c = 0; for (unsigned k = 0; k < binom[j][i]; k++) c = F.add(c, ap[j - i]);
        if (!c) continue;
        for (unsigned d = 0, w = 1; d < r; d++, w *= p) { unsigned im = F.mul(c, w); for (unsigned e = 0; e < r; e++) { acc[e] += im % p * dig[j][d]; im /= p; } } }
      unsigned code = 0; for (unsigned e = r; e-- > 0;) code = code * p + MODP[acc[e]];
      t[i] = lg[code]; if (i < deg) pat |= (unsigned)(t[i] != q - 1) << i;
    }
    unsigned m = M[pat];
    for (unsigned b = 0; b < q - 1; b++) for (unsigned c = 0; c < q - 1; c++) {
      static unsigned SH[1024]; unsigned u[12];
      for (unsigned i = 0; i <= deg; i++) { for (unsigned x = 0; x < q - 1; x++) SH[x] = (x + b * i + c) % (q - 1); SH[q - 1] = q - 1; u[i] = SH[t[i]]; }
      unsigned n = 0;
      for (auto &x : boxes) { unsigned in = 1; for (unsigned i = deg + 1; i-- > 0;) { if (x.lo[i] == 0 && x.hi[i] == q) continue; in &= (u[i] >= x.lo[i]) & (u[i] < x.hi[i]); if (hse_is_concrete(in) && !in) break; } n += in; }
      sum += hse_is_concrete(n) && !n ? 0 : n * m;
    }
  }
  hse_merge(0);
  unsigned want = marked && deg == 2 * g + 2 ? 0 : q * (q - 1) * (q - 1);
  hse_obs("sum", sum);
  hse_assert(sum == want, "the curves enumerated for a class do not add up to its size");
  hse_reach("end");
}
// The package size does not change what is enumerated.
extern "C" void c05_packages() {
  unsigned p = P("p", 3), r = P("r", 1), g = P("g", 1), marked = P("marked", 0);
  FqElementTable table(p, r); unsigned q = 1; for (unsigned i = 0; i < r; i++) q *= p;
  unsigned deg = 2 * g + 1 + (marked ? 0 : hse_concrete(hse_input("deg", 8, 0, 1)));
  unsigned package = P("package", 1);
  unsigned e[12]; for (unsigned i = 0; i <= deg; i++) e[i] = hse_input(Nm("e", i), 16, 0, i == deg ? q - 2 : q - 1);
  unsigned hits[2] = {0, 0}, pos = 0, seen = 0, n = 0;
  hse_merge(1);
  for (int k = 0; k < 2; k++) for (CurveIterator it(table, g, marked, k ? package : 2000000000u); !it.is_end(); it.step()) {
    auto b = it.as_block(); unsigned in = b.size() == deg + 1, vol = 1;
    for (unsigned i = 0; i <= deg && i < b.size(); i++) in &= (get<0>(b[i]) <= e[i]) & (e[i] < get<1>(b[i]));
    for (auto &x : b) vol *= get<1>(x) - get<0>(x);
    if (k) { hse_assert(vol <= package, "package exceeds the package size"); if (++n > 100000) hse_fail("enumeration does not end"); }
    hits[k] += in; }
  hse_merge(0);
  hse_assert(hits[0] == hits[1], "the package size changes what is enumerated");
  hse_assert(hits[1] <= 1, "a curve is enumerated twice");
  hse_reach("end");
}
