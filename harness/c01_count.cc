// C01: Curve::count agrees with the definition of the number of points.
#include <memory>
#include "common.h"
#include "curve.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
using namespace std;
extern "C" void c01_count() {
  unsigned p = P("p", 3), r = P("r", 1), k = P("k", 1), size = P("size", 6);
  auto table = make_shared<FqElementTable>(p, r);
  auto red = make_shared<ReductionTable>(p, r * k);
  OField f, F; f.init(p, r, conway_modulus(p, r)); F.init(p, r * k, conway_modulus(p, r * k)); F.squares();
  vector<unsigned> img = embed(f, F);
  unsigned q = f.q, Q = F.q;
  vector<unsigned> e(size);
  hse_merge(1);
  for (unsigned i = 0; i < size; i++) e[i] = hse_input(Nm("e", i), 32, 0, i + 1 == size ? q - 2 : q - 1);
  hse_merge(0);
  Curve c(table, e);
  hse_merge(1);
  c.count(*red);
  hse_merge(0);
  auto &np = c.number_of_points().at(r * k);
  // oracle: f(x) by addition of coefficient times x^i, kept as a discrete logarithm between steps
  vector<unsigned> lg(Q); lg[0] = Q - 1; for (unsigned i = 0; i < Q - 1; i++) lg[F.ex[i]] = i;
  hse_merge(1);
  unsigned n2 = 0, n1 = 0;
  for (unsigned x = 0; x < Q; x++) {
    unsigned L = Q - 1, xp = 1;
    for (unsigned i = 0; i < size; i++) {
      static unsigned char T[8][4096], E[8][4096]; static unsigned lgt[4096];
      for (unsigned j = 0; j < q; j++) { unsigned v = j == q - 1 ? 0 : F.mul(img[f.ex[j]], xp); for (unsigned d = 0; d < F.n; d++, v /= p) T[d][j] = v % p; }
      for (unsigned j = 0; j < Q; j++) { unsigned v = j == Q - 1 ? 0 : F.ex[j]; for (unsigned d = 0; d < F.n; d++, v /= p) E[d][j] = v % p; lgt[j] = lg[j]; }
      unsigned v = 0; for (unsigned d = F.n; d-- > 0;) { unsigned s = E[d][L] + T[d][e[i]]; v = v * p + (s >= p ? s - p : s); }
      L = hse_hint(lgt[v]);
      xp = F.mul(xp, x);
    }
    static unsigned char sqt[4096]; for (unsigned j = 0; j < Q; j++) sqt[j] = F.sq[j == Q - 1 ? 0 : F.ex[j]];
    unsigned char s = sqt[L];
    n2 += s == 1 ? 2 : 0; n1 += s == 2 ? 1 : 0;
  }
  if ((size - 1) % 2) n1 += 1; else { unsigned char s = F.sq[img[f.ex[e[size - 1]]]]; n2 += s == 1 ? 2 : 0; }
  hse_merge(0);
  hse_obs("n2", get<0>(np)); hse_obs("n1", get<1>(np));
  hse_assert((get<0>(np) == n2) & (get<1>(np) == n1), "point count differs from the definition");
  hse_reach("end");
}
