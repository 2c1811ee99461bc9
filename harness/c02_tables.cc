// C02: the field tables describe the field, and the two kinds of table use the same generator.
#include <memory>
#include "common.h"
#include "curve.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
using namespace std;
struct Red : ReductionTable { Red(unsigned p, unsigned n) : ReductionTable(p, n) {}
  long inc(size_t i) { return incrementation_table->at(i); } size_t incs() { return incrementation_table->size(); }
  long red(size_t i) { return exponent_reduction_table->at(i); } size_t reds() { return exponent_reduction_table->size(); } };
static unsigned code(const fq_nmod_struct *a, unsigned p, unsigned r) { unsigned c = 0; for (unsigned i = r; i-- > 0;) c = c * p + nmod_poly_get_coeff_ui(a, i); return c; }
static const unsigned MX = 4096;
static unsigned E[MX], LG[MX], INC[MX], RED[2 * MX], MODV[2 * MX];
extern "C" void c02_tables() {
  unsigned p = P("p", 3), r = P("r", 1), q = 1; for (unsigned i = 0; i < r; i++) q *= p;
  // the field the tables claim to be about, built the same way FLINT builds it for them
  fmpz_t pf; fmpz_init_set_ui(pf, p); fq_nmod_ctx_t ctx; fq_nmod_ctx_init(ctx, pf, r, "T"); fmpz_clear(pf);
  OField F; { vector<unsigned> m; for (unsigned i = 0; i <= r; i++) m.push_back(nmod_poly_get_coeff_ui(ctx->modulus, i)); F.p = p; F.n = r; F.m = m; F.q = q; }
  FqElementTable table(p, r);
  Red red(p, r);
  hse_assert(table.zero_index() == q - 1, "index of zero");
  hse_assert(get<0>(table.block_non_zero()) == 0 && get<1>(table.block_non_zero()) == q - 1, "block of non-zero elements");
  hse_assert(get<0>(table.block_complete()) == 0 && get<1>(table.block_complete()) == q, "block of all elements");
  for (unsigned i = 0; i < q; i++) { E[i] = code(table.at(i), p, r); if (r == 1) hse_assert((unsigned)table.at_nmod(i) == E[i], "prime field access"); hse_assert(E[i] < q, "element out of range"); }
  for (unsigned i = 0; i < q; i++) LG[i] = q;
  for (unsigned i = 0; i < q; i++) LG[E[i]] = i;
  hse_obs("g", E[1]);
  // every element has exactly one index
  unsigned x = hse_input("x", 32, 0, q - 1);
  hse_assert(LG[x] < q, "an element without index");
  hse_assert(E[q - 1] == 0, "last index is not zero"); hse_assert(E[0] == 1, "first index is not one");
  // multiplication is addition of indices: by the generator, for every index
  static unsigned NX[MX]; for (unsigned i = 0; i < q; i++) NX[i] = F.mul(E[i], E[1]);
  unsigned i = hse_input("i", 32, 0, q - 2);
  hse_assert(NX[i] == E[i + 2 == q || q == 2 ? 0 : i + 1], "multiplication by the generator");
  if (q == 3) hse_assert(E[1] == 2, "generator");
  // incrementation: 1 + g^i, with the generator of the element table
  hse_assert(red.incs() >= q, "incrementation table too small");
  for (unsigned k = 0; k < q; k++) { INC[k] = red.inc(k); hse_assert(INC[k] < q, "incrementation out of range"); }
  static unsigned PL[MX]; for (unsigned k = 0; k < q; k++) PL[k] = F.add(E[k], 1);
  unsigned j = hse_input("j", 32, 0, q - 1);
  hse_assert(E[INC[j]] == PL[j], "incrementation table is not x -> x+1 for the generator of the element table");
  // exponent reduction
  hse_assert(red.reds() >= 2 * (q - 1), "exponent reduction table too small");
  for (unsigned k = 0; k < 2 * (q - 1); k++) { RED[k] = red.red(k); MODV[k] = k % (q - 1); }
  unsigned k = hse_input("k", 32, 0, 2 * (q - 1) - 1);
  hse_assert(RED[k] == MODV[k], "exponent reduction");
  unsigned ri = hse_input("ri", 32, 0, 4 * q);
  hse_assert(table.reduce_index(ri) == ri % (q - 1), "index reduction");
  hse_reach("end");
  fq_nmod_ctx_clear(ctx);
}
// the coset representatives of the n-th powers: one in every coset
extern "C" void c02_cosets() {
  unsigned p = P("p", 3), r = P("r", 1), q = 1; for (unsigned i = 0; i < r; i++) q *= p;
  FqElementTable table(p, r);
  unsigned n = hse_concrete(hse_input("n", 32, 1, P("nmax", 8)));
  auto c = table.power_coset_representatives(n);
  hse_obs("size", c.size());
  unsigned e = hse_input("e", 32, 0, q - 2); // any non-zero element g^e
  unsigned hits = 0;
  static unsigned char isp[MX]; for (unsigned k = 0; k < q - 1; k++) isp[k] = 0; for (unsigned k = 0; k < q - 1; k++) isp[(unsigned long)n * k % (q - 1)] = 1;
  for (unsigned x : c) { hse_assert(x < q - 1, "coset representative is no unit"); unsigned d = e + (q - 1) - x; d = d >= q - 1 ? d - (q - 1) : d; hits += isp[d]; }
  hse_assert(hits == 1, "coset representatives: an element is in no coset or in several");
  hse_reach("end");
}
