// C18: counting a single curve over a prime field.
#include <memory>
#include "common.h"
#include "curve.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
#include "single_curve_fp.hh"
using namespace std;
static const SingleCurveCountImplementation impl[] = { SingleCurveCountImplementationCPU, SingleCurveCountImplementationNaiveNMod, SingleCurveCountImplementationNaiveZech };
extern "C" void c18_coefficients() {
  unsigned p = P("p", 3), size = P("size", 4), deg = P("deg", 3), which = P("impl", 0);
  vector<unsigned> c; unsigned m[16];
  for (unsigned i = 0; i < size; i++) { m[i] = i < P("free", 16) ? hse_input(Nm("c", i), 32, 0, p - 1) : (i * i + 3) % p; c.push_back((unsigned)hse_input(Nm("multiple", i), 32, 0, 0xffffffffu / p - 1) * p + m[i]); }
  // degree of the polynomial modulo p
  hse_assume(m[deg] != 0); for (unsigned i = deg + 1; i < size; i++) hse_assume(m[i] == 0);
  auto curve = single_curve_fp(p, c, impl[which]);
  hse_assert(curve->prime() == p && curve->prime_exponent() == 1, "field");
  hse_assert(curve->degree() == deg, "degree of the curve counted");
  FqElementTable t(p, 1); auto e = curve->rhs_coeff_exponents();
  unsigned ok = 1; for (unsigned i = 0; i <= deg; i++) { hse_assert(e[i] < p, "coefficient is no element"); ok &= (unsigned)t.at_nmod(e[i]) == m[i]; }
  hse_assert(ok, "coefficients of the curve counted");
  unsigned g = (deg - 1) / 2; for (unsigned k = 1; k <= g; k++) hse_assert(curve->has_counted(k), "extension not counted");
  hse_assert(curve->max_prime_exponent() == g, "extensions counted");
  // points over F_p by definition
  if (P("points", 1)) {
  unsigned n2 = 0, n1 = 0;
  static unsigned modp[65536], sq[256]; for (unsigned i = 0; i < 65536 && i < 16 * p * p; i++) modp[i] = i % p; for (unsigned i = 0; i < p; i++) sq[i] = 0; for (unsigned i = 1; i < p; i++) sq[i * i % p] = 2;
  hse_merge(1);
  for (unsigned x = 0; x < p; x++) { unsigned v = 0, w = 1; for (unsigned i = 0; i <= deg; i++) { v += m[i] * w; w = w * x % p; } v = modp[v]; n2 += sq[v]; n1 += v == 0; }
  hse_merge(0);
  if (deg & 1) n1++; else n2 += sq[m[deg]];
  auto pts = curve->number_of_points(1);
  hse_assert((get<0>(pts[0]) == n2) & (get<1>(pts[0]) == n1), "number of points");
  hse_obs("n2", n2); hse_obs("n1", n1); }
  hse_reach("end");
}
// primes beyond 2^16: the generator is drawn, products of two elements need more than 32 bits
extern "C" void c18_large() {
  unsigned p = P("p", 65539); vector<unsigned> c; unsigned m[4] = {1, 2, 3, 4}; unsigned k = hse_concrete(hse_input("multiple", 16, 0, 1));
  for (unsigned i = 0; i < 4; i++) c.push_back(m[i] + k * p);
  auto curve = single_curve_fp(p, c, impl[0]);
  FqElementTable t(p, 1); auto e = curve->rhs_coeff_exponents();
  for (unsigned i = 0; i < 4; i++) { hse_assert(e[i] < p, "coefficient is no element"); hse_assert((unsigned)t.at_nmod(e[i]) == m[i], "coefficients of the curve counted"); }
  hse_reach("end");
}
