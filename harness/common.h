// Shared pieces of the harnesses: naming of symbolic inputs and an independent
// finite field oracle (tables built from polynomial arithmetic written here).
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <hse_api.h>

static inline uint64_t P(const char *n, uint64_t d) { return hse_param(n, d); }
struct Nm { char s[64]; Nm(const char *b, long i = -1, long j = -1) { int n = 0; while (*b) s[n++] = *b++; put(n, i); put(n, j); s[n] = 0; }
  void put(int &n, long v) { if (v < 0) return; s[n++] = '_'; char t[20]; int k = 0; do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k) s[n++] = t[--k]; }
  operator const char *() const { return s; } };

// F_{p^n} = F_p[T]/(m), elements coded as sum c_i p^i
struct OField {
  unsigned p, n, q; std::vector<unsigned> m; std::vector<unsigned char> sq; std::vector<unsigned> ex; // squares (0 counts as 2)
  unsigned add(unsigned a, unsigned b) const { unsigned r = 0, w = 1; while (a || b) { r += (a % p + b % p) % p * w; w *= p; a /= p; b /= p; } return r; }
  unsigned mul(unsigned a, unsigned b) const {
    unsigned t[64]; for (unsigned i = 0; i < 2 * n; i++) t[i] = 0;
    for (unsigned i = 0, x = a; i < n; i++, x /= p) for (unsigned j = 0, y = b; j < n; j++, y /= p) t[i + j] = (t[i + j] + (x % p) * (y % p)) % p;
    for (unsigned i = 2 * n; i-- > n;) if (t[i]) { unsigned c = t[i]; t[i] = 0; for (unsigned j = 0; j < n; j++) t[i - n + j] = (t[i - n + j] + (p - m[j]) * c) % p; }
    unsigned r = 0; for (unsigned i = n; i-- > 0;) r = r * p + t[i]; return r; }
  unsigned gen() const { return n == 1 ? (p - m[0]) % p : p; }
  unsigned pw(unsigned a, unsigned e) const { unsigned r = 1; for (; e; --e) r = mul(r, a); return r; }
  void init(unsigned p_, unsigned n_, const std::vector<unsigned> &m_) { p = p_; n = n_; m = m_; q = 1; for (unsigned i = 0; i < n; i++) q *= p;
    sq.assign(q, 0); unsigned g = gen(), x = 1; ex.assign(q, 0);
    for (unsigned i = 0; i < q - 1; i++) { ex[i] = x; x = mul(x, g); } }
  // squares by squaring every element
  void squares() { for (unsigned a = 1; a < q; a++) sq[mul(a, a)] = 1; sq[0] = 2; }
};
#include <flint/fq_nmod.h>
static inline std::vector<unsigned> conway_modulus(unsigned p, unsigned n) {
  fmpz_t P; fmpz_init_set_ui(P, p); fq_nmod_ctx_t c; fq_nmod_ctx_init_conway(c, P, n, "T"); fmpz_clear(P);
  std::vector<unsigned> m; for (unsigned i = 0; i <= n; i++) m.push_back(nmod_poly_get_coeff_ui(c->modulus, i)); fq_nmod_ctx_clear(c); return m; }
// image of each power of the generator of F_q in F_Q: by evaluating its polynomial at a root of the modulus of F_q
static inline std::vector<unsigned> embed(const OField &f, const OField &F) {
  unsigned th = F.gen(); th = F.pw(th, (F.q - 1) / (f.q - 1));
  std::vector<unsigned> img(f.q);
  for (unsigned a = 0; a < f.q; a++) { unsigned r = 0, w = 1, x = a; for (unsigned i = 0; i < f.n; i++, x /= f.p) { for (unsigned k = 0; k < x % f.p; k++) r = F.add(r, w); w = F.mul(w, th); } img[a] = r; }
  return img; }
