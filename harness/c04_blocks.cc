// C04: the packages of an enumeration partition it.
#include "common.h"
#include "block_iterator.hh"
#include <tuple>
using namespace std;
// kinds: base 3 digits, one per coordinate: 0 interval, 1 set, 2 set that depends on an earlier set
extern "C" void c04_partition() {
  unsigned n = P("n", 2), kinds = P("kinds", 0), S = P("size", 3), cap = P("cap", 64), via = P("via", 0), free = P("free", 1);
  map<size_t, tuple<unsigned, unsigned>> blocks; map<size_t, vector<unsigned>> sets; map<size_t, tuple<size_t, map<unsigned, vector<unsigned>>>> dep;
  unsigned lo[8], sz[8], kd[8], t[8], total = 1, from = 8, dz[8][8], of = 0;
  for (unsigned i = 0, k = kinds; i < n; i++, k /= 3) {
    kd[i] = k % 3;
    // the position of a coordinate is free, its extent is decided case by case
    lo[i] = free ? hse_input(Nm("lo", i), 32, 0, 1u << 20) : 2 * i + 1;
    sz[i] = kd[i] == 2 ? 1 : hse_concrete(hse_input(Nm("sz", i), 32, 1, S)); total *= sz[i];
    if (kd[i] == 0) blocks[i] = make_tuple(lo[i], lo[i] + sz[i]);
    else if (kd[i] == 1) { from = i; for (unsigned j = 0; j < sz[i]; j++) sets[i].push_back(lo[i] + 2 * j); }
    else { map<unsigned, vector<unsigned>> m; for (unsigned j = 0; j < sz[from]; j++) { dz[i][j] = hse_concrete(hse_input(Nm("dz", i * 10 + j), 32, 1, S)); for (unsigned l = 0; l < dz[i][j]; l++) m[j].push_back(lo[i] + 64 * j + l); } dep[i] = make_tuple((size_t)from, m); }
  }
  // the sizes of dependent sets differ
  if (from < 8) { unsigned s = 0; for (unsigned j = 0; j < sz[from]; j++) { unsigned w = 1; for (unsigned i = 0; i < n; i++) if (kd[i] == 2) w *= dz[i][j]; s += w; } total = total / sz[from] * s; }
  // package sizes: all up to one more than the number of elements, and the largest ones
  unsigned package = hse_concrete(hse_input("package", 32, 1, total + 3));
  if (package == total + 2) package = 0x7fffffff; if (package == total + 3) package = 0xffffffff;
  if (total > cap) { hse_reach("end"); return; }
  // an arbitrary point of the product
  for (unsigned i = 0; i < n; i++) {
    unsigned o = hse_input(Nm("t", i), 32, 0, kd[i] == 2 ? S - 1 : sz[i] - 1);
    if (i == from) of = o;
    if (kd[i] == 2) { unsigned ok = 0; for (unsigned j = 0; j < sz[from]; j++) ok |= (of == j) & (o < dz[i][j]); hse_assume(ok); }
    t[i] = lo[i] + (kd[i] == 1 ? 2 * o : o);
    if (kd[i] == 2) t[i] += 32 * (t[from] - lo[from]);
  }
  // an arbitrary point: only to be reported if it lies outside of the product
  unsigned hits = 0, pos = 0, packages = 0, outside = 0, seen = 0;
  auto in = [&](const vector<unsigned> &p) {
    unsigned ok = p.size() == n;
    for (unsigned i = 0; i < n; i++) { unsigned d = p[i] - lo[i];
      if (kd[i] == 2) { unsigned f = p[from] - lo[from], s = 0; d -= 32 * f; for (unsigned j = 0; j < sz[from]; j++) s |= (f == 2 * j) & (d < dz[i][j]); ok &= s; continue; }
      ok &= kd[i] == 1 ? ((d % 2 == 0) & (d < 2 * sz[i])) : (d < sz[i]); }
    return ok; };
  BlockIterator it(n, blocks, package, sets, dep);
  for (; !it.is_end(); it.step()) {
    hse_assert(++packages <= total, "more packages than elements");
    auto b = it.as_block();
    hse_assert(b.size() == n, "package of the wrong length");
    unsigned h = 1;
    for (unsigned i = 0; i < n; i++) { h &= (get<0>(b[i]) <= t[i]) & (t[i] < get<1>(b[i])); hse_assert(get<0>(b[i]) < get<1>(b[i]), "empty package"); }
    hits += h;
    BlockIterator inner = via ? it.as_block_enumerator() : BlockIterator(b);
    unsigned here = 0;
    for (; !inner.is_end(); inner.step()) {
      auto p = inner.as_position(); hse_assert(p.size() == n, "position of the wrong length");
      unsigned e = 1; for (unsigned i = 0; i < n; i++) e &= p[i] == t[i]; pos += e; outside += 1 - in(p);
      hse_assert(++seen <= total, "more positions than elements"); ++here;
    }
    hse_assert(here <= package, "package exceeds the package size");
  }
  hse_obs("packages", packages);
  hse_assert(hits == 1, "an element lies in no package or in several");
  hse_assert(pos == 1, "an element is visited never or several times");
  hse_assert(outside == 0, "a position outside of the product is visited");
  hse_assert(seen == total, "number of visited positions");
  it.step(); hse_assert(it.is_end(), "stepping past the end");
  hse_reach("end");
}
