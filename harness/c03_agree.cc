// C03: the implementations of point counting agree with one another.
#include <memory>
#include "common.h"
#include "curve.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
using namespace std;
struct C : Curve { using Curve::Curve; void forget() { nmb_points.clear(); } };
extern "C" void c03_agree() {
  unsigned p = P("p", 3), r = P("r", 1), k = P("k", 1), size = P("size", 4), zech = P("zech", 0), q = 1;
  for (unsigned i = 0; i < r; i++) q *= p;
  auto table = make_shared<FqElementTable>(p, r);
  auto red = make_shared<ReductionTable>(p, r * k);
  vector<unsigned> e(size);
  hse_merge(1);
  for (unsigned i = 0; i < size; i++) e[i] = hse_input(Nm("e", i), 32, 0, i + 1 == size ? q - 2 : q - 1);
  hse_merge(0);
  C a(table, e), b(table, e);
  hse_merge(1);
  a.count(*red);
  if (zech) b.count_naive_zech(r * k); else b.count_naive_nmod(r * k);
  hse_merge(0);
  auto x = a.number_of_points().at(r * k), y = b.number_of_points().at(r * k);
  hse_obs("n2", get<0>(x)); hse_obs("n1", get<1>(x)); hse_obs("m2", get<0>(y)); hse_obs("m1", get<1>(y));
  hse_assert((get<0>(x) == get<0>(y)) & (get<1>(x) == get<1>(y)), "two ways of counting points disagree");
  hse_reach("end");
}
