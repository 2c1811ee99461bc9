// C14: what processes send to each other.
#include <set>
#include <sstream>
#include <tuple>
#include "common.h"
#ifdef HSE_ENGINE
#include <boost/serialization/serialization.hpp>
#else
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#endif
#include <boost/serialization/set.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include "block_iterator.hh"
#include "config/config_node.hh"
#include "utils/serialization_tuple.hh"
using namespace std;
#ifdef HSE_ENGINE
template<class T> static void transmit(const T &a, T &b) { boost::hse_oarchive o; o & a; boost::hse_iarchive i(o.b); i & b; hse_assert(i.p == o.b.size(), "message not read completely"); }
#else
template<class T> static void transmit(const T &a, T &b) { stringstream s; { boost::archive::binary_oarchive o(s); o & a; } { boost::archive::binary_iarchive i(s); T c; i & c; } s.clear(); s.seekg(0); { boost::archive::binary_iarchive i(s); i & b; }
  // also as text, where the position of every value matters
  stringstream t; { boost::archive::text_oarchive o(t); o & a; } T c; boost::archive::text_iarchive i(t); i & c; stringstream x, y; { boost::archive::text_oarchive o(x); o & b; } { boost::archive::text_oarchive o(y); const T &d = c; o & d; } hse_assert(x.str() == y.str(), "text and binary differ"); }
#endif
static unsigned val(const char *n, int i = -1) { return hse_input(Nm(n, i), 32, 0, 0xffffffffu); }
static vuu_block block(const char *n, unsigned i, unsigned len) { vuu_block b; for (unsigned j = 0; j < len; j++) { unsigned x = val(n, 20 * i + 2 * j), y = val(n, 20 * i + 2 * j + 1); b.push_back(make_tuple(x, y)); } return b; }
extern "C" void c14_config() {
  static const char *PATHS[] = {"", "a", "results/q7g2", "/x/y z", "./f", "a/b/"};
  ConfigNode c, d; c.prime = val("prime"); c.prime_exponent = val("exponent"); c.genus = val("genus"); c.count_exponent = val("count"); c.package_size = val("package"); c.with_marked_point = hse_concrete(hse_input("marked", 1, 0, 1));
  c.result_path = PATHS[hse_concrete(hse_input("path", 8, 0, 5))];
  d.prime = d.prime_exponent = d.genus = d.count_exponent = d.package_size = 0; d.with_marked_point = !c.with_marked_point; d.result_path = "other";
  const ConfigNode sent = c; transmit(c, d);
  hse_assert((c.prime == sent.prime) & (c.prime_exponent == sent.prime_exponent) & (c.genus == sent.genus) & (c.package_size == sent.package_size) & (c.count_exponent == sent.count_exponent), "sending changes the configuration"); hse_assert(c.with_marked_point == sent.with_marked_point, "sending changes the configuration"); hse_assert(c.result_path == sent.result_path, "sending changes the configuration");
  hse_assert((c.prime == d.prime) & (c.prime_exponent == d.prime_exponent) & (c.genus == d.genus) & (c.package_size == d.package_size) & (c.count_exponent == d.count_exponent), "numbers of a configuration change in a message");
  hse_assert(c.with_marked_point == d.with_marked_point, "marked point changes in a message"); hse_assert(c.result_path == d.result_path, "result path changes in a message");
  hse_obs("prime", d.prime); hse_reach("end");
}
extern "C" void c14_blocks() {
  unsigned n = hse_concrete(hse_input("n", 8, 0, P("n", 3)));
  vector<vuu_block> v, w; set<vuu_block> s, t;
  for (unsigned i = 0; i < n; i++) { unsigned len = hse_concrete(hse_input(Nm("len", i), 8, 0, P("len", 2))); vuu_block b = block("x", i, len), c = block("junk", 50 + i, i & 1); v.push_back(b); transmit(b, c); hse_assert(b == v.back(), "sending changes a block"); hse_assert(b == c, "a block changes in a message"); }
  const vector<vuu_block> sent = v; transmit(v, w); hse_assert(v == sent, "sending changes a list of blocks"); hse_assert(v == w, "a list of blocks changes in a message");
  hse_obs("n", w.size()); hse_reach("end");
}
extern "C" void c14_set() {
  unsigned n = hse_concrete(hse_input("n", 8, 0, 2)); set<vuu_block> s, t; for (unsigned i = 0; i < n; i++) s.insert(block("x", i, 1)); t.insert(vuu_block{make_tuple(7u, 9u)}); set<vuu_block> u; const set<vuu_block> sent = s; transmit(s, u); hse_assert(s == sent, "sending changes a set of blocks"); hse_assert(u == s, "a set of blocks changes in a message"); hse_reach("end");
}
extern "C" void c14_texts() {
  // record and store as text, with arbitrary characters
  string r, s; unsigned a = hse_concrete(hse_input("len", 8, 0, P("len", 4))), b = hse_concrete(hse_input("len2", 8, 0, P("len", 4)));
  for (unsigned i = 0; i < a; i++) r.push_back((char)hse_input(Nm("r", i), 8, 0, 255)); for (unsigned i = 0; i < b; i++) s.push_back((char)hse_input(Nm("s", i), 8, 0, 255));
  tuple<string, string> x(r, s), y("p", "q"); transmit(x, y); hse_assert(get<0>(x) == r, "sending changes a record"); hse_assert(get<1>(x) == s, "sending changes a store");
  hse_assert(get<0>(x) == get<0>(y), "record changes in a message"); hse_assert(get<1>(x) == get<1>(y), "store changes in a message");
  unsigned cpu = val("cpu"), ocl = val("opencl"); tuple<unsigned, unsigned> c(cpu, ocl), d(1, 1); transmit(c, d); hse_assert((get<0>(c) == cpu) & (get<1>(c) == ocl), "sending changes the numbers of idle threads"); hse_assert(c == d, "numbers of idle threads change in a message");
  unsigned one = val("one"); tuple<unsigned> e(one), f(0); transmit(e, f); hse_assert(e == f, "tuple of one");
  tuple<unsigned, string, int> g(one, r, -5), h; transmit(g, h); hse_assert(get<0>(h) == one, "tuple of three"); hse_assert(get<1>(h) == r, "tuple of three"); hse_assert(get<2>(h) == -5, "tuple of three");
  hse_obs("cpu", get<0>(d)); hse_reach("end");
}
