// C09: what one save contains while threads finish blocks: the record never names a block whose counts are not in the store saved with it.
#include <memory>
#include <sstream>
#include <set>
#include <map>
#include <thread>
#include "common.h"
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_data.hh"
using namespace std;
typedef HyCu::CurveData::ExplicitRamificationHasseWeil CD; typedef HyCu::StoreData::Count SD; typedef CD::ValueType Key; typedef SD::ValueType Cnt;
struct St : Store<CD, SD> { map<Key, Cnt> &tab() { return store; } };
enum { MB = 6 };
static Key key(unsigned i) { Key k; k.ramification_type = i == 99 ? vector<unsigned>{4} : vector<unsigned>{1, 1, 2}; k.hasse_weil_offsets = {(int)i, 7}; return k; }
static vuu_block block(unsigned i) { return vuu_block{make_tuple(10 * i, 10 * i + 11), make_tuple(0u, 3u)}; }
extern "C" void c09_threads() {
  unsigned T = P("threads", 2), B = P("blocks", 1), S = P("saves", 1), N = T * B; unsigned long n[MB], m[MB];
  for (unsigned i = 0; i < N; i++) { n[i] = hse_input(Nm("own", i), 32, 1, P("cmax", 9)); m[i] = hse_input(Nm("shared", i), 32, 1, P("smax", 3)); }
  unsigned times[MB] = {0};
  auto work = [&](unsigned t) { St s; for (unsigned j = 0; j < B; j++) { unsigned i = t * B + j; fmpz_set_ui(s.tab()[key(i)].counter, n[i]); fmpz_set_ui(s.tab()[key(99)].counter, m[i]); s.flush_to_static_store(block(i)); hse_assert(s.tab().empty(), "counts are kept for the next block"); } };
  auto check = [&](const tuple<string, string> &rs) {
    set<vuu_block> rec; { stringstream f(get<0>(rs)); FileStore::extract(f, rec); } St st; st.extract(stringstream(get<1>(rs)));
    unsigned named = 0; unsigned long sum = 0;
    for (unsigned i = 0; i < N; i++) { bool r = rec.count(block(i)); auto it = st.tab().find(key(i));
      if (r) { named++; times[i]++; sum += m[i]; hse_assert(it != st.tab().end(), "a block is recorded without its counts"); }
      else hse_assert(it == st.tab().end(), "counts are saved without the record of their block");
      if (it != st.tab().end()) hse_assert(fmpz_cmp_ui(it->second.counter, n[i]) == 0, "counts of a recorded block"); }
    hse_assert(named == rec.size(), "a block is recorded that was not computed");
    auto it = st.tab().find(key(99)); hse_assert((it != st.tab().end()) == (named > 0), "counts shared by blocks"); if (it != st.tab().end()) hse_assert(fmpz_cmp_ui(it->second.counter, sum) == 0, "counts shared by blocks are not the sum over the recorded blocks"); };
  vector<tuple<string, string>> out;
  hse_sched(P("delays", 2), 0);
  vector<thread> th; for (unsigned t = 0; t < T; t++) th.emplace_back(work, t);
  St other; for (unsigned k = 0; k < S; k++) out.push_back(other.flush_static_store());
  for (auto &t : th) t.join();
  out.push_back(other.flush_static_store());
  for (auto &o : out) check(o);
  for (unsigned i = 0; i < N; i++) hse_assert(times[i] == 1, "times a computed block is recorded");
  auto last = other.flush_static_store(); hse_assert(get<0>(last).empty() & get<1>(last).empty(), "something is saved twice");
  hse_reach("end");
}
