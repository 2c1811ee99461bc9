// C11: threads and the pool of threads, under every schedule with a bounded number of deviations.
#include <memory>
#include <sstream>
#include <set>
#include <map>
#include "common.h"
#include "threaded/thread.hh"
#include "threaded/thread_pool.hh"
using namespace std;
// what the workers did, by block
enum { MB = 6 };
static struct { mutex m; unsigned flushed[MB], curves[MB], prime[MB], strange; } log_;
static unsigned number(const vuu_block &b) { return b.empty() ? 99 : get<0>(b[0]); }
// blocks 0, 1, ... : one curve Y^2 = X^3 + 1 each; the first coordinate (an exponent modulo p - 1) tells them apart
static vuu_block block(unsigned i, unsigned p) { return vuu_block{make_tuple(i, i + 1), make_tuple(p - 1, p), make_tuple(p - 1, p), make_tuple(0u, 1u)}; }
struct Rec : StoreInterface {
  unsigned n = 0, p = 0;
  void register_curve(const Curve &c) final { n++; p = c.prime(); if (c.number_of_points().size() != P("counted", 1)) p = 98; }
  void flush_to_static_store(const vuu_block &b) final { unsigned i = number(b); lock_guard<mutex> l(log_.m); if (i >= MB) { log_.strange++; return; } log_.flushed[i]++; log_.curves[i] += n; log_.prime[i] = p; n = 0; }
  tuple<string, string> flush_static_store() final { return make_tuple("", ""); }
  void extract(istream &) final {} void extract(istream &&) final {} void insert(ostream &) const final {} void insert(ostream &&) const final {} };
struct Fac : StoreFactoryInterface { shared_ptr<StoreInterface> create() const final { return make_shared<Rec>(); } };
static ConfigNode config(unsigned p) { ConfigNode c; c.prime = p; c.prime_exponent = 1; c.genus = 1; c.with_marked_point = false; c.count_exponent = 1; c.package_size = 1; return c; }
// the pool as a master drives it: hand out a block whenever a thread is idle, poll for what is finished
static void drive(ThreadPool &pool, unsigned first, unsigned n, unsigned p, unsigned &idle, unsigned *finished) {
  unsigned left = n, busy = 0, next = first;
  while (left || busy) {
    for (auto &b : pool.flush_finished_blocks()) { unsigned i = number(b); hse_assert(i < MB && b == block(i, p), "a block is reported finished that was not assigned"); if (i < MB) finished[i]++; busy--; }
    auto r = pool.flush_ready_threads(); idle += get<0>(r); hse_assert(get<1>(r) == 0, "OpenCL threads without OpenCL");
    bool did = false;
    while (left && idle) { pool.assign(block(next++, p), false); left--; idle--; busy++; did = true; }
    if ((left || busy) && !did) this_thread::sleep_for(chrono::milliseconds(50)); }
}
// what the model of FLINT tabulates is tabulated before there are threads
static void warm(unsigned n, unsigned p) { auto t = make_shared<FqElementTable>(p, 1); ReductionTable r(p, 1); for (unsigned i = 0; i < n && i < p - 1; i++) { Curve c(t, {i, p - 1, p - 1, 0}); if (c.has_squarefree_rhs()) c.count(r); } }
extern "C" void c11_pool() {
  unsigned T = hse_concrete(hse_input("threads", 8, P("threads0", 1), P("threads", 2))), B = hse_concrete(hse_input("blocks", 8, P("blocks0", 0), P("blocks", 2))), rounds = P("rounds", 1), idle = 0; unsigned fin[MB] = {0};
  warm(MB, 7); if (rounds > 1) warm(MB, 13); if (rounds > 2) warm(MB, 19);
  hse_sched(P("delays", 2), P("spurious", 0));
  { auto pool = make_shared<ThreadPool>(make_shared<Fac>());
    pool->spark_threads(T, 0);
    static const unsigned pr[] = {7, 13, 19};
    for (unsigned r = 0; r < rounds; r++) { pool->update_config(config(pr[r])); drive(*pool, r * B, B, pr[r], idle, fin); }
    // every thread becomes available again
    while (idle < T) { auto q = pool->flush_ready_threads(); idle += get<0>(q); if (idle < T) this_thread::sleep_for(chrono::milliseconds(50)); }
    hse_assert(idle == T, "more threads available than there are");
    hse_assert(pool->flush_finished_blocks().empty(), "a block is reported finished twice");
    pool->shutdown_threads();
    for (unsigned i = 0; i < rounds * B; i++) { hse_assert(log_.flushed[i] == 1, "times a block was computed"); hse_assert(log_.curves[i] == 1, "curves computed for a block"); hse_assert(log_.prime[i] == pr[i / B], "a block is computed for another configuration"); hse_assert(fin[i] == 1, "times a block was reported finished"); }
    hse_assert(!log_.strange, "a block was computed that was not assigned");
  }
  hse_reach("end");
}
// threads that are shut down whatever they are doing
extern "C" void c11_shutdown() {
  unsigned T = hse_concrete(hse_input("threads", 8, 1, P("threads", 1))), B = hse_concrete(hse_input("blocks", 8, 0, P("blocks", 0)));
  warm(B, 7);
  hse_sched(P("delays", 3), P("spurious", 0));
  auto pool = make_shared<ThreadPool>(make_shared<Fac>()); pool->spark_threads(T, 0); pool->update_config(config(7));
  if (B) { auto r = pool->flush_ready_threads(); hse_assert(get<0>(r) == T, "threads available at the start"); for (unsigned i = 0; i < B && i < T; i++) pool->assign(block(i, 7), false); }
  pool->shutdown_threads();
  for (unsigned i = 0; i < B; i++) { hse_assert(log_.flushed[i] <= 1, "times a block was computed"); }
  // the pool can be started again
  if (hse_concrete(hse_input("again", 1, 0, P("again", 0)))) { pool->spark_threads(T, 0); pool->shutdown_threads(); }
  hse_reach("end");
}
