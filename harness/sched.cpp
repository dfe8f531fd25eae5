// The real scheduler: workers, stealing, joining, sleeping, waking and shutting down, every interleaving.
#define __NO_SPIN      // the spinning before a wait only delays it
#include <limits>
#include <chrono>
#include <thread>
#include <vector>
#include <array>
#include <atomic>
#include <parlay/scheduler.h>
#include "common.h"
using parlay::WorkStealingJob;
using Sched = parlay::scheduler<WorkStealingJob>;
using FJ = parlay::fork_join_scheduler;
static unsigned val[16], out[16]; static int runs[16];    // plain memory: the race detector watches it
static void leaf(int i) { runs[i]++; out[i] = val[i] + 1; }
static void setup(int n) { for (int i = 0; i < n; i++) { val[i] = sym<unsigned>("v"); out[i] = 0; runs[i] = 0; } }
static void joined(int n, int from = 0) { for (int i = from; i < n; i++) { CHECK(runs[i] == 1, "a branch does not run exactly once before the join"); CHECK(out[i] == val[i] + 1, "what a branch wrote is not there after the join"); } }
// wakes: all interleavings of the workers' start are not of interest when the first phase is quiet
// lets the workers run until they sleep
static void psym_rest() { for (int i = 0; i < 1; i++) std::this_thread::yield(); }
template <typename F> static void with(size_t workers, bool rested, F f) {
  psym_quiet(rested);
  psym_timeouts(!rested);
  { Sched s(workers); if (rested) psym_rest(); psym_quiet(false); f(s); psym_timeouts(true); }
  psym_cover("end");
}
static bool cons() { return P("cons", 0) == 2 ? choose("conservative", 0, 1) : P("cons", 0); }
ENTRY(one_fork) { setup(2); bool c = cons(); with(P("W", 2), P("rest", 0), [&](Sched& s) { FJ::pardo(s, [] { leaf(0); }, [] { leaf(1); }, c); joined(2); }); }
ENTRY(fork_twice) { setup(4); bool c = cons(); with(P("W", 2), P("rest", 0), [&](Sched& s) { FJ::pardo(s, [] { leaf(0); }, [] { leaf(1); }, c); joined(2); FJ::pardo(s, [] { leaf(2); }, [] { leaf(3); }, c); joined(4); }); }
ENTRY(nested_left) { setup(3); bool c = cons(); with(P("W", 2), P("rest", 0), [&](Sched& s) { FJ::pardo(s, [&] { FJ::pardo(s, [] { leaf(0); }, [] { leaf(1); }, c); joined(2); }, [] { leaf(2); }, c); joined(3); }); }
ENTRY(nested_right) { setup(3); bool c = cons(); with(P("W", 2), P("rest", 0), [&](Sched& s) { FJ::pardo(s, [] { leaf(2); }, [&] { FJ::pardo(s, [] { leaf(0); }, [] { leaf(1); }, c); joined(2); }, c); joined(3); }); }
ENTRY(nested_both) { setup(4); bool c = cons(); with(P("W", 2), P("rest", 0), [&](Sched& s) { FJ::pardo(s, [&] { FJ::pardo(s, [] { leaf(0); }, [] { leaf(1); }, c); joined(2); }, [&] { FJ::pardo(s, [] { leaf(2); }, [] { leaf(3); }, c); joined(4, 2); }, c); joined(4); }); }
ENTRY(loop) { int n = (int)P("N", 3); setup(n); bool c = cons(); with(P("W", 2), P("rest", 0), [&](Sched& s) { FJ::parfor(s, 0, n, [](size_t i) { leaf((int)i); }, 1, c); joined(n); }); }
// workers: each branch runs on a worker of the scheduler
ENTRY(ids) {
  static unsigned id[2]; size_t W = P("W", 2);
  with(W, P("rest", 0), [&](Sched& s) {
    unsigned me = s.worker_id(); CHECK(me == 0 && s.num_workers() == W, "identifier of the main worker");
    FJ::pardo(s, [&] { id[0] = s.worker_id(); CHECK(Sched::get_current_scheduler() == &s, "current scheduler"); }, [&] { id[1] = s.worker_id(); CHECK(Sched::get_current_scheduler() == &s, "current scheduler"); });
    CHECK(id[0] == 0 && id[1] < W, "identifier of a worker");
    CHECK(s.worker_id() == 0, "the identifier of a worker changes");
  });
  CHECK(Sched::get_current_scheduler() == nullptr, "a scheduler is current after its end");
}
// a scheduler inside another one's scope
ENTRY(inner) {
  setup(2);
  with(2, P("rest", 0), [&](Sched& s) { { Sched t(1); CHECK(Sched::get_current_scheduler() == &t, "current scheduler"); FJ::pardo(t, [] { leaf(0); }, [] { leaf(1); }); joined(2); } CHECK(Sched::get_current_scheduler() == &s && s.worker_id() == 0, "the outer scheduler is current again"); });
}
// ---- sleeping and waking
ENTRY(shutdown) { with(P("W", 2), P("rest", 0), [&](Sched&) {}); }
ENTRY(early_shutdown) { with(P("W", 2), P("rest", 0), [&](Sched& s) { CHECK(!s.finished(), "finished before its end"); }); }
// a worker that is asleep when work arrives is woken: nobody else takes the job
struct Job : WorkStealingJob { int n = 0; void execute() override { n++; } };
ENTRY(woken) {
  Job j[1]; size_t n = 1;
  with(P("W", 2), true, [&](Sched& s) { for (size_t i = 0; i < n; i++) { s.spawn(&j[i]); while (!j[i].finished()) std::this_thread::yield(); CHECK(j[i].n == 1, "a job does not run exactly once"); } });
}
#if PARLAY_ELASTIC_PARALLELISM
// waiting on a value
template <typename T> struct Cell { std::atomic<T> a{0}; unsigned data = 0; };
template <typename T> static Cell<T>* cell;
template <typename T> static void waits(void*) {
  auto& c = *cell<T>;
  T v = c.a.load();
  if (v == 0) { parlay::atomic_wait(&c.a, (T)0); v = c.a.load(); }
  CHECK(v != 0, "a wait ends although the value is the old one");
  CHECK(c.data == 7, "what was written before the notification is not there");
}
template <typename T> static void wn(int waiters, bool all) {
  Cell<T> c; cell<T> = &c;
  for (int i = 0; i < waiters; i++) psym_spawn(waits<T>, nullptr);
  c.data = 7; c.a.fetch_add(1);
  if (all) parlay::atomic_notify_all(&c.a); else for (int i = 0; i < waiters; i++) parlay::atomic_notify_one(&c.a);
  psym_join();
  psym_cover("end");
}
ENTRY(wait_word) { wn<size_t>((int)P("n", 1), choose("all", 0, 1)); }
ENTRY(wait_int) { wn<std::int32_t>((int)P("n", 1), choose("all", 0, 1)); }
#endif
