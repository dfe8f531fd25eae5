// parallel_for, blocked_for and the forking functions on the real scheduler with one worker: how a
// range is split and which indices the body gets. (Several workers: sched.cpp.)
#include "common.h"
#include <parlay/parallel.h>
using Sched = parlay::internal::scheduler_type;
static unsigned hits[64]; static size_t base; static size_t calls;
static void hit(size_t i, size_t n) { size_t k = i - base; CHECK(k < n, "the body is called with an index outside the range"); hits[k]++; calls++; }
static void all(size_t n) { for (size_t k = 0; k < n; k++) CHECK(hits[k] == 1, "an index is not visited exactly once"); CHECK(calls == n, "the number of calls"); }
static size_t anyStart(size_t n) { base = sym<size_t>("start"); psym_assume(base <= ~(size_t)0 - n); return base; }
// explicit granularity
static void explicitly(size_t lo, size_t hi) {
  Sched s(1);
  size_t n = choose("n", lo, hi); long g = (long)choose("granularity", 0, n + 2); if (g == 0) g = -1;
  size_t st = anyStart(n); bool c = choose("conservative", 0, 1);
  parlay::parallel_for(st, st + n, [&](size_t i) { hit(i, n); }, g, c);
  all(n);
  psym_cover("end");
}
ENTRY(for_explicit) { explicitly(0, P("N", 20)); }
// automatic granularity: any timing of the first calls
ENTRY(for_automatic) {
  Sched s(1);
  size_t n = choose("n", 0, P("N", 9)); size_t st = anyStart(n);
  parlay::parallel_for(st, st + n, [&](size_t i) { hit(i, n); });
  all(n);
  psym_cover("end");
}
ENTRY(for_automatic_long) {   // long enough for a granularity above one to be computed
  Sched s(1);
  size_t n = P("N", 300); base = choose("start", 0, 1) * 1000;
  static unsigned char seen[1024];
  parlay::parallel_for(base, base + n, [&](size_t i) { CHECK(i - base < n, "the body is called with an index outside the range"); seen[i - base]++; });
  for (size_t i = 0; i < n; i++) CHECK(seen[i] == 1, "an index is not visited exactly once");
  psym_cover("end");
}
// more workers only change the automatic granularity; the range is split in the same way
ENTRY(for_inverted) {
  Sched s(1);
  size_t st = sym<size_t>("start"), en = sym<size_t>("end"); psym_assume(en <= st); psym_assume(st != ~(size_t)0);
  parlay::parallel_for(st, en, [&](size_t) { CHECK(false, "the body is called for an empty range"); }, (long)choose("granularity", 0, 2) - 1);
  parlay::blocked_for(st, en, 3, [&](size_t, size_t, size_t) { CHECK(false, "the body is called for an empty range"); });
  psym_cover("end");
}
ENTRY(for_nested) {
  Sched s(1); static unsigned g[5][5];
  size_t n = choose("n", 0, 4), m = choose("m", 0, 4);
  parlay::parallel_for(0, n, [&](size_t i) { parlay::parallel_for(0, m, [&](size_t j) { CHECK(i < n && j < m, "an index outside the range"); g[i][j]++; }, 1); }, 1);
  for (size_t i = 0; i < 5; i++) for (size_t j = 0; j < 5; j++) CHECK(g[i][j] == (i < n && j < m), "an index is not visited exactly once");
  psym_cover("end");
}
// blocks of any size, of ranges of any length
ENTRY(for_blocked) {
  Sched s(1);
  size_t k = choose("blocks", 0, P("B", 5));                       // number of blocks
  static const size_t bs[] = {1, 2, 3, 7, 1000, (size_t)1 << 33}; size_t b = bs[choose("bsize", 0, 5)], n = sym<size_t>("n"), st = sym<size_t>("start");
  psym_assume(n <= (size_t)1 << 43); psym_assume(st <= (size_t)1 << 50);
  if (k == 0) psym_assume(n == 0); else { psym_assume(n > b * (k - 1)); psym_assume(n <= b * k); }
  size_t next = 0; static unsigned seen[16];
  parlay::blocked_for(st, st + n, b, [&](size_t i, size_t from, size_t to) {
    next++;
    CHECK(i < k, "a block too many"); seen[i]++;
    CHECK(from == st + i * b, "a block begins elsewhere");
    CHECK(to == (i + 1 == k ? st + n : st + (i + 1) * b), "a block ends elsewhere");
  }, choose("conservative", 0, 1));
  CHECK(next == k, "the number of blocks");
  for (size_t i = 0; i < k; i++) CHECK(seen[i] == 1, "a block is not visited exactly once");
  psym_cover("end");
}
// the forking functions built on par_do
struct Once { unsigned* n; void operator()() & { *n += 1; } void operator()() && { *n += 100; } };
ENTRY(forks) {
  Sched s(1);
  unsigned a = 0, b = 0, c = 0; bool cons = choose("conservative", 0, 1), par = choose("parallel", 0, 1);
  auto A = [&] { a++; }; auto B = [&] { b++; }; auto C = [&] { c++; };
  switch (choose("function", 0, 5)) {
    case 0: parlay::par_do(A, B, cons); c++; break;
    case 1: parlay::parallel_do(A, B, cons); c++; break;
    case 2: parlay::par_do_if(par, A, B, cons); c++; break;
    case 3: parlay::par_do3(A, B, C); break;
    case 4: parlay::par_do3_if(par, A, B, C); break;
    case 5: parlay::par_do([&] { parlay::par_do(A, B, cons); }, C, cons); break;
  }
  CHECK(a == 1 && b == 1 && c == 1, "a branch does not run exactly once");
  psym_cover("end");
}
// a private scheduler for one call
ENTRY(private_scheduler) {
  unsigned n = 0, w = 9;
  parlay::execute_with_scheduler(1, [&] { n++; w = (unsigned)parlay::num_workers(); CHECK(parlay::worker_id() == 0, "worker id"); parlay::parallel_for(0, 3, [&](size_t) { n += 10; }, 1); });
  CHECK(n == 31 && w == 1, "the function runs once with the given number of workers");
  CHECK(Sched::get_current_scheduler() == nullptr, "the private scheduler is current after its end");
  psym_cover("end");
}
