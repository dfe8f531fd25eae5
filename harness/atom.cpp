// Atomic priority updates by several threads, every interleaving and every value.
#include <atomic>
#include <parlay/utilities.h>
#include "common.h"
#ifndef TY
#define TY uint16_t
#endif
using T = TY;
static constexpr unsigned BITS = sizeof(T) * 8;
static std::atomic<T>* loc;
static T arg[3][2]; static bool ok[3][2]; static int per;
static int nthreads;
static bool lt(T a, T b) { return a < b; }
static void tmin(void* p) { size_t me = (size_t)p; for (int i = 0; i < per; i++) ok[me][i] = parlay::write_min(loc, arg[me][i], lt); }
static void tmax(void* p) { size_t me = (size_t)p; for (int i = 0; i < per; i++) ok[me][i] = parlay::write_max(loc, arg[me][i], lt); }
static void tadd(void* p) { size_t me = (size_t)p; for (int i = 0; i < per; i++) parlay::write_add(loc, arg[me][i]); }
static T setup(int threads, int ops) {
  nthreads = threads; per = ops;
  T init = sym<T>("initial", BITS);
  for (int t = 0; t < threads; t++) for (int i = 0; i < ops; i++) arg[t][i] = sym<T>("arg", BITS);
  return init;
}
static void extreme(int threads, int ops, bool min) {
  T init = setup(threads, ops);
  std::atomic<T> a(init); loc = &a;
  for (int t = 0; t < threads; t++) psym_spawn(min ? tmin : tmax, (void*)(size_t)t);
  psym_join();
  auto before = [&](T x, T y) { return min ? x < y : y < x; };
  T best = init, f = a.load();
  for (int t = 0; t < threads; t++) for (int i = 0; i < ops; i++) best = before(arg[t][i], best) ? arg[t][i] : best;
  CHECK(f == best, "the extreme value is not the one that remains");
  // successful updates are exactly those that changed the value: they are distinct, better than
  // the initial value, and the best argument is among them if it is better than the initial value
  bool any = false;
  for (int t = 0; t < threads; t++) for (int i = 0; i < ops; i++) {
    if (!ok[t][i]) continue;
    CHECK(before(arg[t][i], init), "an update that changed nothing reports success");
    any = any | (arg[t][i] == f);
    for (int u = 0; u < threads; u++) for (int j = 0; j < ops; j++)
      if ((u > t || (u == t && j > i)) && ok[u][j]) CHECK(arg[t][i] != arg[u][j], "two updates with the same value both report success");
    if (i > 0 && ok[t][i - 1]) CHECK(before(arg[t][i], arg[t][i - 1]), "a successful update made the value worse");
  }
  if (f != init) CHECK(any, "the update that set the value reports failure");
  psym_cover("end");
}
static void sum(int threads, int ops) {
  T init = setup(threads, ops);
  std::atomic<T> a(init); loc = &a;
  for (int t = 0; t < threads; t++) psym_spawn(tadd, (void*)(size_t)t);
  psym_join();
  T s = init;
  for (int t = 0; t < threads; t++) for (int i = 0; i < ops; i++) s = (T)(s + arg[t][i]);
  CHECK(a.load() == s, "an addition is lost or applied twice");
  psym_cover("end");
}
ENTRY(min_two) { extreme(2, 1, true); }
ENTRY(max_two) { extreme(2, 1, false); }
ENTRY(min_three) { extreme(3, 1, true); }
ENTRY(max_three) { extreme(3, 1, false); }
ENTRY(min_two_twice) { extreme(2, 2, true); }
ENTRY(max_two_twice) { extreme(2, 2, false); }
ENTRY(add_two) { sum(2, 1); }
ENTRY(add_three) { sum(3, 1); }
ENTRY(add_two_twice) { sum(2, 2); }
