// Scheduler plugin for verification builds. In the symbolic executor every par_do /
// parallel_for reports its branches, so that the executor can check the branches for
// determinacy races; the parameter "order" selects the order in which the branches run.
// In native replay builds (PSYM_NATIVE_THREADS) the branches run on real threads.
#pragma once
#include <cstddef>
#include <functional>
#include <utility>
#include "psym.h"
#ifdef PSYM_NATIVE_THREADS
#include <thread>
#endif
namespace parlay {
inline size_t num_workers() { return static_cast<size_t>(psym_param("workers", 4)); }
inline size_t worker_id() { return 0; }
inline void set_num_workers(int) {}

#ifdef PSYM_NATIVE_THREADS
template <typename Lf, typename Rf>
inline void par_do(Lf&& left, Rf&& right, bool) {
  std::thread t([&]() { std::forward<Rf>(right)(); });
  std::forward<Lf>(left)();
  t.join();
}
template <class F>
inline void parallel_for(size_t start, size_t end, F&& f, long, bool) {
  if (start >= end) return;
  if (end - start == 1) { f(start); return; }
  size_t mid = start + (end - start) / 2;
  std::thread t([&]() { parallel_for(mid, end, f, 0, false); });
  parallel_for(start, mid, f, 0, false);
  t.join();
}
#else
template <typename Lf, typename Rf>
inline void par_do(Lf&& left, Rf&& right, bool) {
  psym_escape(&left); psym_escape(&right);
  psym_fork_begin();
  if (psym_param("order", 0)) { std::forward<Rf>(right)(); psym_fork_mid(); std::forward<Lf>(left)(); }
  else { std::forward<Lf>(left)(); psym_fork_mid(); std::forward<Rf>(right)(); }
  psym_fork_end();
}
template <class F>
inline void parallel_for(size_t start, size_t end, F&& f, long, bool) {
  if (start >= end) return;
  psym_escape(&f);
  psym_fork_begin();
  if (psym_param("order", 0)) for (size_t i = end; i > start; i--) { f(i - 1); psym_fork_mid(); }
  else for (size_t i = start; i < end; i++) { f(i); psym_fork_mid(); }
  psym_fork_end();
}
#endif
template <typename F>
void execute_with_scheduler(unsigned int, F&& f) { std::invoke(std::forward<F>(f)); }
}  // namespace parlay
