// Order statistics: rank, kth_smallest, min/max.
#include "common.h"
#include <atomic>
#include <parlay/primitives.h>
#include <parlay/sequence.h>
using parlay::sequence;
typedef uint32_t u;
static sequence<u> values(size_t n) { sequence<u> s(n); for (auto& x : s) x = (u)psym_u64("x", P("BITS", 3)); return s; }
ENTRY(rank_values) {
  size_t n = choose("n", P("LO", 0), P("N", 5)), desc = choose("desc", 0, 1);
  auto s = values(n);
  auto go = [&](auto less) {
    auto r = parlay::rank(s, less);
    auto q = parlay::rank<unsigned char>(s, less);
    CHECK(r.size() == n && q.size() == n, "one rank per element");
    for (size_t i = 0; i < n; i++) {
      size_t c = 0, ties = 0;
      for (size_t j = 0; j < n; j++) { c += less(s[j], s[i]); ties += j < i && s[j] == s[i]; }
      CHECK(r[i] == c + ties, "rank is the position in the stable sorted order");
      CHECK(q[i] == c + ties, "rank in a smaller integer type");
    }
  };
  if (desc) go(std::greater<>()); else go(std::less<>());
  psym_cover("end");
}
ENTRY(kth_value) {
  size_t n = choose("n", P("LO", 1), P("N", 5)), k = choose("k", 0, n - 1), which = choose("which", 0, 2);
  auto s = values(n);
  if (which == 2) {
    u x = parlay::kth_smallest_copy(s, k, std::greater<>());
    size_t gt = 0, ge = 0;
    for (u y : s) { gt += y > x; ge += y >= x; }
    CHECK(gt <= k && k < ge, "the k-th element under the given order");
  } else {
    u x;
    if (which == 0) x = parlay::kth_smallest_copy(s, k);
    else {
      auto it = parlay::kth_smallest(s, k);
      CHECK(it >= s.begin() && it < s.end(), "an iterator into the range");
      x = *it;
    }
    size_t lt = 0, le = 0;
    for (u y : s) { lt += y < x; le += y <= x; }
    CHECK(lt <= k && k < le, "the k-th smallest element");
  }
  psym_cover("end");
}
// many equivalent elements must not defeat the divide and conquer
ENTRY(kth_duplicates) {
  size_t n = P("N", 60), which = choose("which", 0, 1);
  u a = (u)psym_u64("a", 2), b = (u)psym_u64("b", 2);
  sequence<u> s(n, a);
  s[3] = b;
  std::atomic<size_t> calls{0};
  auto less = [&](u x, u y) { calls.fetch_add(1, std::memory_order_relaxed); return x < y; };
  size_t k = choose("k", n / 2, n / 2 + 1);
  u x = which ? *parlay::kth_smallest(s, k, less) : parlay::kth_smallest_copy(s, k, less);
  size_t lt = 0, le = 0;
  for (u y : s) { lt += y < x; le += y <= x; }
  CHECK(lt <= k && k < le, "the k-th smallest element");
  CHECK(calls.load() < 20 * n, "the number of comparisons stays linear when elements are equal");
  psym_cover("end");
}
ENTRY(kth_owning) {
  size_t n = choose("n", 1, P("N", 5)), k = choose("k", 0, n - 1);
  HeapBalance hb;
  {
    sequence<Tracked> s(n);
    for (auto& t : s) t = Tracked((u)psym_u64("x", P("BITS", 1)));
    auto it = parlay::kth_smallest(s, k);
    size_t lt = 0, le = 0;
    for (auto& y : s) { lt += y.get() < it->get(); le += y.get() <= it->get(); }
    CHECK(lt <= k && k < le, "the k-th smallest element");
  }
  psym_cover("end");
}
