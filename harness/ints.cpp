// Integer sort and counting sort.
#include "common.h"
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <vector>
using parlay::sequence;
typedef uint32_t u;
struct Item { u key; u idx; };
template <typename S, typename R> static void isStableSorted(const S& s, const R& r) {
  size_t n = s.size();
  CHECK(r.size() == n, "sorting keeps the number of elements");
  std::vector<bool> seen(n, false);
  for (size_t i = 0; i < n; i++) {
    CHECK(r[i].idx < n, "every output element is an input element");
    size_t k = r[i].idx;
    CHECK(!seen[k], "no element occurs twice in the output");
    seen[k] = true;
    CHECK(r[i].key == s[k].key, "elements are not altered");
    if (i) CHECK(r[i - 1].key < r[i].key || (r[i - 1].key == r[i].key && r[i - 1].idx < r[i].idx), "output is ordered by key and stable");
  }
}
// nsym symbolic keys of the given number of bits; the others are fixed and within the same range
static sequence<Item> items(size_t n, unsigned bits, size_t nsym) {
  sequence<Item> s(n);
  for (size_t i = 0; i < n; i++) s[i] = Item{i < nsym ? (u)psym_u64("k", bits) : (u)((i * 5 + 3) & ((1u << bits) - 1)), (u)i};
  for (size_t i = 0; i < nsym && n > nsym; i++) { size_t j = (i * 3 + 1) % n; std::swap(s[i].key, s[j].key); }
  return s;
}
ENTRY(isort_copy) {
  size_t n = choose("n", P("LO", 0), P("N", 5));
  auto s = items(n, P("BITS", 4), n < P("SYM", 9) ? n : P("SYM", 9));
  auto key = [](const Item& x) { return x.key; };
  auto r = parlay::integer_sort(s, key);
  isStableSorted(s, r);
  psym_cover("end");
}
ENTRY(isort_stable) {
  size_t n = choose("n", P("LO", 0), P("N", 5));
  auto s = items(n, P("BITS", 4), n < P("SYM", 9) ? n : P("SYM", 9));
  isStableSorted(s, parlay::stable_integer_sort(s, [](const Item& x) { return x.key; }));
  psym_cover("end");
}
ENTRY(isort_inplace) {
  size_t n = choose("n", P("LO", 0), P("N", 5));
  auto s = items(n, P("BITS", 4), n < P("SYM", 9) ? n : P("SYM", 9));
  auto r = s;
  if (psym_param("STABLE", 0)) parlay::stable_integer_sort_inplace(r, [](const Item& x) { return x.key; });
  else parlay::integer_sort_inplace(r, [](const Item& x) { return x.key; });
  isStableSorted(s, r);
  psym_cover("end");
}
ENTRY(isort_plain) {      // plain unsigned integers of several widths, whole value range
  size_t n = choose("n", 0, P("N", 2)), w = choose("w", 0, 3);
  auto go = [&](auto t) {
    using T = decltype(t);
    sequence<T> s(n);
    for (size_t i = 0; i < n; i++) { s[i] = (T)(sym<T>("k") & (T)((T)3 | (T)~((T)(~(T)0) >> 2))); }   // two low and two high bits are free
    auto r = parlay::integer_sort(s);
    auto q = s; parlay::integer_sort_inplace(q);
    for (size_t i = 1; i < n; i++) CHECK(r[i - 1] <= r[i] && q[i - 1] <= q[i], "ordered");
    T x = 0, y = 0, z = 0;
    for (size_t i = 0; i < n; i++) { x = (T)(x + s[i]); y = (T)(y + r[i]); z = (T)(z + q[i]); }
    CHECK(x == y && x == z, "same elements");
  };
  if (w == 0) go(uint8_t()); else if (w == 1) go(uint16_t()); else if (w == 2) go(uint32_t()); else go(uint64_t());
  psym_cover("end");
}
ENTRY(isort_max_key) {
  sequence<uint64_t> s{1, ~0ull, 5, sym<uint64_t>("k", 2)};
  auto r = parlay::integer_sort(s);
  for (size_t i = 1; i < 4; i++) CHECK(r[i - 1] <= r[i], "ordered");
  CHECK(r[3] == ~0ull, "the largest key sorts last");
  psym_cover("end");
}
ENTRY(isort_owning) {
  size_t n = choose("n", 0, P("N", 4));
  HeapBalance hb;
  {
    sequence<Tracked> s(n);
    for (size_t i = 0; i < n; i++) s[i] = Tracked((u)psym_u64("k", P("BITS", 3)) * 16 + (u)i);
    auto key = [](const Tracked& t) { return t.get() / 16; };
    auto r = parlay::integer_sort(s, key);
    auto q = s; parlay::integer_sort_inplace(q, key);
    CHECK(r.size() == n, "size");
    for (size_t i = 0; i < n; i++) { CHECK(q[i].get() == r[i].get(), "both agree"); if (i) CHECK(r[i - 1].get() < r[i].get(), "ordered and stable"); }
  }
  psym_cover("end");
}
ENTRY(csort) {
  size_t n = choose("n", P("LO", 0), P("N", 5)), m = choose("m", 1, P("M", 4));
  auto s = items(n, 2, n);
  for (auto& x : s) psym_assume(x.key < m);
  auto key = [](const Item& x) { return x.key; };
  auto [r, offs] = parlay::counting_sort(s, m, key);
  isStableSorted(s, r);
  auto q = s;
  auto offs2 = parlay::counting_sort_inplace(q, m, key);
  isStableSorted(s, q);
  CHECK(offs.size() == m + 1 && offs2.size() == m + 1, "one offset per bucket and the end");
  for (size_t b = 0; b <= m; b++) {
    size_t c = 0;
    for (size_t i = 0; i < n; i++) c += s[i].key < b;
    CHECK(offs[b] == c && offs2[b] == c, "offset of each bucket");
  }
  psym_cover("end");
}
ENTRY(csort_plain) {
  size_t n = choose("n", P("LO", 0), P("N", 5)), m = choose("m", 1, P("M", 4));
  sequence<u> s(n);
  for (auto& x : s) { x = (u)psym_u64("k", 2); psym_assume(x < m); }
  auto [r, offs] = parlay::counting_sort(s, m);
  auto q = s;
  auto offs2 = parlay::counting_sort_inplace(q, m);
  CHECK(r.size() == n && offs.size() == m + 1 && offs2.size() == m + 1, "sizes");
  for (size_t b = 0; b <= m; b++) {
    size_t c = 0;
    for (size_t i = 0; i < n; i++) c += s[i] < b;
    CHECK(offs[b] == c && offs2[b] == c, "offset of each bucket");
  }
  for (size_t i = 0; i < n; i++) { CHECK(r[i] == q[i], "both agree"); if (i) CHECK(r[i - 1] <= r[i], "ordered"); }
  auto kv = parlay::delayed_tabulate(n, [&](size_t i) { return std::pair<u, u>(s[i], (u)i); });
  auto [vals, o3] = parlay::counting_sort_by_keys(kv, m);
  CHECK(vals.size() == n, "size");
  for (size_t i = 0; i < n; i++) { CHECK(vals[i] < n && s[vals[i]] == r[i], "values follow their keys"); if (i) CHECK(r[i - 1] != r[i] || vals[i - 1] < vals[i], "stable"); }
  for (size_t b = 0; b <= m; b++) CHECK(o3[b] == offs[b], "offsets agree");
  psym_cover("end");
}
