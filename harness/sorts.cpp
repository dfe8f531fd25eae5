// Comparison sorts and merge.
#include "common.h"
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <vector>
#include <memory>
using parlay::sequence;
typedef uint32_t u;
struct Item { u key; u idx; };
struct Big { u key; u idx; uint64_t pad[2]; };
template <typename T> struct ByKey { bool operator()(const T& a, const T& b) const { return a.key < b.key; } };

// A call of the comparison with an element that is not one of the input (raw or moved-from
// memory) is reported as well: the index must be below n.
static size_t g_n;
template <typename T> struct Checked { bool operator()(const T& a, const T& b) const { CHECK(a.idx < g_n && b.idx < g_n, "the comparison is called with something that is not an element"); return a.key < b.key; } };

template <typename S, typename R> static void isSorted(const S& s, const R& r, bool stable) {
  size_t n = s.size();
  CHECK(r.size() == n, "sorting keeps the number of elements");
  std::vector<bool> seen(n, false);
  for (size_t i = 0; i < n; i++) {
    CHECK(r[i].idx < n, "every output element is an input element");
    size_t k = r[i].idx;
    CHECK(!seen[k], "no element occurs twice in the output");
    seen[k] = true;
    CHECK(r[i].key == s[k].key, "elements are not altered");
    if (i) {
      CHECK(r[i - 1].key <= r[i].key, "output is ordered");
      if (stable) CHECK(!(r[i - 1].key == r[i].key) || r[i - 1].idx < r[i].idx, "equal elements keep their order");
    }
  }
}
template <typename T> static sequence<T> items(size_t n) {
  sequence<T> s(n);
  for (size_t i = 0; i < n; i++) { s[i] = T{}; s[i].key = sym<u>("k"); s[i].idx = (u)i; }
  g_n = n;
  return s;
}
// mode 0: few distinct keys, 1: distinct scrambled keys, 2: ascending, 3: descending; sym positions on top
template <typename T> static sequence<T> partly(size_t n, size_t mode, size_t nsym) {
  sequence<T> s(n);
  for (size_t i = 0; i < n; i++) {
    s[i] = T{}; s[i].idx = (u)i;
    s[i].key = (u)(10 * (mode == 0 ? (i * 7 + i / 5) % 3 : mode == 1 ? (i * 37) % n : mode == 2 ? i : n - i));
  }
  for (size_t j = 0; j < nsym; j++) { size_t p = (j * (n / 2) + psym_param("OFF", 0)) % n; u k = sym<u>("k"); psym_assume(k <= (u)psym_param("KMAX", 1000)); s[p].key = k; }
  g_n = n;
  return s;
}
ENTRY(sort_copy) {
  size_t n = choose("n", P("LO", 0), P("N", 6));
  auto s = items<Item>(n);
  isSorted(s, parlay::sort(s, Checked<Item>()), false);
  psym_cover("end");
}
ENTRY(sort_stable) {
  size_t n = choose("n", P("LO", 0), P("N", 6));
  auto s = items<Item>(n);
  isSorted(s, parlay::stable_sort(s, Checked<Item>()), true);
  psym_cover("end");
}
ENTRY(sort_inplace) {
  size_t n = choose("n", P("LO", 0), P("N", 6));
  auto s = items<Item>(n); auto r = s;
  parlay::sort_inplace(r, Checked<Item>());
  isSorted(s, r, false);
  psym_cover("end");
}
ENTRY(sort_stable_inplace) {
  size_t n = choose("n", P("LO", 0), P("N", 6));
  auto s = items<Item>(n); auto r = s;
  parlay::stable_sort_inplace(r, Checked<Item>());
  isSorted(s, r, true);
  psym_cover("end");
}
ENTRY(sort_big) {
  size_t n = choose("n", P("LO", 0), P("N", 6));
  auto s = items<Big>(n); auto r = s;
  parlay::sort_inplace(r, Checked<Big>());
  isSorted(s, r, false);
  psym_cover("end");
}
ENTRY(sort_big_stable) {
  size_t n = choose("n", P("LO", 0), P("N", 6));
  auto s = items<Big>(n);
  isSorted(s, parlay::stable_sort(s, Checked<Big>()), true);
  psym_cover("end");
}
ENTRY(sort_default_order) {
  size_t n = choose("n", P("LO", 0), P("N", 6));
  sequence<int> s(n);
  for (size_t i = 0; i < n; i++) s[i] = sym<int>("k");
  auto r = parlay::sort(s);
  auto t = parlay::stable_sort(s);
  auto a = s; parlay::sort_inplace(a);
  auto b = s; parlay::stable_sort_inplace(b);
  auto d = parlay::sort(s, std::greater<>());
  CHECK(r.size() == n && t.size() == n && d.size() == n, "sizes");
  for (size_t i = 1; i < n; i++) CHECK(r[i - 1] <= r[i], "sort orders by <");
  for (size_t i = 0; i < n; i++) CHECK(t[i] == r[i] && a[i] == r[i] && b[i] == r[i] && d[n - 1 - i] == r[i], "all sorts agree");
  psym_cover("end");
}
ENTRY(sort_owning) {
  size_t n = choose("n", 0, P("N", 5));
  HeapBalance hb;
  {
    std::vector<u> v(n);
    sequence<Tracked> s(n);
    for (size_t i = 0; i < n; i++) { v[i] = sym<u>("k"); s[i] = Tracked(v[i]); }
    auto r = parlay::sort(s);
    auto t = parlay::stable_sort(s);
    auto a = s; parlay::sort_inplace(a);
    auto b = s; parlay::stable_sort_inplace(b);
    std::vector<u> o(v);
    for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && o[j] < o[j - 1]; j--) std::swap(o[j], o[j - 1]);
    for (size_t i = 0; i < n; i++) {
      CHECK(s[i].get() == v[i], "a copying sort leaves its input alone");
      CHECK(r[i].get() == o[i] && t[i].get() == o[i] && a[i].get() == o[i] && b[i].get() == o[i], "owning elements are sorted");
    }
  }
  psym_cover("end");
}
ENTRY(sort_move_only) {
  size_t n = choose("n", 0, P("N", 5));
  HeapBalance hb;
  {
    std::vector<u> v(n);
    sequence<std::unique_ptr<u>> s(n), q(n);
    for (size_t i = 0; i < n; i++) { v[i] = sym<u>("k"); s[i] = std::make_unique<u>(v[i]); q[i] = std::make_unique<u>(v[i]); }
    auto less = [](const std::unique_ptr<u>& a, const std::unique_ptr<u>& b) { return *a < *b; };
    parlay::sort_inplace(s, less);
    parlay::stable_sort_inplace(q, less);
    for (size_t i = 0; i < n; i++) { CHECK(s[i] && q[i] && *s[i] == *q[i], "both in-place sorts agree"); if (i) CHECK(*s[i - 1] <= *s[i], "ordered"); }
  }
  psym_cover("end");
}
// ---- sample sort: enough elements for several blocks and buckets, a few of them symbolic
ENTRY(sample_sort_copy) {
  size_t n = choose("n", P("LO", 36), P("N", 36)), mode = choose("mode", 0, P("MODES", 1));
  auto s = partly<Big>(n, mode, P("SYM", 3));
  isSorted(s, parlay::sort(s, Checked<Big>()), false);
  psym_cover("end");
}
ENTRY(sample_sort_stable) {
  size_t n = choose("n", P("LO", 36), P("N", 36)), mode = choose("mode", 0, P("MODES", 1));
  auto s = partly<Big>(n, mode, P("SYM", 2));
  isSorted(s, parlay::stable_sort(s, Checked<Big>()), true);
  psym_cover("end");
}
ENTRY(sample_sort_inplace) {
  size_t n = choose("n", P("LO", 36), P("N", 36)), mode = choose("mode", 0, P("MODES", 1));
  auto s = partly<Big>(n, mode, P("SYM", 2)); auto r = s;
  parlay::sort_inplace(r, Checked<Big>());
  isSorted(s, r, false);
  psym_cover("end");
}
ENTRY(sample_sort_pointers) {
  size_t n = choose("n", P("LO", 16), P("N", 18)), mode = choose("mode", 0, P("MODES", 1));
  auto s = partly<Big>(n, mode, P("SYM", 3));
  sequence<const Big*> p(n);
  for (size_t i = 0; i < n; i++) p[i] = &s[i];
  auto r = parlay::sort(p, [](const Big* a, const Big* b) { return a->key < b->key; });
  auto t = parlay::stable_sort(p, [](const Big* a, const Big* b) { return a->key < b->key; });
  auto rv = parlay::map(r, [](const Big* b) { return *b; });
  isSorted(s, rv, false);
  isSorted(s, parlay::map(t, [](const Big* b) { return *b; }), true);
  psym_cover("end");
}
ENTRY(sample_sort_small_items) {
  size_t n = choose("n", P("LO", 64), P("N", 64)), mode = choose("mode", 0, P("MODES", 1));
  auto s = partly<Item>(n, mode, P("SYM", 2));
  isSorted(s, parlay::sort(s, Checked<Item>()), false);
  psym_cover("end");
}
ENTRY(sort_partly) {      // bucket sort recursion, parallel quicksort, merge sort on longer inputs
  size_t n = choose("n", P("LO", 20), P("N", 20)), mode = choose("mode", 0, P("MODES", 3));
  auto s = partly<Item>(n, mode, P("SYM", 2));
  isSorted(s, parlay::sort(s, Checked<Item>()), false);
  isSorted(s, parlay::stable_sort(s, Checked<Item>()), true);
  auto r = s; parlay::sort_inplace(r, Checked<Item>()); isSorted(s, r, false);
  auto q = s; parlay::stable_sort_inplace(q, Checked<Item>()); isSorted(s, q, true);
  psym_cover("end");
}
// ---- merge
ENTRY(merge_two) {
  size_t n = choose("n", 0, P("N", 4)), m = choose("m", 0, P("M", 4));
  auto a = items<Item>(n), b = items<Item>(m);
  g_n = 1000;
  for (size_t i = 1; i < n; i++) psym_assume(a[i - 1].key <= a[i].key);
  for (size_t i = 0; i < m; i++) { b[i].idx = (u)(100 + i); if (i) psym_assume(b[i - 1].key <= b[i].key); }
  auto r = parlay::merge(a, b, Checked<Item>());
  CHECK(r.size() == n + m, "merge keeps every element");
  size_t ca = 0, cb = 0;
  for (size_t i = 0; i < r.size(); i++) {
    if (r[i].idx < 100) { CHECK(ca < n && r[i].idx == ca && r[i].key == a[ca].key, "elements of the first range stay in order"); ca++; }
    else { CHECK(cb < m && r[i].idx == 100 + cb && r[i].key == b[cb].key, "elements of the second range stay in order"); cb++; }
    if (i) {
      CHECK(r[i - 1].key <= r[i].key, "merged output is ordered");
      CHECK(!(r[i - 1].key == r[i].key) || r[i - 1].idx < r[i].idx, "on ties the first range comes first");
    }
  }
  psym_cover("end");
}
ENTRY(merge_long) {
  size_t n = choose("n", P("LO", 5), P("N", 9)), m = choose("m", P("LO", 5), P("N", 9));
  sequence<Item> a(n), b(m);
  size_t pa = choose("pa", 0, 2) * (n - 1) / 2, pb = choose("pb", 0, 1) * (m - 1);
  for (size_t i = 0; i < n; i++) a[i] = Item{(u)(i / 2 * 10), (u)i};
  for (size_t i = 0; i < m; i++) b[i] = Item{(u)(i / 3 * 10 + 5 * (i & 0)), (u)(100 + i)};
  a[pa].key = sym<u>("k"); b[pb].key = sym<u>("k");
  for (size_t i = 1; i < n; i++) psym_assume(a[i - 1].key <= a[i].key);
  for (size_t i = 1; i < m; i++) psym_assume(b[i - 1].key <= b[i].key);
  auto r = parlay::merge(a, b, ByKey<Item>());
  CHECK(r.size() == n + m, "merge keeps every element");
  size_t ca = 0, cb = 0;
  for (size_t i = 0; i < r.size(); i++) {
    if (r[i].idx < 100) { CHECK(ca < n && r[i].idx == ca && r[i].key == a[ca].key, "elements of the first range stay in order"); ca++; }
    else { CHECK(cb < m && r[i].idx == 100 + cb && r[i].key == b[cb].key, "elements of the second range stay in order"); cb++; }
    if (i) {
      CHECK(r[i - 1].key <= r[i].key, "merged output is ordered");
      CHECK(!(r[i - 1].key == r[i].key) || r[i - 1].idx < r[i].idx, "on ties the first range comes first");
    }
  }
  psym_cover("end");
}
ENTRY(merge_default) {
  size_t n = choose("n", 0, P("N", 3)), m = choose("m", 0, P("M", 4));
  sequence<int> a(n), b(m);
  for (size_t i = 0; i < n; i++) { a[i] = sym<int>("a"); if (i) psym_assume(a[i - 1] <= a[i]); }
  for (size_t i = 0; i < m; i++) { b[i] = sym<int>("b"); if (i) psym_assume(b[i - 1] <= b[i]); }
  auto r = parlay::merge(a, b);
  std::vector<int> ref;
  for (size_t i = 0, j = 0; i < n || j < m;) { if (j == m || (i < n && !(b[j] < a[i]))) ref.push_back(a[i++]); else ref.push_back(b[j++]); }
  CHECK(r.size() == n + m, "size");
  for (size_t i = 0; i < n + m; i++) CHECK(r[i] == ref[i], "merge by <");
  psym_cover("end");
}
ENTRY(merge_owning) {
  size_t n = choose("n", 0, P("N", 3)), m = choose("m", 0, P("M", 3));
  HeapBalance hb;
  {
    sequence<Tracked> a(n), b(m);
    for (size_t i = 0; i < n; i++) { a[i] = Tracked(sym<u>("a")); if (i) psym_assume(a[i - 1].get() <= a[i].get()); }
    for (size_t i = 0; i < m; i++) { b[i] = Tracked(sym<u>("b")); if (i) psym_assume(b[i - 1].get() <= b[i].get()); }
    auto r = parlay::merge(a, b);
    for (size_t i = 1; i < n + m; i++) CHECK(r[i - 1].get() <= r[i].get(), "merged output is ordered");
  }
  psym_cover("end");
}
