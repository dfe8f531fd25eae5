// Searching, comparing, extrema and order predicates against their std definitions.
#include "common.h"
#include <parlay/delayed_sequence.h>
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <vector>
using parlay::sequence;
typedef uint32_t u;
static sequence<u> vals(size_t n, const char* nm = "v") { sequence<u> s(n); for (size_t i = 0; i < n; i++) s[i] = sym<u>(nm); return s; }

ENTRY(find_first) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  auto odd = [](u x) -> bool { return x & 1; };
  size_t f = n;
  for (size_t i = n; i-- > 0;) if (odd(s[i])) f = i;
  CHECK((size_t)(parlay::find_if(s, odd) - s.begin()) == f, "find_if returns the first match");
  CHECK((size_t)(parlay::find_if_not(s, [&](u x) { return !odd(x); }) - s.begin()) == f, "find_if_not returns the first non-match");
  psym_cover("end");
}
ENTRY(find_value) {
  size_t n = choose("n", P("LO", 0), P("N", 7));
  auto s = vals(n);
  u x = sym<u>("x");
  size_t f = n;
  for (size_t i = n; i-- > 0;) if (s[i] == x) f = i;
  auto it = parlay::find(s, x);
  CHECK((size_t)(it - s.begin()) == f, "find returns the first equal element or the end");
  psym_cover("end");
}
ENTRY(quantifiers) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  auto odd = [](u x) -> bool { return x & 1; };
  size_t c = 0;
  bool all = true, any = false;
  for (size_t i = 0; i < n; i++) { bool o = odd(s[i]); c += o; all = all & o; any = any | o; }
  CHECK(parlay::count_if(s, odd) == c, "count_if");
  CHECK(parlay::all_of(s, odd) == all, "all_of");
  CHECK(parlay::any_of(s, odd) == any, "any_of");
  CHECK(parlay::none_of(s, odd) == !any, "none_of");
  psym_cover("end");
}
ENTRY(count_value) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  u x = sym<u>("x");
  size_t c = 0;
  for (size_t i = 0; i < n; i++) c += s[i] == x;
  CHECK(parlay::count(s, x) == c, "count");
  auto seen = sequence<u>(n, 0u);
  parlay::for_each(parlay::iota<u>(n), [&](u i) { seen[i] += s[i]; });
  for (size_t i = 0; i < n; i++) CHECK(seen[i] == s[i], "for_each visits every element once");
  psym_cover("end");
}
ENTRY(find_first_of_set) {
  size_t n = choose("n", 0, P("N", 4)), m = choose("m", 0, P("M", 3));
  auto s = vals(n); auto t = vals(m, "t");
  size_t f = n;
  for (size_t i = n; i-- > 0;) { bool h = false; for (size_t j = 0; j < m; j++) h = h | (s[i] == t[j]); if (h) f = i; }
  CHECK((size_t)(parlay::find_first_of(s, t) - s.begin()) == f, "find_first_of");
  psym_cover("end");
}
ENTRY(adjacent) {
  size_t n = choose("n", 0, P("N", 8));
  auto s = vals(n);
  size_t f = n;
  for (size_t i = n; i-- > 0;) if (i + 1 < n && s[i] == s[i + 1]) f = i;
  CHECK((size_t)(parlay::adjacent_find(s) - s.begin()) == f, "adjacent_find");
  psym_cover("end");
}
ENTRY(mismatch_equal) {
  size_t n = choose("n", 0, P("N", 6)), m = choose("m", 0, P("N", 6));
  auto s = vals(n); auto t = vals(m, "t");
  size_t k = n < m ? n : m, f = k;
  for (size_t i = k; i-- > 0;) if (s[i] != t[i]) f = i;
  auto p = parlay::mismatch(s, t);
  CHECK((size_t)(p.first - s.begin()) == f && (size_t)(p.second - t.begin()) == f, "mismatch");
  CHECK(parlay::equal(s, t) == (n == m && f == k), "equal");
  CHECK((s == t) == (n == m && f == k), "sequence equality");
  psym_cover("end");
}
ENTRY(lexicographic) {
  size_t n = choose("n", 0, P("N", 5)), m = choose("m", 0, P("N", 5));
  auto s = vals(n); auto t = vals(m, "t");
  size_t k = n < m ? n : m;
  int r = n < m ? -1 : n > m ? 1 : 0;
  for (size_t i = k; i-- > 0;) r = s[i] < t[i] ? -1 : t[i] < s[i] ? 1 : r;
  CHECK(parlay::lexicographical_compare(s, t) == (r < 0), "lexicographical_compare");
  CHECK((s < t) == (r < 0), "sequence less-than");
  psym_cover("end");
}
ENTRY(search_pattern) {
  size_t n = choose("n", 0, P("N", 5)), m = choose("m", 0, P("M", 3));
  auto s = vals(n); auto t = vals(m, "t");
  size_t f = n, l = n;
  for (size_t i = 0; i + m <= n; i++) {
    bool h = true;
    for (size_t j = 0; j < m; j++) h = h & (s[i + j] == t[j]);
    if (h) { if (f == n) f = i; if (m) l = i; }
  }
  CHECK((size_t)(parlay::search(s, t) - s.begin()) == f, "search returns the first occurrence");
  psym_cover("end");
}
ENTRY(find_end_pattern) {
  size_t n = choose("n", 0, P("N", 5)), m = choose("m", 0, P("M", 3));
  auto s = vals(n); auto t = vals(m, "t");
  size_t l = n;
  for (size_t i = 0; i + m <= n; i++) {
    bool h = m > 0;
    for (size_t j = 0; j < m; j++) h = h & (s[i + j] == t[j]);
    if (h) l = i;
  }
  CHECK((size_t)(parlay::find_end(s, t) - s.begin()) == l, "find_end returns the last occurrence");
  psym_cover("end");
}
// Extrema. n is large enough for two reduce blocks; the values are symbolic only at chosen places.
ENTRY(extrema_small) {
  size_t n = choose("n", 0, P("N", 5));
  auto s = vals(n);
  size_t mi = n ? 0 : n, ma = mi;
  for (size_t i = 0; i < n; i++) { if (s[i] < s[mi]) mi = i; if (s[ma] < s[i]) ma = i; }
  CHECK((size_t)(parlay::min_element(s) - s.begin()) == mi, "min_element returns the first smallest element");
  CHECK((size_t)(parlay::max_element(s) - s.begin()) == ma, "max_element returns the first largest element");
  auto [a, b] = parlay::minmax_element(s);
  CHECK((size_t)(a - s.begin()) == mi, "minmax_element: smallest");
  CHECK(n == 0 ? b == s.begin() : *b == s[ma], "minmax_element: largest");
  CHECK((size_t)(parlay::min_element(s, [](u x, u y) { return x > y; }) - s.begin()) == ma, "min_element with a comparison");
  psym_cover("end");
}
ENTRY(extrema_blocks) {
  size_t n = choose("n", P("LO", 20), P("N", 24));
  size_t i1 = choose("i1", 0, 3) * 7, i2 = choose("i2", 0, 2) * 9 + 1;
  sequence<u> s(n);
  for (size_t i = 0; i < n; i++) s[i] = 1000 + (u)(i * 5 % 11);
  if (i1 < n) s[i1] = sym<u>("v");
  if (i2 < n) s[i2] = sym<u>("v");
  size_t mi = 0, ma = 0;
  for (size_t i = 0; i < n; i++) { if (s[i] < s[mi]) mi = i; if (s[ma] < s[i]) ma = i; }
  CHECK((size_t)(parlay::min_element(s) - s.begin()) == mi, "min_element returns the first smallest element");
  CHECK((size_t)(parlay::max_element(s) - s.begin()) == ma, "max_element returns the first largest element");
  auto [a, b] = parlay::minmax_element(s);
  CHECK((size_t)(a - s.begin()) == mi, "minmax_element: smallest");
  CHECK(*b == s[ma], "minmax_element: largest");
  psym_cover("end");
}
ENTRY(order_predicates) {
  size_t n = choose("n", 0, P("N", 6));
  auto s = vals(n);
  bool sorted = true; size_t until = n;
  for (size_t i = n; i-- > 1;) if (s[i] < s[i - 1]) { sorted = false; until = i; }
  CHECK(parlay::is_sorted(s, std::less<>()) == sorted, "is_sorted");
  CHECK((size_t)(parlay::is_sorted_until(s, std::less<>()) - s.begin()) == until, "is_sorted_until");
  psym_cover("end");
}
ENTRY(partitioned) {
  size_t n = choose("n", 0, P("N", 9));
  auto s = vals(n);
  bool ok = true, seen = false;
  for (size_t i = 0; i < n; i++) { bool o = s[i] & 1; ok = ok & !(seen & o); seen = seen | !o; }
  CHECK(parlay::is_partitioned(s, [](u x) -> bool { return x & 1; }) == ok, "is_partitioned");
  psym_cover("end");
}
ENTRY(sorted_long) {
  size_t n = choose("n", 20, P("N", 26)), at = choose("at", 0, 25);
  sequence<u> s(n);
  for (size_t i = 0; i < n; i++) s[i] = (u)(10 * i);
  if (at < n) s[at] = sym<u>("v");
  bool sorted = true;
  for (size_t i = 1; i < n; i++) sorted = sorted & !(s[i] < s[i - 1]);
  CHECK(parlay::is_sorted(s, std::less<>()) == sorted, "is_sorted");
  psym_cover("end");
}
ENTRY(permutations) {
  size_t n = choose("n", 0, P("N", 9));
  auto s = vals(n);
  auto r = parlay::reverse(s);
  auto q = s; parlay::reverse_inplace(q);
  CHECK(r.size() == n && q.size() == n, "reverse keeps the size");
  for (size_t i = 0; i < n; i++) CHECK(r[i] == s[n - 1 - i] && q[i] == r[i], "reverse");
  size_t t = choose("t", 0, n);
  auto o = parlay::rotate(s, t);
  CHECK(o.size() == n, "rotate keeps the size");
  for (size_t i = 0; i < n; i++) CHECK(o[i] == s[(i + t) % n], "rotate");
  psym_cover("end");
}
