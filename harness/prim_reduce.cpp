// reduce and scan, over every monoid (words), with ranges of several kinds.
#include "common.h"
#include <parlay/delayed_sequence.h>
#include <parlay/monoid.h>
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <array>
#include <vector>
using parlay::sequence;

static sequence<Word> words(size_t n) {
  auto s = sequence<Word>::uninitialized(n);
  for (size_t i = 0; i < n; i++) new (&s[i]) Word(letter("c"));
  return s;
}
ENTRY(reduce_word) {
  size_t n = choose("n", P("LO", 0), P("N", 30));
  auto s = words(n);
  Word ref;
  for (size_t i = 0; i < n; i++) ref = cat(ref, s[i]);
  CHECK(parlay::reduce(s, CatMonoid{}) == ref, "reduce combines every element once, in order");
  // a monoid made from a function object, and one from a legacy monoid
  auto m2 = parlay::binary_op([](Word a, Word b) { return cat(a, b); }, Word{});
  CHECK(parlay::reduce(parlay::make_slice(s), m2) == ref, "reduce over a slice with a custom monoid");
  psym_cover("end");
}
struct LegacyCat { using T = Word; Word identity; static Word f(Word a, Word b) { return cat(a, b); } };
ENTRY(reduce_views) {
  size_t n = choose("n", P("LO", 0), P("N", 24));
  auto s = words(n);
  Word ref, inner;
  for (size_t i = 0; i < n; i++) ref = cat(ref, s[i]);
  CHECK(parlay::reduce(parlay::delayed_tabulate(n, [&](size_t i) { return s[i]; }), CatMonoid{}) == ref, "reduce over a delayed sequence");
  CHECK(parlay::reduce(s, LegacyCat{}) == ref, "reduce with a legacy monoid");
  size_t a = choose("a", 0, n < 2 ? n : 2), b = choose("b", n < 2 ? a : n - 1, n);
  if (a > b) a = b;
  for (size_t i = a; i < b; i++) inner = cat(inner, s[i]);
  CHECK(parlay::reduce(s.cut(a, b), CatMonoid{}) == inner, "reduce over a cut");
  psym_cover("end");
}
template <typename T> void builtin(size_t n, const sequence<T>& s) {
  T sum = 0, mn = std::numeric_limits<T>::max(), mx = std::numeric_limits<T>::lowest(), x = 0, o = 0, a = (T)~(T)0;
  bool all = true, any = false;
  for (size_t i = 0; i < n; i++) {
    T v = s[i];
    sum = (T)(sum + v); mn = v < mn ? v : mn; mx = v > mx ? v : mx; x = (T)(x ^ v); o = (T)(o | v); a = (T)(a & v);
    all = all & (v != 0); any = any | (v != 0);
  }
  CHECK((T)parlay::reduce(s, parlay::minimum<T>()) == mn, "minimum");
  CHECK((T)parlay::reduce(s, parlay::maximum<T>()) == mx, "maximum");
  CHECK((T)parlay::reduce(s, parlay::bit_xor<T>()) == x, "bit_xor");
  CHECK((T)parlay::reduce(s, parlay::bit_or<T>()) == o, "bit_or");
  CHECK((T)parlay::reduce(s, parlay::bit_and<T>()) == a, "bit_and");
  CHECK(parlay::reduce(parlay::map(s, [](T v) { return v != 0; }), parlay::logical_and<bool>()) == all, "logical_and");
  CHECK(parlay::reduce(parlay::map(s, [](T v) { return v != 0; }), parlay::logical_or<bool>()) == any, "logical_or");
  CHECK((T)parlay::reduce(s, parlay::maxm<T>()) == mx, "maxm");
  CHECK((T)parlay::reduce(s, parlay::minm<T>()) == mn, "minm");
  CHECK((T)parlay::reduce(s, parlay::xorm<T>()) == x, "xorm");
}
ENTRY(reduce_builtin_u) {
  size_t n = choose("n", 0, P("N", 3));
  sequence<uint16_t> s(n);
  for (size_t i = 0; i < n; i++) s[i] = sym<uint16_t>("v");
  builtin(n, s);
  psym_cover("end");
}
ENTRY(reduce_builtin_s) {
  size_t n = choose("n", 0, P("N", 3));
  sequence<int> s(n);
  for (size_t i = 0; i < n; i++) { s[i] = sym<int>("v"); }
  int mn = std::numeric_limits<int>::max(), mx = std::numeric_limits<int>::min();
  for (size_t i = 0; i < n; i++) { mn = s[i] < mn ? s[i] : mn; mx = s[i] > mx ? s[i] : mx; }
  CHECK(parlay::reduce(s, parlay::minimum<int>()) == mn, "minimum");
  CHECK(parlay::reduce(s, parlay::maximum<int>()) == mx, "maximum");
  CHECK(parlay::reduce(s, parlay::minm<int>()) == mn, "minm");
  CHECK(parlay::reduce(s, parlay::maxm<int>()) == mx, "maxm");
  auto ps = parlay::map(s, [](int v) { return std::make_pair(v, v); });
  CHECK(parlay::reduce(ps, parlay::minmaxm<int>()) == std::make_pair(mn, mx), "minmaxm");
  auto pm = parlay::pair_monoid(parlay::minm<int>(), parlay::maxm<int>());
  CHECK(parlay::reduce(ps, pm) == std::make_pair(mn, mx), "pair_monoid");
  psym_cover("end");
}
ENTRY(reduce_sum) {
  size_t n = choose("n", P("LO", 0), P("N", 40));
  sequence<uint64_t> s(n);
  uint64_t ref = 0;
  for (size_t i = 0; i < n; i++) { s[i] = sym<uint64_t>("v"); ref += s[i]; }
  CHECK(parlay::reduce(s) == ref, "sum");
  CHECK(parlay::reduce(s, parlay::plus<uint64_t>()) == ref, "plus");
  CHECK(parlay::reduce(s, parlay::addm<uint64_t>()) == ref, "addm");
  std::vector<uint64_t> v(s.begin(), s.end());
  CHECK(parlay::reduce(v) == ref, "sum of a vector");
  uint64_t prod = 1;
  if (n <= 2) { for (auto x : s) prod *= x; CHECK(parlay::reduce(s, parlay::multiplies<uint64_t>()) == prod, "multiplies"); }
  auto am = parlay::array_monoid<parlay::addm<uint64_t>, 2>(parlay::addm<uint64_t>());
  auto as = parlay::tabulate(n, [&](size_t i) { return std::array<uint64_t, 2>{s[i], (uint64_t)i}; });
  auto r = parlay::reduce(as, am);
  CHECK(r[0] == ref && r[1] == n * (n - 1) / 2, "array_monoid");
  psym_cover("end");
}
// a monoid whose elements own memory
struct TrackedCat {
  Tracked identity{0u};
  Tracked operator()(const Tracked& a, const Tracked& b) const { return Tracked(a.get() * 3u + b.get()); }
};
ENTRY(reduce_owning) {
  size_t n = choose("n", P("LO", 0), P("N", 23));
  HeapBalance hb;
  {
    struct Add { Tracked identity{0u}; Tracked operator()(const Tracked& a, const Tracked& b) const { return Tracked(a.get() + b.get()); } };
    sequence<Tracked> s(n);
    unsigned ref = 0;
    for (size_t i = 0; i < n; i++) { s[i] = Tracked(psym_u64("v", 32)); ref += s[i].get(); }
    CHECK(parlay::reduce(s, Add{}).get() == ref, "reduce over owning elements");
    auto [r, t] = parlay::scan(s, Add{});
    CHECK(t.get() == ref, "scan total over owning elements");
    unsigned acc = 0;
    for (size_t i = 0; i < n; i++) { CHECK(r[i].get() == acc, "scan prefix over owning elements"); acc += s[i].get(); }
    auto ri = parlay::scan_inclusive(s, Add{});
    acc = 0;
    for (size_t i = 0; i < n; i++) { acc += s[i].get(); CHECK(ri[i].get() == acc, "inclusive scan over owning elements"); }
  }
  psym_cover("end");
}

// ------------------------------------------------------------------ scans
static void checkScan(const sequence<Word>& in, const sequence<Word>& out, bool inclusive, const char* what) {
  CHECK(out.size() == in.size(), "scan returns one prefix per element");
  Word acc;
  for (size_t i = 0; i < in.size(); i++) {
    if (inclusive) { acc = cat(acc, in[i]); CHECK(out[i] == acc, what); }
    else { CHECK(out[i] == acc, what); acc = cat(acc, in[i]); }
  }
}
ENTRY(scan_word) {
  size_t n = choose("n", P("LO", 0), P("N", 18));
  auto s = words(n);
  auto s0 = s;
  Word ref;
  for (size_t i = 0; i < n; i++) ref = cat(ref, s[i]);
  auto [o, t] = parlay::scan(s, CatMonoid{});
  checkScan(s0, o, false, "exclusive scan");
  CHECK(t == ref, "scan total");
  checkScan(s0, parlay::scan_inclusive(s, CatMonoid{}), true, "inclusive scan");
  psym_cover("end");
}
ENTRY(scan_word2) {
  size_t n = choose("n", P("LO", 0), P("N", 18));
  auto s = words(n);
  auto s0 = s;
  Word ref;
  for (size_t i = 0; i < n; i++) ref = cat(ref, s[i]);
  auto a = s;
  CHECK(parlay::scan_inplace(a, CatMonoid{}) == ref, "in-place scan total");
  checkScan(s0, a, false, "in-place exclusive scan");
  auto b = s;
  CHECK(parlay::scan_inclusive_inplace(b, CatMonoid{}) == ref, "in-place inclusive scan total");
  checkScan(s0, b, true, "in-place inclusive scan");
  for (size_t i = 0; i < n; i++) CHECK(s[i] == s0[i], "the input of a copying scan is unchanged");
  auto [c, tc] = parlay::scan(parlay::delayed_tabulate(n, [&](size_t i) { return s[i]; }), CatMonoid{});
  checkScan(s0, c, false, "scan of a delayed sequence");
  CHECK(tc == ref, "total of a delayed scan");
  psym_cover("end");
}
ENTRY(scan_sum) {
  size_t n = choose("n", P("LO", 0), P("N", 20));
  sequence<uint32_t> s(n);
  for (size_t i = 0; i < n; i++) s[i] = sym<uint32_t>("v");
  auto [o, t] = parlay::scan(s);
  auto inc = parlay::scan_inclusive(s);
  auto a = s; auto ta = parlay::scan_inplace(a);
  auto b = s; auto tb = parlay::scan_inclusive_inplace(b);
  auto [lo, lt] = parlay::scan(s, parlay::addm<uint32_t>());
  auto li = parlay::scan_inclusive(s, parlay::addm<uint32_t>());
  auto la = s; auto lta = parlay::scan_inplace(la, parlay::addm<uint32_t>());
  auto lb = s; parlay::scan_inclusive_inplace(lb, parlay::addm<uint32_t>());
  uint32_t acc = 0;
  for (size_t i = 0; i < n; i++) {
    CHECK(o[i] == acc && a[i] == acc && lo[i] == acc && la[i] == acc, "exclusive prefix sum");
    acc += s[i];
    CHECK(inc[i] == acc && b[i] == acc && li[i] == acc && lb[i] == acc, "inclusive prefix sum");
  }
  CHECK(t == acc && ta == acc && tb == acc && lt == acc && lta == acc, "total");
  psym_cover("end");
}
ENTRY(scan_max) {
  size_t n = choose("n", P("LO", 0), P("N", 13));
  // strictly positive distinct steps keep the maximum decidable by ordering
  sequence<int> s(n);
  size_t k = choose("k", 0, n);
  int big = sym<int>("big");
  for (size_t i = 0; i < n; i++) s[i] = i == k ? big : (int)(i * 7 % 5);
  auto [o, t] = parlay::scan(s, parlay::maximum<int>());
  auto [p, u] = parlay::scan(s, parlay::minimum<int>());
  int mx = std::numeric_limits<int>::lowest(), mn = std::numeric_limits<int>::max();
  for (size_t i = 0; i < n; i++) { CHECK(o[i] == mx, "running maximum"); CHECK(p[i] == mn, "running minimum"); mx = s[i] > mx ? s[i] : mx; mn = s[i] < mn ? s[i] : mn; }
  CHECK(t == mx && u == mn, "scan total of min and max");
  psym_cover("end");
}
