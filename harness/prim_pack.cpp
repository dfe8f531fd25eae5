// pack, filter, flatten, append and relatives.
#include "common.h"
#include <parlay/delayed_sequence.h>
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <vector>
using parlay::sequence;
typedef uint32_t u;

static sequence<u> vals(size_t n) { sequence<u> s(n); for (size_t i = 0; i < n; i++) s[i] = sym<u>("v"); return s; }
// The expected kept elements are described by position: out[k] must be the k-th i with keep(i).
template <typename R, typename K, typename V>
static void checkKept(const R& out, size_t n, K keep, V val, const char* what) {
  size_t k = 0;
  for (size_t i = 0; i < n; i++) if (keep(i)) { CHECK(k < out.size() && out[k] == val(i), what); k++; }
  CHECK(out.size() == k, "number of kept elements");
}
ENTRY(pack_flags) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  sequence<bool> f(n);
  for (size_t i = 0; i < n; i++) f[i] = psym_u64("f", 1);
  auto keep = [&](size_t i) -> bool { return f[i]; };
  auto val = [&](size_t i) { return s[i]; };
  checkKept(parlay::pack(s, f), n, keep, val, "pack keeps the flagged elements in order");
  auto ix = parlay::pack_index(f);
  checkKept(ix, n, keep, [](size_t i) { return i; }, "pack_index lists the flagged positions");
  auto ix2 = parlay::pack_index<u>(f);
  checkKept(ix2, n, keep, [](size_t i) { return (u)i; }, "pack_index with an index type");
  sequence<u> out(n, 7u);
  size_t m = parlay::pack_into(s, f, out);
  size_t k = 0;
  for (size_t i = 0; i < n; i++) if (keep(i)) { CHECK(out[k] == s[i], "pack_into writes the flagged elements"); k++; }
  CHECK(m == k, "pack_into returns the count");
  for (; k < n; k++) CHECK(out[k] == 7u, "pack_into leaves the rest of the output alone");
  psym_cover("end");
}
ENTRY(pack_flags2) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  sequence<unsigned char> f(n);
  for (size_t i = 0; i < n; i++) f[i] = (unsigned char)psym_u64("f", 1);
  auto keep = [&](size_t i) -> bool { return f[i]; };
  auto val = [&](size_t i) { return s[i]; };
  auto o = sequence<u>::uninitialized(n);
  size_t m = parlay::pack_into_uninitialized(s, f, o);
  size_t k = 0;
  for (size_t i = 0; i < n; i++) if (keep(i)) { CHECK(o[k] == s[i], "pack_into_uninitialized"); k++; }
  CHECK(m == k, "pack_into_uninitialized returns the count");
  checkKept(parlay::pack(parlay::delayed_tabulate(n, [&](size_t i) { return s[i]; }), parlay::delayed_map(f, [](unsigned char c) { return c != 0; })), n, keep, val, "pack of delayed sequences");
  psym_cover("end");
}
ENTRY(filter_pred) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  auto keep = [&](size_t i) -> bool { return s[i] & 1; };
  auto val = [&](size_t i) { return s[i]; };
  checkKept(parlay::filter(s, [](u x) { return x & 1; }), n, keep, val, "filter keeps exactly the matching elements in order");
  sequence<u> out(n, 4u);
  size_t m = parlay::filter_into(s, out, [](u x) { return x & 1; });
  size_t k = 0;
  for (size_t i = 0; i < n; i++) if (keep(i)) { CHECK(out[k] == s[i], "filter_into"); k++; }
  CHECK(m == k, "filter_into returns the count");
  for (; k < n; k++) CHECK(out[k] == 4u, "filter_into leaves the rest alone");
  auto o = sequence<u>::uninitialized(n);
  m = parlay::filter_into_uninitialized(s, o, [](u x) { return x & 1; });
  k = 0;
  for (size_t i = 0; i < n; i++) if (keep(i)) { CHECK(o[k] == s[i], "filter_into_uninitialized"); k++; }
  CHECK(m == k, "filter_into_uninitialized returns the count");
  psym_cover("end");
}
ENTRY(filter_more) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  auto val = [&](size_t i) { return s[i]; };
  checkKept(parlay::remove_if(s, [](u x) { return x & 1; }), n, [&](size_t i) { return !(s[i] & 1); }, val, "remove_if keeps the others in order");
  auto odd = parlay::map_maybe(s, [](u x) -> std::optional<u> { if (x & 1) return x + 5; return std::nullopt; });
  checkKept(odd, n, [&](size_t i) { return s[i] & 1; }, [&](size_t i) { return s[i] + 5; }, "map_maybe keeps the values");
  psym_cover("end");
}
ENTRY(remove_value) {
  size_t n = choose("n", P("LO", 0), P("N", 8));
  auto s = vals(n);
  u x = sym<u>("x");
  checkKept(parlay::remove(s, x), n, [&](size_t i) { return s[i] != x; }, [&](size_t i) { return s[i]; }, "remove drops exactly the equal elements");
  psym_cover("end");
}
ENTRY(unique_adjacent) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  auto s = vals(n);
  checkKept(parlay::unique(s), n, [&](size_t i) { return i == 0 || s[i] != s[i - 1]; }, [&](size_t i) { return s[i]; }, "unique keeps the first of each run");
  psym_cover("end");
}
ENTRY(filter_owning) {
  size_t n = choose("n", P("LO", 0), P("N", 7));
  HeapBalance hb;
  {
    sequence<Tracked> s(n);
    for (size_t i = 0; i < n; i++) s[i] = Tracked((unsigned)psym_u64("v", 32));
    auto r = parlay::filter(s, [](const Tracked& t) { return t.get() & 1; });
    size_t k = 0;
    for (size_t i = 0; i < n; i++) if (s[i].get() & 1) { CHECK(k < r.size() && r[k].get() == s[i].get(), "filter copies owning elements"); k++; }
    CHECK(r.size() == k, "number of kept elements");
    auto q = parlay::pack(s, parlay::delayed_tabulate(n, [&](size_t i) { return (s[i].get() & 1) == 0; }));
    CHECK(q.size() == n - k, "number of packed elements");
  }
  psym_cover("end");
}
ENTRY(flatten_any) {
  size_t m = choose("m", 0, P("M", 4)), total = 0;
  sequence<sequence<u>> ss(m);
  for (size_t i = 0; i < m; i++) { size_t k = choose("k", 0, P("K", 2)); ss[i] = vals(k); total += k; }
  auto r = parlay::flatten(ss);
  std::vector<u> ref;
  for (auto& s : ss) for (u x : s) ref.push_back(x);
  CHECK(r.size() == ref.size(), "flatten has every element");
  for (size_t i = 0; i < ref.size(); i++) CHECK(r[i] == ref[i], "flatten concatenates in order");
  auto r2 = parlay::flatten(std::move(ss));
  CHECK(r2.size() == ref.size(), "flatten of an rvalue has every element");
  for (size_t i = 0; i < ref.size(); i++) CHECK(r2[i] == ref[i], "flatten of an rvalue concatenates in order");
  psym_cover("end");
}
ENTRY(flatten_long) {
  size_t a = choose("a", 0, 13), b = choose("b", 0, 3);
  sequence<sequence<u>> ss;
  ss.push_back(vals(b)); ss.push_back(vals(a)); ss.push_back(sequence<u>()); ss.push_back(vals(b)); ss.push_back(vals(1));
  std::vector<u> ref;
  for (auto& s : ss) for (u x : s) ref.push_back(x);
  auto r = parlay::flatten(ss);
  auto dr = parlay::flatten(parlay::delayed_tabulate(ss.size(), [&](size_t i) { return ss[i]; }));
  CHECK(r.size() == ref.size() && dr.size() == ref.size(), "flatten has every element");
  for (size_t i = 0; i < ref.size(); i++) CHECK(r[i] == ref[i] && dr[i] == ref[i], "flatten concatenates in order");
  psym_cover("end");
}
ENTRY(flatten_owning) {
  size_t m = choose("m", 0, P("M", 3));
  HeapBalance hb;
  {
    std::vector<unsigned> ref;
    sequence<sequence<Tracked>> ss(m);
    for (size_t i = 0; i < m; i++) { size_t k = choose("k", 0, P("K", 3)); for (size_t j = 0; j < k; j++) { unsigned v = (unsigned)psym_u64("v", 32); ss[i].push_back(Tracked(v)); ref.push_back(v); } }
    auto r = parlay::flatten(ss);
    CHECK(r.size() == ref.size(), "flatten has every element");
    for (size_t i = 0; i < ref.size(); i++) CHECK(r[i].get() == ref[i], "flatten concatenates in order");
    auto r2 = parlay::flatten(std::move(ss));
    CHECK(r2.size() == ref.size(), "flatten of an rvalue has every element");
    for (size_t i = 0; i < ref.size(); i++) CHECK(r2[i].get() == ref[i], "flatten of an rvalue concatenates in order");
  }
  psym_cover("end");
}
ENTRY(append_two) {
  size_t a = choose("a", 0, P("N", 9)), b = choose("b", 0, P("N", 9));
  auto x = vals(a), y = vals(b);
  auto r = parlay::append(x, y);
  CHECK(r.size() == a + b, "append has every element");
  for (size_t i = 0; i < a + b; i++) CHECK(r[i] == (i < a ? x[i] : y[i - a]), "append concatenates in order");
  sequence<u> out(a + 1, 3u);
  parlay::copy(x, out);
  for (size_t i = 0; i < a; i++) CHECK(out[i] == x[i], "copy");
  CHECK(out[a] == 3u, "copy writes nothing beyond the input length");
  psym_cover("end");
}
ENTRY(map_tabulate) {
  size_t n = choose("n", 0, P("N", 20));
  auto s = vals(n);
  auto m = parlay::map(s, [](u x) { return x + 1; });
  auto t = parlay::tabulate(n, [&](size_t i) { return (uint64_t)s[i] + i; });
  auto io = parlay::iota<u>(n);
  auto d = parlay::delayed_map(s, [](u x) { return x * 2; });
  auto z = parlay::zip(s, m);
  auto to = parlay::to_sequence(d);
  CHECK(m.size() == n && t.size() == n && io.size() == n && d.size() == n && to.size() == n, "sizes");
  for (size_t i = 0; i < n; i++) {
    CHECK(m[i] == s[i] + 1, "map"); CHECK(t[i] == (uint64_t)s[i] + i, "tabulate"); CHECK(io[i] == i, "iota");
    CHECK(d[i] == s[i] * 2 && to[i] == d[i], "delayed_map");
    CHECK(std::get<0>(z[i]) == s[i] && std::get<1>(z[i]) == m[i], "zip");
  }
  psym_cover("end");
}
