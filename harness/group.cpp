// Grouping and reducing by key or by index, histograms, duplicate removal.
#include "common.h"
#include <parlay/primitives.h>
#include <parlay/sequence.h>
using parlay::sequence;
typedef uint32_t u;
typedef std::pair<u, u> KV;
// any hash function on 2-bit (or KB-bit) keys: one symbolic word per key
struct AnyHash {
  sequence<size_t> h;
  AnyHash() : h((size_t)1 << P("KB", 2)) { for (auto& x : h) x = psym_u64("h", P("HB", 3)); }
  size_t operator()(u k) const { return h[k]; }
};
static sequence<KV> pairs(size_t n, u m = 0, bool lim = false) {
  sequence<KV> s(n);
  for (size_t i = 0; i < n; i++) { u k = (u)psym_u64("k", P("KB", 2)); if (lim) psym_assume(k < m); s[i] = KV(k, 1u << i); }
  return s;
}
template <typename S> static u orOf(const S& s, u k) { u r = 0; for (auto& x : s) r += x.first == k ? x.second : 0; return r; }
template <typename S> static size_t distinct(const S& s) {
  size_t c = 0;
  for (size_t i = 0; i < s.size(); i++) { bool dup = false; for (size_t j = 0; j < i; j++) dup |= s[j].first == s[i].first; c += !dup; }
  return c;
}
ENTRY(group_ordered) {
  size_t n = choose("n", P("LO", 0), P("N", 5));
  auto s = pairs(n);
  HeapBalance hb;
  {
    auto r = P("SAMPLE", 0) ? parlay::group_by_key_ordered(s, [](u a, u b) { return a > b; }) : parlay::group_by_key_ordered(s);
    CHECK(r.size() == distinct(s), "one group per distinct key");
    for (size_t i = 0; i < r.size(); i++) {
      u k = r[i].first, sum = 0;
      if (i && !P("SAMPLE", 0)) CHECK(r[i - 1].first < k, "groups are ordered by key");
      for (size_t j = 0; j < r[i].second.size(); j++) { sum += r[i].second[j]; if (j) CHECK(r[i].second[j - 1] < r[i].second[j], "values of a group keep their order"); }
      CHECK(sum == orOf(s, k), "a group holds exactly the values of its key");
    }
  }
  psym_cover("end");
}
// comparator-based variant: keys wider than the integer-sort path accepts
struct BigKey { u k; u pad[5]; friend bool operator<(const BigKey& a, const BigKey& b) { return a.k < b.k; } };
ENTRY(group_ordered_cmp) {
  size_t n = choose("n", P("LO", 0), P("N", 5));
  auto s = pairs(n);
  auto t = parlay::map(s, [](const KV& x) { return std::pair<BigKey, u>(BigKey{x.first, {}}, x.second); });
  auto r = parlay::group_by_key_ordered(t);
  CHECK(r.size() == distinct(s), "one group per distinct key");
  for (size_t i = 0; i < r.size(); i++) {
    u k = r[i].first.k, sum = 0;
    if (i) CHECK(r[i - 1].first.k < k, "groups are ordered by key");
    for (size_t j = 0; j < r[i].second.size(); j++) { sum += r[i].second[j]; if (j) CHECK(r[i].second[j - 1] < r[i].second[j], "values of a group keep their order"); }
    CHECK(sum == orOf(s, k), "a group holds exactly the values of its key");
  }
  psym_cover("end");
}
ENTRY(group_by_any_hash) {
  size_t n = choose("n", P("LO", 0), P("N", 4));
  auto s = pairs(n);
  AnyHash h;
  auto r = parlay::group_by_key(s, h);
  CHECK(r.size() == distinct(s), "one group per distinct key");
  for (size_t i = 0; i < r.size(); i++) {
    u k = r[i].first, sum = 0;
    for (size_t j = 0; j < i; j++) CHECK(r[j].first != k, "keys are distinct");
    for (u v : r[i].second) sum += v;
    CHECK(sum == orOf(s, k) && sum != 0, "a group holds exactly the values of its key");
  }
  psym_cover("end");
}
ENTRY(reduce_by_any_hash) {
  size_t n = choose("n", P("LO", 0), P("N", 4));
  auto s = pairs(n);
  AnyHash h;
  auto r = parlay::reduce_by_key(s, parlay::plus<u>(), h);
  CHECK(r.size() == distinct(s), "one result per distinct key");
  for (size_t i = 0; i < r.size(); i++) {
    u k = r[i].first;
    for (size_t j = 0; j < i; j++) CHECK(r[j].first != k, "keys are distinct");
    CHECK(r[i].second == orOf(s, k) && r[i].second != 0, "the values of a key are combined once each");
  }
  psym_cover("end");
}
ENTRY(histogram_any_hash) {
  size_t n = choose("n", P("LO", 0), P("N", 4));
  sequence<u> s(n);
  for (auto& x : s) x = (u)psym_u64("k", P("KB", 2));
  AnyHash h;
  auto r = parlay::histogram_by_key(s, h);
  auto d = parlay::remove_duplicates(s, h);
  size_t tot = 0;
  for (size_t i = 0; i < r.size(); i++) {
    size_t c = 0;
    for (u x : s) c += x == r[i].first;
    CHECK(r[i].second == c && c > 0, "count of each key");
    tot += c;
    for (size_t j = 0; j < i; j++) CHECK(r[j].first != r[i].first, "keys are distinct");
  }
  CHECK(tot == n, "every element is counted");
  CHECK(d.size() == r.size(), "remove_duplicates keeps one element per value");
  for (size_t i = 0; i < d.size(); i++) {
    bool in = false;
    for (u x : s) in |= x == d[i];
    CHECK(in, "only input elements");
    for (size_t j = 0; j < i; j++) CHECK(d[j] != d[i], "no duplicates");
  }
  psym_cover("end");
}
ENTRY(default_hash) {       // the library's own hash functions
  size_t n = choose("n", P("LO", 0), P("N", 4));
  auto s = pairs(n);
  auto r = parlay::reduce_by_key(s);
  CHECK(r.size() == distinct(s), "one result per distinct key");
  for (size_t i = 0; i < r.size(); i++) CHECK(r[i].second == orOf(s, r[i].first) && r[i].second != 0, "the values of a key are combined once each");
  psym_cover("end");
}
struct TrackedHash { size_t operator()(const Tracked& t) const { return t.get() * 3; } };
ENTRY(owning_by_key) {      // element lifetimes, for lvalue and rvalue arguments
  size_t n = choose("n", P("LO", 0), P("N", 3)), op = choose("op", 0, 5);
  HeapBalance hb;
  {
    auto mk = [&]() {
      return parlay::tabulate(n, [](size_t i) { return std::pair<Tracked, Tracked>(Tracked(), Tracked(1u << i)); });
    };
    sequence<u> ks(n);
    for (auto& k : ks) k = (u)psym_u64("k", P("KB", 1));
    auto s = mk();
    for (size_t i = 0; i < n; i++) s[i].first = Tracked(ks[i]);
    auto total = [&](u k) { u t = 0; for (size_t i = 0; i < n; i++) if (ks[i] == k) t += 1u << i; return t; };
    auto add = parlay::make_monoid([](const Tracked& a, const Tracked& b) { return Tracked(a.get() + b.get()); }, Tracked(0));
    if (op == 0 || op == 1) {
      auto r = op == 0 ? parlay::group_by_key(s, TrackedHash()) : parlay::group_by_key(std::move(s), TrackedHash());
      u all = 0;
      for (auto& g : r) { u t = 0; for (auto& v : g.second) t += v.get(); CHECK(t == total(g.first.get()), "values of the group"); all += t; }
      CHECK(all == (1u << n) - 1, "every value is in one group");
    } else if (op == 2 || op == 3) {
      auto r = op == 2 ? parlay::reduce_by_key(s, add, TrackedHash()) : parlay::reduce_by_key(std::move(s), add, TrackedHash());
      u all = 0;
      for (auto& g : r) { CHECK(g.second.get() == total(g.first.get()), "combined value"); all += g.second.get(); }
      CHECK(all == (1u << n) - 1, "every value is combined");
    } else if (op == 4) {
      auto r = parlay::group_by_key_ordered(s, [](const Tracked& a, const Tracked& b) { return a.get() < b.get(); });
      u all = 0;
      for (auto& g : r) { u t = 0; for (auto& v : g.second) t += v.get(); CHECK(t == total(g.first.get()), "values of the group"); all += t; }
      CHECK(all == (1u << n) - 1, "every value is in one group");
    } else {
      auto keys = parlay::map(s, [](auto& p) { return p.first; });
      auto d = P("RV", 0) ? parlay::remove_duplicates(std::move(keys), TrackedHash()) : parlay::remove_duplicates(keys, TrackedHash());
      auto c = parlay::histogram_by_key(keys.size() ? keys : d, TrackedHash());
      CHECK(c.size() == d.size(), "one entry per distinct value");
      for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < i; j++) CHECK(d[i].get() != d[j].get(), "no duplicates");
    }
  }
  psym_cover("end");
}
ENTRY(by_index) {
  size_t n = choose("n", P("LO", 0), P("N", 5)), m = choose("m", P("MLO", 1), P("M", 4));
  auto s = pairs(n, (u)m, true);
  auto r = parlay::reduce_by_index(s, m);
  CHECK(r.size() == m, "one result per index");
  for (size_t b = 0; b < m; b++) CHECK(r[b] == orOf(s, (u)b), "values of the index are combined once each");
  auto ks = parlay::map(s, [](const KV& x) { return x.first; });
  auto h = parlay::histogram_by_index(ks, m);
  CHECK(h.size() == m, "one count per index");
  for (size_t b = 0; b < m; b++) { size_t c = 0; for (u k : ks) c += k == b; CHECK(h[b] == c, "count of each index"); }
  auto d = parlay::remove_duplicate_integers(ks, (u)m);
  size_t c = 0;
  for (size_t b = 0; b < m; b++) c += h[b] != 0;
  CHECK(d.size() == c, "one element per distinct integer");
  for (size_t i = 0; i < d.size(); i++) { CHECK(h[d[i]] != 0, "an element of the input"); if (i) CHECK(d[i - 1] < d[i], "distinct, increasing"); }
  psym_cover("end");
}
ENTRY(group_index) {
  size_t n = choose("n", P("LO", 0), P("N", 5)), m = choose("m", P("MLO", 1), P("M", 4));
  auto s = pairs(n, (u)m, true);
  auto check = [&](auto&& g) {
    CHECK(g.size() == m, "one group per index");
    for (size_t b = 0; b < m; b++) {
      u t = 0;
      for (size_t j = 0; j < g[b].size(); j++) { t += g[b][j]; if (j) CHECK(g[b][j - 1] < g[b][j], "values of a group keep their order"); }
      CHECK(t == orOf(s, (u)b), "values of the group");
    }
  };
  check(parlay::group_by_index(s, m));
  psym_cover("end");
}
// more elements than the integer type of the bucket count can number
ENTRY(group_index_small_type) {
  size_t n = P("N", 300);
  uint8_t m = (uint8_t)P("M", 20);
  u k0 = (u)(u)psym_u64("k", 1);
  auto s = parlay::tabulate(n, [&](size_t i) { return KV(i == 7 ? k0 : (u)(i * 7 % 20), (u)i); });
  auto g = parlay::group_by_index(s, m);
  CHECK(g.size() == m, "one group per index");
  size_t tot = 0;
  for (size_t b = 0; b < m; b++) { tot += g[b].size(); for (u v : g[b]) CHECK(s[v].first == b, "values of the group"); }
  CHECK(tot == n, "every value is in one group");
  psym_cover("end");
}
// keys frequent enough to get their own bucket
ENTRY(heavy) {
  size_t n = choose("n", P("LO", 7), P("N", 7)), which = choose("which", 0, 3), m = P("M", 40);
  sequence<KV> s(n);
  for (size_t i = 0; i < n; i++) s[i] = KV((u)psym_u64("k", P("KB", 1)), 1u << i);
  if (which == 0) {
    auto r = parlay::reduce_by_index(s, m);
    for (size_t b = 0; b < m; b++) CHECK(r[b] == orOf(s, (u)b), "values of the index are combined once each");
  } else if (which == 1) {
    auto ks = parlay::map(s, [](const KV& x) { return x.first; });
    auto h = parlay::histogram_by_index(ks, m);
    for (size_t b = 0; b < m; b++) { size_t c = 0; for (u k : ks) c += k == b; CHECK(h[b] == c, "count of each index"); }
  } else if (which == 2) {
    AnyHash h;
    auto r = parlay::reduce_by_key(s, parlay::plus<u>(), h);
    CHECK(r.size() == distinct(s), "one result per distinct key");
    for (size_t i = 0; i < r.size(); i++) CHECK(r[i].second == orOf(s, r[i].first) && r[i].second != 0, "the values of a key are combined once each");
  } else {
    AnyHash h;
    auto r = parlay::group_by_key(s, h);
    CHECK(r.size() == distinct(s), "one group per distinct key");
    for (auto& g : r) { u t = 0; for (u v : g.second) t += v; CHECK(t == orOf(s, g.first) && t, "values of the group"); }
  }
  psym_cover("end");
}
ENTRY(duplicates_ordered) {
  size_t n = choose("n", 0, P("N", 5));
  sequence<u> s(n);
  for (auto& x : s) x = (u)psym_u64("k", P("KB", 2));
  auto d = parlay::remove_duplicates_ordered(s);
  for (size_t i = 1; i < d.size(); i++) CHECK(d[i - 1] < d[i], "increasing, no duplicates");
  for (u x : s) { bool in = false; for (u y : d) in |= x == y; CHECK(in, "every value survives"); }
  for (u y : d) { bool in = false; for (u x : s) in |= x == y; CHECK(in, "only input values"); }
  psym_cover("end");
}
