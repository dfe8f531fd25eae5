// Delayed sequences: every consumer sees what the eager operation would produce.
#include "common.h"
#include <parlay/delayed.h>
#include <parlay/delayed_sequence.h>
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <optional>
#include <vector>
using parlay::sequence;
namespace d = parlay::delayed;
namespace in = parlay::internal::delayed;
typedef uint32_t u;
static sequence<u> vals(size_t n, unsigned bits = 8) { sequence<u> s(n); for (size_t i = 0; i < n; i++) s[i] = sym<u>("v", bits); return s; }
static size_t len(size_t dflt = 7) { return choose("n", P("LO", 0), P("N", dflt)); }
struct List { u a[40]; size_t n = 0; void add(u x) { if (n < 40) a[n] = x; n++; } };

// Every way of consuming a view of values.
template <typename V> static void blocks_and_iteration(V& v, const List& e, const char* what) {
  CHECK(parlay::size(v) == e.n, what);
  size_t k = 0;
  for (auto it = std::begin(v), last = std::end(v); it != last; ++it, ++k) { CHECK(k < e.n, "iteration yields too many elements"); CHECK((u)*it == e.a[k], what); }
  CHECK(k == e.n, "iteration yields all elements");
  size_t nb = in::num_blocks(v); k = 0;
  for (size_t b = 0; b < nb; b++)
    for (auto it = in::begin_block(v, b), last = in::end_block(v, b); it != last; ++it, ++k) { CHECK(k < e.n, "blocks yield too many elements"); CHECK((u)*it == e.a[k], what); }
  CHECK(k == e.n, "the blocks cover all elements");
}
struct Xor { u identity = 0; u operator()(u a, u b) const { return a ^ b; } };
template <typename V> static void consume(V&& v, const List& e, const char* what) {
  blocks_and_iteration(v, e, what);
  auto s = d::to_sequence(v);
  CHECK(s.size() == e.n, "to_sequence has the right length");
  for (size_t i = 0; i < e.n && i < s.size(); i++) CHECK((u)s[i] == e.a[i], "to_sequence holds the right elements");
  u total = 0; for (size_t i = 0; i < e.n; i++) total ^= e.a[i];
  CHECK((u)d::reduce(v, Xor{}) == total, "reduce combines every element once");
}
template <typename V> static void consume_const(const V& v, const List& e, const char* what) { blocks_and_iteration(v, e, what); }
template <typename V> static void both(V& v, const List& e, const char* what) { consume(v, e, what); consume_const(v, e, what); }

static bool odd(u x) { return x & 1; }
static std::optional<u> half_odd(u x) { return (x & 1) ? std::optional<u>(x + 5) : std::nullopt; }
static u plus3(u x) { return x + 3; }

ENTRY(d_map) {
  size_t n = len(); auto s = vals(n);
  List e; for (size_t i = 0; i < n; i++) e.add(s[i] + 3);
  auto v = d::map(s, plus3); both(v, e, "delayed map");
  auto w = d::map(d::map(s, plus3), [](u x) { return x ^ 2; });
  List e2; for (size_t i = 0; i < n; i++) e2.add((s[i] + 3) ^ 2);
  both(w, e2, "map of map");
  auto t = d::tabulate(n, [&](size_t i) { return s[i]; });
  List e3; for (size_t i = 0; i < n; i++) e3.add(s[i]);
  both(t, e3, "delayed tabulate");
  psym_cover("end");
}
ENTRY(d_filter) {
  size_t n = len(8); auto s = vals(n);
  List e; for (size_t i = 0; i < n; i++) if (odd(s[i])) e.add(s[i]);
  auto v = d::filter(s, odd); both(v, e, "delayed filter");
  psym_cover("end");
}
ENTRY(d_filter_marks) {  // for_each / apply visit exactly the kept elements, by reference
  size_t n = len(8); auto s = vals(n, 4); auto s0 = s;
  d::for_each(d::filter(s, odd), [](u& x) { x += 64; });
  for (size_t i = 0; i < n; i++) CHECK(s[i] == (odd(s0[i]) ? s0[i] + 64 : s0[i]), "for_each visits exactly the kept elements once");
  d::apply(d::filter(s, [](u x) { return (x & 2) != 0; }), [](u& x) { x += 128; });
  for (size_t i = 0; i < n; i++) CHECK(s[i] == (odd(s0[i]) ? s0[i] + 64 : s0[i]) + ((s0[i] & 2) ? 128 : 0), "apply visits exactly the kept elements once");
  sequence<u> t(n, 0u);
  d::for_each(d::iota(n), [&](size_t i) { t[i]++; });
  for (size_t i = 0; i < n; i++) CHECK(t[i] == 1, "for_each over a random-access view");
  psym_cover("end");
}
ENTRY(d_filter_op) {
  size_t n = len(8); auto s = vals(n);
  List e; for (size_t i = 0; i < n; i++) if (odd(s[i])) e.add(s[i] + 5);
  auto v = d::filter_op(s, half_odd); both(v, e, "delayed filter_op");
  auto w = d::map_maybe(s, half_odd); consume(w, e, "delayed map_maybe");
  psym_cover("end");
}
ENTRY(d_scan) {
  size_t n = len(8);
  sequence<Word> s(n); for (auto& x : s) x = letter("l");
  auto m = parlay::make_monoid([](Word a, Word b) { return cat(a, b); }, Word{});
  auto [v, tot] = d::scan(s, CatMonoid{Word{}});
  auto incl = d::scan_inclusive(s, CatMonoid{Word{}});
  auto vs = d::to_sequence(v); auto is = d::to_sequence(incl);
  CHECK(vs.size() == n && is.size() == n && v.size() == n && incl.size() == n, "scan keeps the length");
  Word acc; size_t i = 0; auto it = v.begin(); auto jt = incl.begin();
  const auto& cv = v; auto ct = cv.begin();
  for (; i < n; i++, ++it, ++jt, ++ct) {
    CHECK(vs[i] == acc && *it == acc && *ct == acc, "exclusive scan");
    acc = cat(acc, s[i]);
    CHECK(is[i] == acc && *jt == acc, "inclusive scan");
  }
  CHECK(it == v.end() && jt == incl.end() && ct == cv.end(), "iteration ends after the last element");
  CHECK(tot == acc, "scan total");
  CHECK(d::reduce(d::map(v, [](Word w) { return (u)w.n; })) == (u)(n ? n * (n - 1) / 2 : 0), "reduce over a scan");
  psym_cover("end");
}
ENTRY(d_scan_plus) {
  size_t n = len(8); auto s = vals(n);
  auto [v, tot] = d::scan(s);
  auto w = d::scan_inclusive(s);
  List e, f; u a = 0; for (size_t i = 0; i < n; i++) { e.add(a); a += s[i]; f.add(a); }
  CHECK(tot == a, "scan total"); both(v, e, "delayed scan"); both(w, f, "delayed inclusive scan");
  auto x = d::scan_inclusive(d::filter(s, odd));
  List g; a = 0; for (size_t i = 0; i < n; i++) if (odd(s[i])) { a += s[i]; g.add(a); }
  consume(x, g, "inclusive scan of a filter");
  psym_cover("end");
}
template <typename F> static void shapes(F f) {  // inner lengths are chosen, values symbolic
  size_t m = choose("m", P("MLO", 0), P("M", 4));
  sequence<sequence<u>> ss(m);
  List e;
  for (size_t i = 0; i < m; i++) { size_t l = choose("l", 0, P("L", 4)); ss[i] = vals(l); for (u x : ss[i]) e.add(x); }
  f(ss, e);
}
ENTRY(d_flatten) {
  shapes([](sequence<sequence<u>>& ss, const List& e) { auto v = d::flatten(ss); both(v, e, "delayed flatten of references"); });
  psym_cover("end");
}
ENTRY(d_flatten_own) {
  shapes([](sequence<sequence<u>>& ss, const List& e) { auto v = d::flatten(sequence<sequence<u>>(ss)); both(v, e, "delayed flatten of an owned range"); });
  psym_cover("end");
}
ENTRY(d_flatten_temps) {
  shapes([](sequence<sequence<u>>& ss, const List& e) {
    auto v = d::flatten(d::tabulate(ss.size(), [&](size_t i) { return ss[i]; })); both(v, e, "delayed flatten of temporaries"); });
  psym_cover("end");
}
ENTRY(d_flatten_bid) {  // the outer range is itself only block-iterable
  size_t m = choose("m", 0, P("M", 7));
  sequence<sequence<u>> ss(m); List e;
  for (size_t i = 0; i < m; i++) {
    size_t l = choose("l", 0, P("L", 2)); bool keep = l < 2 || psym_u64("keep", 1);
    for (size_t j = 0; j < l; j++) ss[i].push_back((sym<u>("v", 7) << 1) | keep);
    if (l == 0) continue;
    if (keep) for (u x : ss[i]) e.add(x);
  }
  auto v = d::flatten(d::filter(ss, [](const sequence<u>& x) { return x.empty() || (x[0] & 1); }));
  both(v, e, "delayed flatten of a filtered range");
  psym_cover("end");
}
ENTRY(d_zip) {
  size_t n = len(6), m = choose("m", 0, P("M", 6)); auto s = vals(n), t = vals(m);
  List e; { size_t j = 0; for (size_t i = 0; i < n; i++) if (odd(s[i])) { if (j < m) e.add((s[i] << 8 | t[j])); j++; } }
  auto z = d::zip(d::filter(s, odd), t);
  CHECK(z.size() == e.n, "zip has the length of the shorter range");
  auto mz = d::map(z, [](auto&& p) { return std::get<0>(p) << 8 | std::get<1>(p); });
  consume(mz, e, "zip of a filter");
  auto zw = d::zip_with([](u a, u b) { return a << 8 | b; }, d::filter(s, odd), t);
  consume(zw, e, "zip_with");
  List f; for (size_t i = 0; i < (n < m ? n : m); i++) f.add((s[i] << 9) | t[i]);
  auto ra = d::zip_with([](u a, u b) { return a << 9 | b; }, s, t);
  both(ra, f, "zip_with of random-access ranges");
  psym_cover("end");
}
ENTRY(d_views) {
  size_t n = len(7); auto s = vals(n);
  auto ps = parlay::tabulate(n, [&](size_t i) { return std::make_pair(s[i], (u)i); });
  List k, w; for (size_t i = 0; i < n; i++) { k.add(s[i]); w.add(i); }
  consume(d::keys_view(ps), k, "keys_view"); consume(d::values_view(ps), w, "values_view");
  List fk, fi; for (size_t i = 0; i < n; i++) if (odd(s[i])) { fk.add(s[i]); fi.add(i); }
  consume(d::keys_view(d::filter(ps, [](auto p) { return odd(p.first); })), fk, "keys_view of a filter");
  auto en = d::enumerate(s);
  auto fen = d::filter(en, [](auto&& p) { return odd(std::get<1>(p)); });
  consume(d::map(fen, [](auto&& p) { return (u)std::get<0>(p); }), fi, "enumerate gives positions");
  List ei; { u c = 0; for (size_t i = 0; i < n; i++) if (odd(s[i])) ei.add(c++ << 8 | s[i]); }
  consume(d::map(d::enumerate(d::filter(s, odd)), [](auto&& p) { return (u)std::get<0>(p) << 8 | std::get<1>(p); }), ei, "enumerate of a filter");
  psym_cover("end");
}
ENTRY(d_compose) {
  size_t n = len(7); auto s = vals(n);
  // map o filter o scan
  { u a = 0; List e; for (size_t i = 0; i < n; i++) { a += s[i]; if (odd(a)) e.add(a ^ 3); }
    consume(d::map(d::filter(d::scan_inclusive(s), odd), [](u x) { return x ^ 3; }), e, "map of filter of scan"); }
  // filter o filter
  { List e; for (size_t i = 0; i < n; i++) if (odd(s[i]) && (s[i] & 2)) e.add(s[i]);
    consume(d::filter(d::filter(s, odd), [](u x) { return (x & 2) != 0; }), e, "filter of filter"); }
  // filter_op o map
  { List e; for (size_t i = 0; i < n; i++) if (odd(s[i] + 3)) e.add(s[i] + 8);
    consume(d::filter_op(d::map(s, plus3), half_odd), e, "filter_op of map"); }
  // scan o flatten
  { List e; u a = 0; sequence<sequence<u>> ss(2); for (size_t i = 0; i < n; i++) ss[i < n / 2 ? 0 : 1].push_back(s[i]);
    for (size_t i = 0; i < n; i++) { a += s[i]; e.add(a); }
    consume(d::scan_inclusive(d::flatten(ss)), e, "scan of flatten"); }
  psym_cover("end");
}
// Copied, moved and assigned views, whose base ranges are temporaries they own.
template <typename Make> static void carry(Make make, const List& e, const List& e2, const char* what) {
  auto v = make(0);
  auto c = v; both(c, e, what); both(v, e, what);
  auto m = std::move(v); both(m, e, what);
  { auto w = make(1); w = m; both(w, e, what); both(m, e, what); auto w2 = make(1); m = std::move(w2); both(m, e2, what); both(w, e, what); }
  both(m, e2, what);
  { std::vector<decltype(make(0))> vec; vec.reserve(1); vec.push_back(std::move(c)); vec.push_back(make(1)); both(vec[0], e, what); both(vec[1], e2, what); }
}
#define CARRY(name, N0, expr, keepstmt)                                        \
  ENTRY(name) {                                                                \
    HeapBalance hb;                                                            \
    size_t n = len(N0), n2 = choose("n2", 0, P("N2", 2)); auto s = vals(n), s2 = vals(n2); \
    List e, e2;                                                                \
    { auto& S = s; auto& E = e; keepstmt; } { auto& S = s2; auto& E = e2; keepstmt; } \
    carry([&](int k) { sequence<u> S = k ? s2 : s; return expr; }, e, e2, #name); \
    psym_cover("end");                                                         \
  }
CARRY(d_carry_filter, 4, d::filter(std::move(S), odd), for (u x : S) if (odd(x)) E.add(x))
CARRY(d_carry_filter_view, 4, d::filter(d::map(std::move(S), plus3), odd), for (u x : S) if (odd(x + 3)) E.add(x + 3))
CARRY(d_carry_filter_iota, 4, d::filter(d::iota((u)S.size()), odd), for (size_t i = 0; i < S.size(); i++) if (odd(i)) E.add(i))
CARRY(d_carry_filter_op, 4, d::filter_op(std::move(S), half_odd), for (u x : S) if (odd(x)) E.add(x + 5))
CARRY(d_carry_map, 4, d::map(d::filter(std::move(S), odd), plus3), for (u x : S) if (odd(x)) E.add(x + 3))
CARRY(d_carry_ramap, 4, d::map(std::move(S), plus3), for (u x : S) E.add(x + 3))
CARRY(d_carry_scan, 4, d::scan_inclusive(std::move(S)), { u a = 0; for (u x : S) { a += x; E.add(a); } })
CARRY(d_carry_scan_view, 4, d::scan(d::map(std::move(S), plus3)).first, { u a = 0; for (u x : S) { E.add(a); a += x + 3; } })
CARRY(d_carry_zip, 4, d::map(d::zip(d::filter(std::move(S), odd), d::iota((u)8)), [](auto&& p) { return std::get<0>(p) << 8 | std::get<1>(p); }), { u a = 0; for (u x : S) if (odd(x)) E.add(x << 8 | a++); })
static sequence<sequence<u>> split2(const sequence<u>& s) { sequence<sequence<u>> r(2); for (size_t i = 0; i < s.size(); i++) r[i & 1].push_back(s[i]); return r; }
CARRY(d_carry_flatten, 4, d::flatten(split2(S)), { for (size_t i = 0; i < S.size(); i += 2) E.add(S[i]); for (size_t i = 1; i < S.size(); i += 2) E.add(S[i]); })
CARRY(d_carry_flatten_temps, 4, d::flatten(d::tabulate(2, [ss = split2(S)](size_t i) { return ss[i]; })), { for (size_t i = 0; i < S.size(); i += 2) E.add(S[i]); for (size_t i = 1; i < S.size(); i += 2) E.add(S[i]); })
CARRY(d_carry_flatten_array, 4, d::flatten(std::array<sequence<u>, 2>{split2(S)[0], split2(S)[1]}), { for (size_t i = 0; i < S.size(); i += 2) E.add(S[i]); for (size_t i = 1; i < S.size(); i += 2) E.add(S[i]); })
// Assigning views of other ranges leaves those ranges alone.
ENTRY(d_assign_refs) {
  HeapBalance hb;
  size_t n = len(4), n2 = choose("n2", 0, 3); auto s = vals(n), s2 = vals(n2); auto k = s, k2 = s2;
  List e, e2; for (u x : s) if (odd(x)) e.add(x); for (u x : s2) if (odd(x)) e2.add(x);
  auto v = d::filter(s, odd), w = d::filter(s2, odd);
  v = w; both(v, e2, "assigned filter"); both(w, e2, "filter assigned from");
  CHECK(s == k && s2 == k2, "assigning a filter view must not change the ranges");
  w = d::filter(s, odd); both(w, e, "assigned filter"); both(v, e2, "other filter");
  using std::swap; swap(v, w); both(v, e, "swapped filter"); both(w, e2, "swapped filter");
  CHECK(s == k && s2 == k2, "swapping filter views must not change the ranges");
  auto ss = split2(s), ss2 = split2(s2); auto kk = ss, kk2 = ss2;
  List f, f2; for (auto& x : ss) for (u y : x) f.add(y); for (auto& x : ss2) for (u y : x) f2.add(y);
  auto a = d::flatten(ss), b = d::flatten(ss2);
  a = b; both(a, f2, "assigned flatten"); b = d::flatten(ss); both(b, f, "assigned flatten");
  CHECK(ss == kk && ss2 == kk2, "assigning a flatten view must not change the ranges");
  psym_cover("end");
}
// Views returned by value from functions that composed them.
ENTRY(d_returned) {
  HeapBalance hb;
  size_t n = len(5); auto s = vals(n);
  List e; for (u x : s) if (odd(x + 3)) e.add((x + 3) ^ 6);
  auto make = [&](u k) { return d::map(d::filter(d::map(s, [k](u x) { return x + k; }), odd), [k](u x) { return x ^ (2 * k); }); };
  auto v = make(3); both(v, e, "map of filter of map, returned");
  auto p = std::make_pair(make(3), 1); both(p.first, e, "moved into a pair");
  List g; { u c = 0; for (u x : s) if (odd(x + 3)) { g.add(c); c += x + 3; } }
  auto scanned = [&](u k) { return d::scan(d::filter(d::map(s, [k](u x) { return x + k; }), odd)); };
  auto q = scanned(3); both(q.first, g, "scan of a filter, returned");
  parlay::sequence<char> cs(n); for (size_t i = 0; i < n; i++) cs[i] = (char)(s[i] & 127);
  List h; for (char c : cs) if (odd((u)c)) h.add((u)c);
  auto chars = [&] { return d::map(d::filter(parlay::sequence<char>(cs), [](char c) { return (c & 1) != 0; }), [](char c) { return (u)c; }); };
  auto cv = chars(); both(cv, h, "filter of owned characters, returned");
  psym_cover("end");
}
