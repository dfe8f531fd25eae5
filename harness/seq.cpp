// C11, C12, C13: sequences against a model vector, for every operation from every small state.
#include "common.h"
#include <parlay/sequence.h>
#include <parlay/primitives.h>
#include <forward_list>
using parlay::sequence; using parlay::short_sequence;
typedef unsigned u;
template <typename T> struct El { static T mk(u v) { return T(v); } static u val(const T& x) { return (u)x; } };
template <> struct El<Tracked> { static Tracked mk(u v) { return Tracked(v); } static u val(const Tracked& x) { return x.get(); } };
template <> struct El<char> { static char mk(u v) { return (char)v; } static u val(const char& x) { return (u)(unsigned char)x; } };
static u fresh() { return (u)psym_u64("v", 8); }
struct Model {
  u v[64]; size_t n = 0;
  void ins(size_t p, size_t k, const u* x) { for (size_t i = n; i-- > p;) v[i + k] = v[i]; for (size_t i = 0; i < k; i++) v[p + i] = x[i]; n += k; }
  void del(size_t p, size_t k) { for (size_t i = p + k; i < n; i++) v[i - k] = v[i]; n -= k; }
};
template <typename S> void same(const S& s, const Model& m) {
  typedef El<typename S::value_type> L;
  CHECK(s.size() == m.n && s.empty() == (m.n == 0), "size");
  CHECK(s.capacity() >= s.size(), "capacity is at least the size");
  CHECK(s.end() - s.begin() == (std::ptrdiff_t)m.n && s.cend() - s.cbegin() == (std::ptrdiff_t)m.n, "iterator distance");
  size_t k = 0; for (auto& x : s) { CHECK(L::val(x) == m.v[k], "iteration visits the elements in order"); k++; }
  for (size_t i = 0; i < m.n; i++) CHECK(L::val(s[i]) == m.v[i] && L::val(s.at(i)) == m.v[i] && L::val(s.data()[i]) == m.v[i], "indexed access");
  if (m.n) CHECK(L::val(s.front()) == m.v[0] && L::val(s.back()) == m.v[m.n - 1], "front and back");
}
template <typename S> S build(Model& m, size_t n) {
  typedef typename S::value_type T; typedef El<T> L;
  for (size_t i = 0; i < n; i++) m.v[i] = fresh();
  m.n = n;
  return S::from_function(n, [&](size_t i) { return L::mk(m.v[i]); });
}
// a range that is only an input / a forward range
template <typename T, typename Cat> struct It {
  typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  const T* p = nullptr;
  const T& operator*() const { return *p; } It& operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; }
  friend bool operator==(const It& a, const It& b) { return a.p == b.p; } friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
};
// one operation on (s, m); every position and small count
template <typename S> void step(S& s, Model& m, size_t lo, size_t hi, size_t maxn) {
  typedef typename S::value_type T; typedef El<T> L; typedef typename S::iterator I;
  size_t op = choose("op", lo, hi);
  u x[8]; I r; size_t p = 0, k = 0; alignas(T) unsigned char buf[4 * sizeof(T)];
  auto some = [&](size_t mx) { k = choose("k", 0, mx); for (size_t i = 0; i < k; i++) x[i] = fresh(); };
  auto range = [&]() { some(3); T* a = (T*)buf; for (size_t i = 0; i < k; i++) new (a + i) T(L::mk(x[i])); return a; };
  auto drop = [&](T* a) { for (size_t i = 0; i < k; i++) a[i].~T(); };
  auto pos = [&]() { p = choose("p", 0, m.n); };
  auto at = [&](I it, size_t want) { CHECK(it - s.begin() == (std::ptrdiff_t)want, "the returned iterator denotes the first inserted element (or the element after the erased ones)"); };
  switch (op) {
    case 0: { u v = fresh(); T e = L::mk(v); r = s.push_back(e); CHECK(L::val(e) == v, "the argument is not changed"); at(r, m.n); m.ins(m.n, 1, &v); } break;
    case 1: { u v = fresh(); r = s.push_back(L::mk(v)); at(r, m.n); m.ins(m.n, 1, &v); } break;
    case 2: { u v = fresh(); r = s.emplace_back(L::mk(v)); at(r, m.n); m.ins(m.n, 1, &v); } break;
    case 3: if (m.n) { s.pop_back(); m.n--; } break;
    case 4: { pos(); u v = fresh(); T e = L::mk(v); r = s.insert(s.begin() + p, e); at(r, p); m.ins(p, 1, &v); } break;
    case 5: { pos(); u v = fresh(); r = s.insert(s.begin() + p, L::mk(v)); at(r, p); m.ins(p, 1, &v); } break;
    case 6: { pos(); u v = fresh(); r = s.emplace(s.begin() + p, L::mk(v)); at(r, p); m.ins(p, 1, &v); } break;
    case 7: { pos(); k = choose("k", 0, 3); x[0] = fresh(); for (size_t i = 1; i < k; i++) x[i] = x[0]; T e = L::mk(x[0]); r = s.insert(s.begin() + p, k, e); at(r, p); m.ins(p, k, x); } break;
    case 8: { pos(); T* a = range(); r = s.insert(s.begin() + p, a, a + k); at(r, p); drop(a); m.ins(p, k, x); } break;
    case 9: { pos(); some(3); S o = S::from_function(k, [&](size_t i) { return L::mk(x[i]); }); r = s.insert(s.begin() + p, o); at(r, p); CHECK(o.size() == k, "the inserted range is left alone"); m.ins(p, k, x); } break;
    case 10: { pos(); some(5); S o = S::from_function(k, [&](size_t i) { return L::mk(x[i]); }); r = s.insert(s.begin() + p, std::move(o)); at(r, p); m.ins(p, k, x); } break;
    case 11: { pos(); x[0] = fresh(); x[1] = fresh(); r = s.insert(s.begin() + p, {L::mk(x[0]), L::mk(x[1])}); at(r, p); m.ins(p, 2, x); } break;
    case 12: { pos(); T* a = range(); typedef It<T, std::forward_iterator_tag> F; r = s.insert(s.begin() + p, F{a}, F{a + k}); at(r, p); drop(a); m.ins(p, k, x); } break;
    case 13: { pos(); T* a = range(); typedef It<T, std::input_iterator_tag> F; r = s.insert(s.begin() + p, F{a}, F{a + k}); at(r, p); drop(a); m.ins(p, k, x); } break;
    case 14: if (m.n) { p = choose("p", 0, m.n - 1); r = s.erase(s.begin() + p); at(r, p); m.del(p, 1); } break;
    case 15: { pos(); size_t q = choose("q", p, m.n); r = s.erase(s.begin() + p, s.begin() + q); at(r, p); m.del(p, q - p); } break;
    case 16: { size_t n = choose("n", 0, maxn); s.resize(n); while (m.n < n) m.v[m.n++] = 0; m.n = n; } break;
    case 17: { size_t n = choose("n", 0, maxn); u v = fresh(); T e = L::mk(v); s.resize(n, e); while (m.n < n) m.v[m.n++] = v; m.n = n; } break;
    case 18: s.clear(); m.n = 0; break;
    case 19: { size_t n = choose("n", 0, maxn); u v = fresh(); T e = L::mk(v); s.assign(n, e); m.n = 0; while (m.n < n) m.v[m.n++] = v; } break;
    case 20: { T* a = range(); s.assign(a, a + k); drop(a); m.n = 0; m.ins(0, k, x); } break;
    case 21: { some(5); S o = S::from_function(k, [&](size_t i) { return L::mk(x[i]); }); s.assign(std::move(o)); m.n = 0; m.ins(0, k, x); } break;
    case 22: { k = choose("k", 0, 3); x[0] = fresh(); for (size_t i = 1; i < k; i++) x[i] = x[0]; T e = L::mk(x[0]); r = s.append(k, e); at(r, m.n); m.ins(m.n, k, x); } break;
    case 23: { T* a = range(); r = s.append(a, a + k); at(r, m.n); drop(a); m.ins(m.n, k, x); } break;
    case 24: { some(5); S o = S::from_function(k, [&](size_t i) { return L::mk(x[i]); }); r = s.append(o); at(r, m.n); CHECK(o.size() == k, "the appended range is left alone"); m.ins(m.n, k, x); } break;
    case 25: { some(5); S o = S::from_function(k, [&](size_t i) { return L::mk(x[i]); }); r = s.append(std::move(o)); at(r, m.n); m.ins(m.n, k, x); CHECK(o.empty(), "the appended sequence has given up its elements"); } break;
    case 26: { T* a = range(); typedef It<T, std::input_iterator_tag> F; r = s.append(F{a}, F{a + k}); at(r, m.n); drop(a); m.ins(m.n, k, x); } break;
    case 27: { T* a = range(); typedef It<T, std::forward_iterator_tag> F; r = s.append(F{a}, F{a + k}); at(r, m.n); drop(a); m.ins(m.n, k, x); } break;
    case 28: { Model o; S t = build<S>(o, choose("k", 0, 5)); s = t; same(t, o); m = o; } break;
    case 29: { Model o; S t = build<S>(o, choose("k", 0, 5)); s = std::move(t); m = o; t = s; same(t, m); } break;
    case 30: { Model o; S t = build<S>(o, choose("k", 0, 5)); if (psym_choose("how", 0, 1)) s.swap(t); else { using std::swap; swap(s, t); } same(t, m); m = o; } break;
    case 31: { S& t = s; s = t; } break;
    case 32: { S& t = s; s.swap(t); } break;
    case 33: { pos(); S t = s.pop_tail(s.begin() + p); Model o; for (size_t i = p; i < m.n; i++) o.v[o.n++] = m.v[i]; same(t, o); m.n = p; } break;
    case 34: { p = choose("p", 0, m.n); S t = s.pop_tail((size_t)p); Model o; for (size_t i = m.n - p; i < m.n; i++) o.v[o.n++] = m.v[i]; same(t, o); m.n -= p; } break;
    case 35: { size_t n = choose("n", 0, maxn); s.reserve(n); CHECK(s.capacity() >= n, "reserve"); } break;
    case 36: { x[0] = fresh(); x[1] = fresh(); s = {L::mk(x[0]), L::mk(x[1])}; m.n = 0; m.ins(0, 2, x); } break;
    case 37: { S t(s); same(t, m); same(s, m); S w(std::move(s)); same(w, m); CHECK(s.empty(), "a moved-from sequence is empty"); CHECK(t == w && !(t != w), "copies compare equal"); s = std::move(w); } break;
    case 38: { S t(s.begin(), s.end()); same(t, m); auto w = s.subseq(0, m.n); same(w, m); p = choose("p", 0, m.n); size_t q = choose("q", p, m.n); auto c = s.subseq(p, q); CHECK(c.size() == q - p, "subsequence"); for (size_t i = p; i < q; i++) CHECK(L::val(c[i - p]) == m.v[i], "subsequence elements"); } break;
    case 39: {
      p = choose("p", 0, m.n); auto h = s.head(p), t = s.tail(p), hh = s.head(s.begin() + p), tt = s.tail(s.begin() + p); auto c = s.cut(p, m.n);
      CHECK(h.size() == p && hh.size() == p && t.size() == p && tt.size() == m.n - p && c.size() == m.n - p, "sizes of slices");
      for (size_t i = 0; i < p; i++) CHECK(L::val(h[i]) == m.v[i] && &hh[i] == &s[i] && L::val(t[i]) == m.v[m.n - p + i], "slice elements");
      for (size_t i = p; i < m.n; i++) CHECK(&tt[i - p] == &s[i] && &c[i - p] == &s[i], "slice elements");
      k = m.n; for (auto it = s.rbegin(); it != s.rend(); ++it) { k--; CHECK(L::val(*it) == m.v[k], "reverse iteration"); }
      CHECK(k == 0, "reverse iteration visits every element");
    } break;
    case 40: { k = choose("k", 0, 1); size_t before = psym_heap_live(); CHECK(psym_throws([&]() { (void)L::val(s.at(m.n + k)); }), "access out of bounds is reported"); unwound() += psym_heap_live() - before; } break;
    case 41: { Model o; S t = build<S>(o, choose("k", 0, 6)); bool e = m.n == o.n; for (size_t i = 0; i < m.n && i < o.n; i++) e &= m.v[i] == o.v[i]; CHECK((s == t) == e && (s != t) == !e, "equality compares the elements"); } break;
  }
}
constexpr size_t OPS = 41;
template <typename S> void history(size_t maxsize) {
  HeapBalance hb;
  {
    Model m; size_t n = choose("size", P("SLO", 0), P("SIZE", maxsize));
    size_t st = choose("state", 0, P("STATES", 4));
    S s = build<S>(m, n);
    if (st == 1) { s.reserve(n + 1); }                                                   // room for one
    else if (st == 2) { s.reserve(n + 4); }                                              // room for more
    else if (st == 3) { s.push_back(El<typename S::value_type>::mk(1)); s.pop_back(); }     // grown and shrunk
    else if (st == 4) { S t = std::move(s); s = t; }                                     // copied into a moved-from sequence
    same(s, m);
    for (size_t i = 0; i < (size_t)P("LEN", 1); i++) { step(s, m, P("OPLO", 0), P("OPHI", OPS), maxsize + 3); same(s, m); }
  }
  psym_cover("end");
}
ENTRY(seq_int) { history<sequence<u>>(5); }
ENTRY(seq_tracked) { history<sequence<Tracked>>(4); }
ENTRY(seq_short_int) { history<short_sequence<u>>(5); }        // inline up to three elements
ENTRY(seq_short_long) { history<short_sequence<unsigned long>>(3); }  // inline up to one element
ENTRY(seq_chars) {  // inline up to 15 characters
  HeapBalance hb;
  { typedef parlay::chars S; Model m; size_t n = choose("size", 13, 17); S s = build<S>(m, n); if (choose("state", 0, 1)) s.reserve(n + 2);
    step(s, m, P("OPLO", 0), P("OPHI", OPS), 18); same(s, m); }
  psym_cover("end");
}
// ---- constructors
template <typename S> void ctors() {
  typedef typename S::value_type T; typedef El<T> L; HeapBalance hb;
  {
    size_t n = choose("n", 0, 5), how = choose("how", 0, 7); Model m; m.n = n; for (size_t i = 0; i < n; i++) m.v[i] = fresh();
    S src = S::from_function(n, [&](size_t i) { return L::mk(m.v[i]); });
    typedef It<T, std::forward_iterator_tag> F; typedef It<T, std::input_iterator_tag> IN;
    switch (how) {
      case 0: { S s; same(s, Model()); } break;
      case 1: { S s(n); for (size_t i = 0; i < n; i++) m.v[i] = 0; same(s, m); } break;
      case 2: { u v = fresh(); T e = L::mk(v); S s(n, e); for (size_t i = 0; i < n; i++) m.v[i] = v; same(s, m); } break;
      case 3: { S s(src.begin(), src.end()); same(s, m); same(src, m); } break;
      case 4: { S s(F{src.begin()}, F{src.end()}); same(s, m); } break;
      case 5: { S s(IN{src.begin()}, IN{src.end()}); same(s, m); } break;
      case 6: { S s{L::mk(7), L::mk(8), L::mk(9)}; m.n = 3; m.v[0] = 7; m.v[1] = 8; m.v[2] = 9; same(s, m); } break;
      case 7: { auto s = parlay::to_sequence(src); CHECK(s.size() == n, "to_sequence"); for (size_t i = 0; i < n; i++) CHECK(L::val(s[i]) == m.v[i], "to_sequence"); auto w = parlay::to_short_sequence(src); CHECK(w.size() == n, "to_short_sequence"); for (size_t i = 0; i < n; i++) CHECK(L::val(w[i]) == m.v[i], "to_short_sequence"); auto vec = src.to_vector(); CHECK(vec.size() == n, "to_vector"); for (size_t i = 0; i < n; i++) CHECK(L::val(vec[i]) == m.v[i], "to_vector"); } break;
    }
  }
  psym_cover("end");
}
ENTRY(ctor_int) { ctors<sequence<u>>(); }
ENTRY(ctor_tracked) { ctors<sequence<Tracked>>(); }
ENTRY(ctor_short) { ctors<short_sequence<u>>(); }
ENTRY(ctor_nocopy) {  // a sequence of elements that can only be default constructed or moved
  struct M { u v = 3; M() = default; explicit M(u x) : v(x) {} M(M&& o) noexcept : v(o.v) { o.v = 0; } M& operator=(M&& o) noexcept { v = o.v; o.v = 0; return *this; } };
  size_t n = choose("n", 0, 4); sequence<M> s(n); for (size_t i = 0; i < n; i++) CHECK(s[i].v == 3, "default constructed");
  u v = fresh(); s.push_back(M(v)); s.emplace_back(v + 1); CHECK(s.size() == n + 2 && s[n].v == v && s[n + 1].v == v + 1, "moved elements"); s.insert(s.begin(), M(v + 2)); CHECK(s.size() == n + 3 && s[0].v == v + 2 && s[n + 1].v == v, "moved elements");
  psym_cover("end");
}
// ---- comparison in blocks: elements so large that the block of compare_equal holds two (or none)
template <size_t B> struct Big { u v; char pad[B - 4]; Big() : v(0) {} explicit Big(u x) : v(x) {} friend bool operator==(const Big& a, const Big& b) { return a.v == b.v; } };
template <size_t B> void equality(size_t maxn) {
  typedef Big<B> T; size_t n = choose("n", 0, P("N", maxn)); u a[16], b[16];
  for (size_t i = 0; i < n; i++) { a[i] = (u)psym_u64("a", 2); b[i] = (u)psym_u64("b", 2); }
  auto s = sequence<T>::from_function(n, [&](size_t i) { return T(a[i]); }); auto t = sequence<T>::from_function(n, [&](size_t i) { return T(b[i]); });
  bool e = true; for (size_t i = 0; i < n; i++) e &= a[i] == b[i];
  CHECK((s == t) == e, "equality compares every element"); CHECK((s != t) == !e, "inequality");
  psym_cover("end");
}
ENTRY(equal_blocks) { equality<4096>(8); }
ENTRY(equal_huge) { equality<10000>(4); }
// ---- C13: arguments that refer to an element of the sequence
template <typename S> void aliases(size_t maxsize) {
  typedef typename S::value_type T; typedef El<T> L; typedef typename S::iterator I; HeapBalance hb;
  {
    Model m; size_t n = choose("size", 1, maxsize), spare = choose("spare", 0, 2); S s = build<S>(m, n); if (spare) s.reserve(n + (spare == 1 ? 1 : 4));
    size_t i = choose("i", 0, n - 1), p = 0, k = 0; u v = m.v[i], x[4] = {v, v, v, v}; I r = nullptr; size_t want = 0;
    switch (choose("op", 0, 9)) {
      case 0: r = s.push_back(s[i]); want = n; m.ins(n, 1, x); break;
      case 1: r = s.emplace_back(s[i]); want = n; m.ins(n, 1, x); break;
      case 2: p = choose("p", 0, n); r = s.insert(s.begin() + p, s[i]); want = p; m.ins(p, 1, x); break;
      case 3: p = choose("p", 0, n); r = s.emplace(s.begin() + p, s[i]); want = p; m.ins(p, 1, x); break;
      case 4: p = choose("p", 0, n); k = choose("k", 0, 3); r = s.insert(s.begin() + p, k, s[i]); want = p; m.ins(p, k, x); break;
      case 5: k = choose("k", 0, 3); r = s.append(k, s[i]); want = n; m.ins(n, k, x); break;
      case 6: k = choose("k", 0, n + 3); s.resize(k, s[i]); while (m.n < k) m.v[m.n++] = v; m.n = k; break;
      case 7: k = choose("k", 0, 3); s.assign(k, s[i]); m.n = 0; m.ins(0, k, x); break;
      case 8: s = S(1, s[i]); m.n = 0; m.ins(0, 1, x); break;
      case 9: { S& t = s; s = t; s.swap(t); s = std::move(t); } break;  // the sequence itself
    }
    if (r) CHECK(r - s.begin() == (std::ptrdiff_t)want, "the returned iterator");
    same(s, m);
  }
  psym_cover("end");
}
ENTRY(alias_int) { aliases<sequence<u>>(4); }
ENTRY(alias_tracked) { aliases<sequence<Tracked>>(3); }
ENTRY(alias_short) { aliases<short_sequence<u>>(4); }
