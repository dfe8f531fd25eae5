// C31: relocation of one object and of ranges, against the source values and the constructor / destructor balance.
#include "common.h"
#include <parlay/relocation.h>
#include <parlay/sequence.h>
#include <iterator>
#include <memory>
typedef unsigned u;
static u fresh() { return (u)psym_u64("v", 8); }
template <size_t B> struct Blob { u v; char pad[B - 8]; u w; Blob(u x) : v(x), w(x + 1) { pad[0] = (char)x; pad[B - 9] = (char)(x + 2); } };
template <size_t B> bool eq(const Blob<B>& b, u x) { return b.v == x && b.w == x + 1 && b.pad[0] == (char)x && b.pad[B - 9] == (char)(x + 2); }
// constructor / destructor counts, for calls per object
static int made, died;
struct Cnt { u v; Cnt* self; explicit Cnt(u x) : v(x), self(this) { made++; } Cnt(const Cnt& o) : v(o.v), self(this) { psym_assert(false, "relocation copies instead of moving"); }
  Cnt(Cnt&& o) noexcept : v(o.v), self(this) { psym_assert(o.self == &o, "moved from an address where nothing lives"); o.v = 0xdead; made++; } ~Cnt() { psym_assert(self == this, "destroyed where nothing lives"); self = nullptr; died++; } };
struct Triv { u v; u w; explicit Triv(u x) : v(x), w(~x) {} };
struct Owner {  // marked trivially relocatable although it has a move constructor and a destructor
  u* p; explicit Owner(u x) : p(new u(x)) {} Owner(Owner&& o) noexcept : p(o.p) { psym_assert(false, "a trivially relocatable object is relocated by its move constructor"); o.p = nullptr; } ~Owner() { delete p; } };
namespace parlay { template <> PARLAY_ASSUME_TRIVIALLY_RELOCATABLE(Owner); }
template <typename T> struct Raw { alignas(T) unsigned char b[sizeof(T)]; T* get() { return reinterpret_cast<T*>(b); } };
template <typename T, typename Cat> struct It {
  typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
  T* p = nullptr;
  T& operator*() const { return *p; } It& operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; }
  friend bool operator==(const It& a, const It& b) { return a.p == b.p; } friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
};
template <typename T, size_t N> struct Buf { T* p = static_cast<T*>(::operator new(N * sizeof(T))); ~Buf() { ::operator delete(p); } };  // holds no objects itself
ENTRY(one_object) {
  HeapBalance hb; made = died = 0;
  u v = fresh();
  switch (choose("type", 0, 4)) {
    case 0: { Raw<Triv> a, b; new (a.b) Triv(v); auto* r = parlay::relocate_at(a.get(), b.get()); CHECK(r == b.get() && r->v == v && r->w == ~v, "the object arrives"); } break;
    case 1: { Raw<Cnt> a, b; new (a.b) Cnt(v); auto* r = parlay::relocate_at(a.get(), b.get()); CHECK(r == b.get() && r->v == v && made == 2 && died == 1, "moved once, destroyed once"); r->~Cnt(); } break;
    case 2: { Raw<Owner> a, b; new (a.b) Owner(v); auto* r = parlay::relocate_at(a.get(), b.get()); CHECK(*r->p == v, "the object arrives"); r->~Owner(); } break;
    case 3: { Raw<Tracked> a; new (a.b) Tracked(v); Tracked t = parlay::relocate(a.get()); CHECK(t.get() == v, "the object arrives"); } break;
    case 4: { Raw<Cnt> a; new (a.b) Cnt(v); { Cnt t = parlay::relocate(a.get()); CHECK(t.v == v, "the object arrives"); } CHECK(made == died, "created and destroyed"); } break;
  }
  psym_cover("end");
}
template <typename T, typename Mk, typename Ok> void range(size_t maxn, Mk mk, Ok ok, bool cnt) {
  HeapBalance hb; made = died = 0;
  {
    size_t n = choose("n", 0, P("N", maxn)), how = choose("how", 0, 5); u v[16]; Buf<T, 20> src, dst;
    for (size_t i = 0; i < n; i++) { v[i] = fresh(); mk(src.p + 1 + i, v[i]); }
    bool guard = sizeof(T) < 100; unsigned char* g0 = (unsigned char*)dst.p; unsigned char* g1 = (unsigned char*)(dst.p + 1 + n);
    if (guard) for (size_t i = 0; i < sizeof(T); i++) g0[i] = g1[i] = 0x5a;
    T *s = src.p + 1, *d = dst.p + 1; typedef It<T, std::forward_iterator_tag> F;
    if (how == 0) { auto r = parlay::uninitialized_relocate_n(s, n, d); CHECK(r.first == s + n && r.second == d + n, "the returned iterators"); }
    else if (how == 1) { auto r = parlay::uninitialized_relocate(s, s + n, d); CHECK(r == d + n, "the returned iterator"); }
    else if (how == 2) { auto r = parlay::uninitialized_relocate_n(F{s}, n, F{d}); CHECK(r.first == F{s + n} && r.second == F{d + n}, "the returned iterators"); }
    else if (how == 3) { auto r = parlay::uninitialized_relocate(F{s}, F{s + n}, F{d}); CHECK(r == F{d + n}, "the returned iterator"); }
    else if (how == 4) { auto r = parlay::uninitialized_relocate_n(std::make_reverse_iterator(s + n), n, std::make_reverse_iterator(d + n)); CHECK(r.second.base() == d, "the returned iterators"); }
    else { auto r = parlay::uninitialized_relocate(s, s + n, F{d}); CHECK(r == F{d + n}, "the returned iterator"); }
    for (size_t i = 0; i < n; i++) CHECK(ok(d[i], v[i]), "every object arrives in its place");
    if (cnt) CHECK(made == (int)(2 * n) && died == (int)n, "each object is moved once and destroyed once");
    if (guard) for (size_t i = 0; i < sizeof(T); i++) CHECK(g0[i] == 0x5a && g1[i] == 0x5a, "nothing outside the destination is written");
    for (size_t i = 0; i < n; i++) d[i].~T();
  }
  if (cnt) CHECK(made == died, "created and destroyed equally often");
  psym_cover("end");
}
ENTRY(range_trivial) { range<Triv>(6, [](Triv* p, u x) { new (p) Triv(x); }, [](const Triv& t, u x) { return t.v == x && t.w == ~x; }, false); }
ENTRY(range_counted) { range<Cnt>(6, [](Cnt* p, u x) { new (p) Cnt(x); }, [](const Cnt& t, u x) { return t.v == x && t.self == &t; }, true); }
ENTRY(range_tracked) { range<Tracked>(5, [](Tracked* p, u x) { new (p) Tracked(x); }, [](const Tracked& t, u x) { return t.get() == x; }, false); }
ENTRY(range_owner) { range<Owner>(5, [](Owner* p, u x) { new (p) Owner(x); }, [](const Owner& t, u x) { return *t.p == x; }, false); }
template <size_t B> void blobs(size_t n) { range<Blob<B>>(n, [](Blob<B>* p, u x) { new (p) Blob<B>(x); }, [](const Blob<B>& t, u x) { return eq<B>(t, x); }, false); }
ENTRY(range_large) { blobs<4096>(7); }   // chunks of two objects
ENTRY(range_large3) { blobs<2600>(8); }  // chunks of three
ENTRY(range_edge) { blobs<8192>(4); }    // chunks of one
ENTRY(range_huge) { blobs<10000>(4); }   // objects larger than a chunk
ENTRY(different_types) {
  struct Src { u v; Src* self; explicit Src(u x) : v(x), self(this) { made++; } Src(const Src&) = delete; ~Src() { psym_assert(self == this, "destroyed where nothing lives"); died++; } };
  struct Dst { u v; char tag[40]; Dst(Src&& s) : v(s.v + 1), tag() { psym_assert(s.self == &s, "constructed from an object that is not there"); } };
  made = died = 0; size_t n = choose("n", 0, 5), how = choose("how", 0, 2); u v[8]; Buf<Src, 8> s; Buf<Dst, 8> d; typedef It<Src, std::forward_iterator_tag> F;
  for (size_t i = 0; i < n; i++) { v[i] = fresh(); new (s.p + i) Src(v[i]); }
  if (how == 0) parlay::uninitialized_relocate_n(s.p, n, d.p); else if (how == 1) parlay::uninitialized_relocate(s.p, s.p + n, d.p); else parlay::uninitialized_relocate(F{s.p}, F{s.p + n}, d.p);
  for (size_t i = 0; i < n; i++) CHECK(d.p[i].v == v[i] + 1, "converted objects arrive in their place");
  CHECK(died == (int)n, "each source is destroyed once");
  psym_cover("end");
}
ENTRY(growing_large) {  // a sequence of large objects relocates its elements when it grows
  typedef Blob<10000> T; size_t n = choose("n", 1, 4); u v[8]; parlay::sequence<T> s;
  for (size_t i = 0; i < n; i++) { v[i] = fresh(); s.push_back(T(v[i])); }
  for (size_t i = 0; i < n; i++) CHECK(eq<10000>(s[i], v[i]), "elements survive growth");
  auto t = s.pop_tail((size_t)1); CHECK(t.size() == 1 && eq<10000>(t[0], v[n - 1]), "elements survive splitting");
  psym_cover("end");
}
