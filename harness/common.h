#pragma once
#include "psym.h"
#include <cstddef>
#include <cstdint>
#include <utility>
#define ENTRY(name) extern "C" __attribute__((used, noinline)) void name()
#define CHECK(c, msg) psym_assert(c, msg)
// A symbolic value of type T with the given number of significant bits.
template <typename T> inline T sym(const char* name, unsigned bits = 8 * sizeof(T)) { return static_cast<T>(psym_u64(name, bits)); }
inline size_t choose(const char* n, size_t lo, size_t hi) { return psym_choose(n, lo, hi); }
inline size_t P(const char* n, long d) { return (size_t)psym_param(n, d); }

// Words over symbolic 2-bit letters (at most 32 letters) under concatenation: the free monoid. An
// algorithm that gets the right word for every letter assignment combines the right elements, in
// the right order, the right number of times, for every monoid.
struct Word {
  uint64_t w = 0;
  uint64_t n = 0;
  friend bool operator==(const Word& a, const Word& b) { return (a.w == b.w) & (a.n == b.n); }
  friend bool operator!=(const Word& a, const Word& b) { return !(a == b); }
};
inline Word cat(const Word& a, const Word& b) {
  CHECK(a.n + b.n <= 32, "an element is combined more than once");
  Word r; r.w = b.n >= 32 ? b.w : (a.w << (2 * b.n)) | b.w; r.n = a.n + b.n; return r;
}
inline Word letter(const char* nm) { Word r; r.w = psym_u64(nm, 2); r.n = 1; return r; }
struct CatMonoid { Word identity; Word operator()(const Word& a, const Word& b) const { return cat(a, b); } };

// A value that owns heap blocks and knows its own address: double or missing destruction, use of a
// raw, destroyed or moved-from object, bitwise copies and leaks become memory errors, failed
// assertions or an unbalanced heap.
struct Tracked {
  unsigned* p;      // the value, handed over by moves
  char* token;      // owned from construction to destruction
  Tracked* self;
  Tracked() : Tracked(0u) {}
  explicit Tracked(unsigned v) : p(new unsigned(v)), token(new char), self(this) {}
  Tracked(const Tracked& o) : p(new unsigned(o.get())), token(new char), self(this) {}
  Tracked(Tracked&& o) noexcept : p(o.take()), token(new char), self(this) {}
  Tracked& operator=(const Tracked& o) { here(); if (this != &o) { unsigned v = o.get(); drop(); p = new unsigned(v); } return *this; }
  Tracked& operator=(Tracked&& o) noexcept { here(); if (this != &o) { unsigned* q = o.take(); drop(); p = q; } return *this; }
  ~Tracked() { here(); drop(); delete token; self = nullptr; }
  void here() const { CHECK(self == this, "an object is used at an address where it was never constructed"); }
  void drop() { if (p) delete p; p = nullptr; }
  unsigned* take() { here(); unsigned* q = p; p = nullptr; return q; }
  unsigned get() const { here(); CHECK(p != nullptr, "a moved-from element is read"); return *p; }
  friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
};
// checks at scope end that the heap is balanced
inline size_t& unwound() { static size_t n = 0; return n; }  // blocks of frames that the executor unwinds without running destructors
struct HeapBalance {
  size_t h = psym_heap_live();
  ~HeapBalance() { CHECK(psym_heap_live() == h + unwound(), "heap blocks leaked"); }
};
