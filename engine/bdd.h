// Decision procedure for bit-vector formulas by reduced ordered binary decision diagrams: an
// expression is bit-blasted once, into one diagram per bit, and a conjunction is satisfiable iff
// its diagram is not the constant false. Gives up (throws) when a diagram grows past a limit;
// the caller then asks z3.
#pragma once
#include "expr.h"
#include <vector>
#include <unordered_map>
#include <unordered_set>

struct BddLimit {};
struct Bdd {
  typedef uint32_t N;                 // 0 false, 1 true
  struct Node { uint32_t level; N lo, hi; };
  std::vector<Node> nodes;
  std::vector<uint32_t> table;        // unique table, open addressing
  struct C { N f, g, h, r; };
  std::vector<C> cache;
  std::unordered_map<uint32_t, std::vector<N>> bits_;   // by expression id
  std::unordered_set<uint32_t> unfit;
  size_t maxNodes = 16000000, opLimit = 0, opBase = 0, growth = 400000;
  uint64_t resets = 0;
  Bdd();
  void reset();
  N mk(uint32_t level, N lo, N hi);
  N ite(N f, N g, N h);
  N And(N a, N b) { return ite(a, b, 0); }
  N Or(N a, N b) { return ite(a, 1, b); }
  N Not(N a) { return ite(a, 0, 1); }
  N Xor(N a, N b) { return ite(a, Not(b), b); }
  N var(uint32_t sym, unsigned bit);
  typedef std::vector<N> V;
  const V& bits(E e);                  // may throw BddLimit
  V build(E e);
  void begin(size_t growth) { opBase = nodes.size(); opLimit = growth; }
  void model(N f, Model& m);           // overwrite the symbol bits that f depends on
};
