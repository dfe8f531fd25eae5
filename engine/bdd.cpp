#include "bdd.h"
#include <algorithm>
static const uint32_t TOP = 0xffffffffu;
Bdd::Bdd() { cache.assign(1u << 20, C{0, 0, 0, 0}); reset(); resets = 0; }
void Bdd::reset() {
  nodes.clear(); nodes.push_back({TOP, 0, 0}); nodes.push_back({TOP, 1, 1});
  table.assign(1u << 16, 0);
  for (auto& c : cache) c = C{0, 0, 0, 0};
  bits_.clear(); resets++;
}
static inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (c + 0x165667B1ull) * 0xD6E8FEB86659FD93ull;
  h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; return h ^ (h >> 29);
}
Bdd::N Bdd::mk(uint32_t level, N lo, N hi) {
  if (lo == hi) return lo;
  size_t mask = table.size() - 1, i = hash3(level, lo, hi) & mask;
  while (table[i]) { const Node& n = nodes[table[i]]; if (n.level == level && n.lo == lo && n.hi == hi) return table[i]; i = (i + 1) & mask; }
  if (nodes.size() >= maxNodes || nodes.size() - opBase > opLimit) throw BddLimit();
  N id = (N)nodes.size();
  nodes.push_back({level, lo, hi});
  table[i] = id;
  if (nodes.size() * 2 > table.size()) {
    std::vector<uint32_t> t(table.size() * 2, 0);
    size_t m = t.size() - 1;
    for (N k = 2; k < nodes.size(); k++) { size_t j = hash3(nodes[k].level, nodes[k].lo, nodes[k].hi) & m; while (t[j]) j = (j + 1) & m; t[j] = k; }
    table.swap(t);
  }
  return id;
}
Bdd::N Bdd::ite(N f, N g, N h) {
  if (f == 1) return g;
  if (f == 0) return h;
  if (g == h) return g;
  if (g == 1 && h == 0) return f;
  if (g == f) g = 1;
  if (h == f) h = 0;
  if (g == h) return g;
  if (g == 1 && h == 0) return f;
  if (h == 0 && g > f && g != 1) std::swap(f, g);       // and is commutative
  if (g == 1 && h > f) std::swap(f, h);                 // or is commutative
  size_t ci = hash3(f, g, h) & (cache.size() - 1);
  { C& c = cache[ci]; if (c.f == f && c.g == g && c.h == h && f > 1) return c.r; }
  uint32_t l = std::min(nodes[f].level, std::min(nodes[g].level, nodes[h].level));
  auto co = [&](N x, bool hi) { return nodes[x].level == l ? (hi ? nodes[x].hi : nodes[x].lo) : x; };
  N a = ite(co(f, false), co(g, false), co(h, false));
  N b = ite(co(f, true), co(g, true), co(h, true));
  N r = mk(l, a, b);
  cache[ci] = C{f, g, h, r};
  return r;
}
// Order: narrow symbols (which tend to select) above wide ones (data) above uninitialised memory;
// within a class bit by bit, so that comparisons and sums of several symbols stay small.
Bdd::N Bdd::var(uint32_t sym, unsigned bit) {
  if (sym >= (1u << 22) || bit > 127) throw BddLimit();
  unsigned w = g_syms[sym].width, cls = g_syms[sym].uninit ? 5 : w <= 4 ? 0 : w <= 16 ? 1 : w <= 32 ? 2 : 3;
  return mk((cls << 29) | ((127 - bit) << 22) | sym, 0, 1);
}
const Bdd::V& Bdd::bits(E e) {
  auto it = bits_.find(e->id);
  if (it != bits_.end()) return it->second;
  if (unfit.count(e->id)) throw BddLimit();
  // children first, so that the growth limit applies to one operation
  bool lazy = e->op == OpIte && bits(e->a)[0] < 2;
  if (!lazy) for (E c : {e->a, e->b, e->c}) if (c) bits(c);
  try {
    begin(growth);
    V v = build(e);
    return bits_[e->id] = std::move(v);
  } catch (BddLimit&) { if (nodes.size() < maxNodes) unfit.insert(e->id); throw; }
}
Bdd::V Bdd::build(E e) {
  unsigned w = e->width;
  V r(w);
  auto add = [&](const V& x, const V& y, N c, bool neg) {
    V o(x.size());
    for (size_t i = 0; i < x.size(); i++) { N b = neg ? Not(y[i]) : y[i]; N t = Xor(x[i], b); o[i] = Xor(t, c); if (i + 1 < x.size()) c = Or(And(x[i], b), And(c, t)); }
    return o;
  };
  auto ult = [&](const V& x, const V& y) {
    N lt = 0;
    for (size_t i = 0; i < x.size(); i++) lt = ite(Xor(x[i], y[i]), y[i], lt);
    return lt;
  };
  auto divrem = [&](const V& x, const V& y, bool rem) {   // y == 0: quotient all ones, remainder x
    size_t n = x.size(); V q(n, 0), R(n + 1, 0), Y = y; Y.push_back(0);
    for (size_t i = n; i-- > 0;) {
      for (size_t k = n; k > 0; k--) R[k] = R[k - 1];
      R[0] = x[i];
      N ge = Not(ult(R, Y));
      V d = add(R, Y, 1, true);
      for (size_t k = 0; k <= n; k++) R[k] = ite(ge, d[k], R[k]);
      q[i] = ge;
    }
    R.pop_back();
    return rem ? R : q;
  };
  auto neg = [&](const V& x) { return add(V(x.size(), 0), x, 1, true); };
  auto mux = [&](N c, const V& x, const V& y) { V o(x.size()); for (size_t i = 0; i < o.size(); i++) o[i] = ite(c, x[i], y[i]); return o; };
  switch (e->op) {
    case OpConst: for (unsigned i = 0; i < w; i++) r[i] = (e->val >> i) & 1; return r;
    case OpSym: for (unsigned i = 0; i < w; i++) r[i] = var(e->aux, i); return r;
    case OpAnd: case OpOr: case OpXor: {
      V x = bits(e->a), y = bits(e->b);
      for (unsigned i = 0; i < w; i++) r[i] = e->op == OpAnd ? And(x[i], y[i]) : e->op == OpOr ? Or(x[i], y[i]) : Xor(x[i], y[i]);
      return r;
    }
    case OpAdd: { V x = bits(e->a), y = bits(e->b); return add(x, y, 0, false); }
    case OpSub: { V x = bits(e->a), y = bits(e->b); return add(x, y, 1, true); }
    case OpMul: {
      V x = bits(e->a), y = bits(e->b);
      if (e->a->isConst()) std::swap(x, y);
      V acc(w, 0);
      for (unsigned i = 0; i < w; i++) {
        if (y[i] == 0) continue;
        V t(w, 0);
        for (unsigned k = i; k < w; k++) t[k] = And(x[k - i], y[i]);
        acc = add(acc, t, 0, false);
      }
      return acc;
    }
    case OpUDiv: case OpURem: { V x = bits(e->a), y = bits(e->b); return divrem(x, y, e->op == OpURem); }
    case OpSDiv: case OpSRem: {
      V x = bits(e->a), y = bits(e->b);
      N sx = x[w - 1], sy = y[w - 1];
      V ux = mux(sx, neg(x), x), uy = mux(sy, neg(y), y);
      if (e->op == OpSDiv) { V q = divrem(ux, uy, false); return mux(Xor(sx, sy), neg(q), q); }
      V m = divrem(ux, uy, true); return mux(sx, neg(m), m);
    }
    case OpShl: case OpLShr: case OpAShr: {
      V x = bits(e->a), y = bits(e->b);
      N fill = e->op == OpAShr ? x[w - 1] : 0;
      for (unsigned k = 0; k < w; k++) {
        if (y[k] == 0) continue;
        uint64_t sh = k < 32 ? (1ull << k) : ~0ull;
        V t(w);
        for (unsigned i = 0; i < w; i++) {
          N v = e->op == OpShl ? (sh <= i ? x[i - sh] : 0) : (sh < w && i + sh < w ? x[i + sh] : fill);
          t[i] = ite(y[k], v, x[i]);
        }
        x = t;
      }
      return x;
    }
    case OpEq: {
      V x = bits(e->a), y = bits(e->b);
      N q = 1;
      for (size_t i = 0; i < x.size(); i++) { q = And(q, Not(Xor(x[i], y[i]))); if (q == 0) break; }
      r[0] = q; return r;
    }
    case OpUlt: { V x = bits(e->a), y = bits(e->b); r[0] = ult(x, y); return r; }
    case OpSlt: { V x = bits(e->a), y = bits(e->b); x.back() = Not(x.back()); y.back() = Not(y.back()); r[0] = ult(x, y); return r; }
    case OpIte: { N c = bits(e->a)[0]; if (c == 1) return bits(e->b); if (c == 0) return bits(e->c); V x = bits(e->b), y = bits(e->c); return mux(c, x, y); }
    case OpZExt: { V x = bits(e->a); x.resize(w, 0); return x; }
    case OpSExt: { V x = bits(e->a); N s = x.back(); x.resize(w, s); return x; }
    case OpExtract: { const V& x = bits(e->a); return V(x.begin() + e->aux, x.begin() + e->aux + w); }
    case OpConcat: { V hi = bits(e->a), x = bits(e->b); x.insert(x.end(), hi.begin(), hi.end()); return x; }
    default: {                          // floating point: only over few distinct operand values
      typedef std::vector<std::pair<u128, N>> Cases;
      auto cases = [&](const V& x) {
        Cases c{{0, 1}};
        for (size_t i = 0; i < x.size(); i++) {
          Cases d;
          for (auto& k : c) {
            N hi = And(k.second, x[i]), lo = And(k.second, Not(x[i]));
            if (hi) d.push_back({k.first | (u128)1 << i, hi});
            if (lo) d.push_back({k.first, lo});
          }
          if (d.size() > 64) throw BddLimit();
          c.swap(d);
        }
        return c;
      };
      V x = bits(e->a), y = e->b ? bits(e->b) : V();
      for (unsigned i = 0; i < w; i++) r[i] = 0;
      Cases cx = cases(x), cy = cases(y);
      for (auto& p : cx) for (auto& q : cy) {
        N g = And(p.second, q.second);
        if (!g) continue;
        u128 v = foldFp(e->op, w, p.first, e->a->width, q.first);
        for (unsigned i = 0; i < w; i++) if ((v >> i) & 1) r[i] = Or(r[i], g);
      }
      return r;
    }
  }
}
void Bdd::model(N f, Model& m) {
  while (f > 1) {
    const Node& n = nodes[f];
    uint32_t sym = n.level & 0x3fffff; unsigned bit = 127 - ((n.level >> 22) & 127);
    // prefer the value already there
    bool cur = (m[sym] >> bit) & 1;
    bool take = cur ? n.hi != 0 : n.lo == 0;
    if (take) m[sym] |= (u128)1 << bit; else m[sym] &= ~((u128)1 << bit);
    f = take ? n.hi : n.lo;
  }
}
