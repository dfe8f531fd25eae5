#include "expr.h"
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <algorithm>

std::vector<SymInfo> g_syms;
std::vector<E> g_symExprs;

namespace {
struct H { size_t operator()(const Expr* e) const { return e->hash; } };
struct Q {
  bool operator()(const Expr* x, const Expr* y) const {
    return x->hash == y->hash && x->op == y->op && x->width == y->width && x->aux == y->aux && x->a == y->a && x->b == y->b &&
           x->c == y->c && x->val == y->val;
  }
};
std::unordered_set<Expr*, H, Q> table;
char* arena = nullptr; size_t arenaLeft = 0;
uint32_t nextId = 1;
uint32_t curEpoch = 0;

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}

void computeRange(Expr* e) {
  unsigned w = e->width;
  uint64_t full = w >= 64 ? ~0ull : ((1ull << w) - 1);
  e->umin = 0; e->umax = full;
  if (w > 64) return;
  auto A = e->a, B = e->b;
  switch (e->op) {
    case OpConst: e->umin = e->umax = (uint64_t)e->val; break;
    case OpAdd: {
      uint64_t lo, hi;
      if (!__builtin_add_overflow(A->umax, B->umax, &hi) && hi <= full) {
        lo = A->umin + B->umin; e->umin = lo; e->umax = hi;
      } else if (B->isConst() && A->umax <= full) {
        // adding a negative constant: x + (-c) with x >= c
        uint64_t c = (full - (uint64_t)B->val) + 1;
        if (c != 0 && c <= A->umin) { e->umin = A->umin - c; e->umax = A->umax - c; }
        // all values wrap: x + k with x.min + k >= 2^w is covered above
      }
      break;
    }
    case OpSub:
      if (A->umin >= B->umax) { e->umin = A->umin - B->umax; e->umax = A->umax - B->umin; }
      break;
    case OpMul: {
      uint64_t hi;
      if (!__builtin_mul_overflow(A->umax, B->umax, &hi) && hi <= full) { e->umin = A->umin * B->umin; e->umax = hi; }
      break;
    }
    case OpUDiv: if (B->umin > 0) { e->umin = A->umin / B->umax; e->umax = A->umax / B->umin; } break;
    case OpURem:
      if (B->umin > 0) { e->umax = std::min(A->umax, B->umax - 1); if (A->umax < B->umin) e->umin = A->umin; }
      break;
    case OpAnd: e->umax = std::min(A->umax, B->umax); break;
    case OpOr: case OpXor: {
      uint64_t m = A->umax | B->umax;
      // smallest all-ones mask covering m
      m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
      e->umax = std::min(m, full);
      if (e->op == OpOr) e->umin = std::max(A->umin, B->umin);
      break;
    }
    case OpShl:
      if (B->isConst() && B->val < w) {
        unsigned s = (unsigned)B->val;
        if (A->umax <= (full >> s)) { e->umin = A->umin << s; e->umax = A->umax << s; }
      }
      break;
    case OpLShr:
      if (B->isConst() && B->val < w) { e->umin = A->umin >> (unsigned)B->val; e->umax = A->umax >> (unsigned)B->val; }
      else e->umax = A->umax;
      break;
    case OpIte: e->umin = std::min(B->umin, e->c->umin); e->umax = std::max(B->umax, e->c->umax); break;
    case OpZExt: e->umin = A->umin; e->umax = A->umax; break;
    case OpSExt: {
      unsigned aw = A->width;
      if (aw <= 64 && A->umax < (1ull << (aw - 1))) { e->umin = A->umin; e->umax = A->umax; }
      break;
    }
    case OpExtract:
      if (A->width <= 64) {
        if (e->aux == 0) { if (A->umax <= full) { e->umin = A->umin; e->umax = A->umax; } }
        else { uint64_t hi = A->umax >> e->aux; if (hi <= full) { e->umin = A->umin >> e->aux; e->umax = hi; } }
      }
      break;
    case OpConcat: {
      unsigned lw = B->width;
      if (lw < 64 && A->umax <= (~0ull >> lw)) { e->umin = (A->umin << lw) + B->umin; e->umax = (A->umax << lw) + B->umax; }
      break;
    }
    default: break;
  }
  if (e->umin > e->umax) { e->umin = 0; e->umax = full; }
}

E intern(Op op, unsigned w, E a, E b, E c, u128 val, uint32_t aux, bool taint = false) {
  Expr t;
  t.op = op; t.width = (uint16_t)w; t.a = a; t.b = b; t.c = c; t.val = val; t.aux = aux;
  uint64_t h = mix(op, w);
  h = mix(h, aux); h = mix(h, (uint64_t)val); h = mix(h, (uint64_t)(val >> 64));
  h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, c ? c->id : 0);
  t.hash = h;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  if (arenaLeft < sizeof(Expr)) { size_t sz = 4 << 20; arena = (char*)aligned_alloc(64, sz); arenaLeft = sz; }
  Expr* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
  *e = t;
  e->id = nextId++; e->epoch = 0; e->ev = 0;
  e->taint = taint | (a ? a->taint : 0) | (b ? b->taint : 0) | (c ? c->taint : 0);
  computeRange(e);
  table.insert(e);
  return e;
}
std::vector<E> smallConst[129];

bool isIteConst(E e) {  // ite tree whose leaves are constants (bounded depth)
  if (e->op != OpIte) return false;
  if (!e->b->isConst() && !isIteConst(e->b)) return false;
  if (!e->c->isConst() && !isIteConst(e->c)) return false;
  return true;
}
int iteSize(E e) { return e->op == OpIte ? iteSize(e->b) + iteSize(e->c) : 1; }

u128 foldBin(Op op, unsigned w, u128 x, u128 y) {
  u128 m = maskw(w);
  switch (op) {
    case OpAdd: return (x + y) & m;
    case OpSub: return (x - y) & m;
    case OpMul: return (x * y) & m;
    case OpUDiv: return y ? (x / y) : m;
    case OpURem: return y ? (x % y) : x;
    case OpSDiv: { __int128 a = sextw(x, w), b = sextw(y, w); if (b == 0) return (a < 0 ? 1 : m); if (b == -1) return (u128)(-(u128)a) & m; return (u128)(a / b) & m; }
    case OpSRem: { __int128 a = sextw(x, w), b = sextw(y, w); if (b == 0) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
    case OpAnd: return x & y;
    case OpOr: return x | y;
    case OpXor: return x ^ y;
    case OpShl: return y >= w ? 0 : (x << (unsigned)y) & m;
    case OpLShr: return y >= w ? 0 : (x >> (unsigned)y);
    case OpAShr: { __int128 a = sextw(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
    case OpEq: return x == y;
    case OpUlt: return x < y;
    case OpSlt: return sextw(x, w) < sextw(y, w);
    default: abort();
  }
}
bool isCommut(Op op) { return op == OpAdd || op == OpMul || op == OpAnd || op == OpOr || op == OpXor || op == OpEq; }
bool isCmp(Op op) { return op == OpEq || op == OpUlt || op == OpSlt; }

unsigned lowZeros(E e) {
  if (e->isConst()) return e->val == 0 ? e->width : __builtin_ctzll((uint64_t)e->val ? (uint64_t)e->val : ~0ull);
  if (e->op == OpConcat) { unsigned z = lowZeros(e->b); return z == e->b->width ? z + lowZeros(e->a) : z; }
  return 0;
}

// Linear normal form: sum of coefficient * term + constant (mod 2^w).
struct Lin { std::vector<std::pair<E, u128>> t; u128 k = 0; bool ok = true; };
void linCollect(E e, u128 c, Lin& l, int depth) {
  if (!l.ok) return;
  if (e->isConst()) { l.k += c * e->val; return; }
  if (depth < 2000) {
    switch (e->op) {
      case OpAdd: linCollect(e->a, c, l, depth + 1); linCollect(e->b, c, l, depth + 1); return;
      case OpSub: linCollect(e->a, c, l, depth + 1); linCollect(e->b, (u128)0 - c, l, depth + 1); return;
      case OpMul: if (e->b->isConst()) { linCollect(e->a, c * e->b->val, l, depth + 1); return; } break;
      case OpConcat: if (e->b->isConst() && e->b->val == 0 && e->a->op == OpExtract && e->a->aux == 0 && e->a->a->width == e->width) {
        linCollect(e->a->a, c << e->b->width, l, depth + 1); return; }
        if (e->b->isConst() && e->b->val == 0 && e->a->op == OpZExt) { linCollect(mkZExt(e->a, e->width), c << e->b->width, l, depth + 1); return; }
        break;
      default: break;
    }
  }
  l.t.push_back({e, c});
  if (l.t.size() > 400) l.ok = false;
}
E linBuild(Lin& l, unsigned w) {
  u128 m = maskw(w);
  std::sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  std::vector<std::pair<E, u128>> u;
  for (auto& p : l.t) { if (!u.empty() && u.back().first == p.first) u.back().second += p.second; else u.push_back(p); }
  E acc = nullptr;
  std::vector<E> neg;
  for (auto& p : u) {
    u128 c = p.second & m;
    if (c == 0) continue;
    if (c == m) { neg.push_back(p.first); continue; }
    E x = c == 1 ? p.first : mkBin(OpMul, p.first, mkConst(w, c));
    if (!acc) acc = x;
    else { E a = acc, b = x; acc = intern(OpAdd, w, a, b, nullptr, 0, 0); }
  }
  u128 k = l.k & m;
  if (!acc) { if (neg.empty()) return mkConst(w, k); acc = mkConst(w, k); k = 0; }
  for (E x : neg) { acc = intern(OpSub, w, acc, x, nullptr, 0, 0); }
  if (k) acc = intern(OpAdd, w, acc, mkConst(w, k), nullptr, 0, 0);
  return acc;
}
// Linear form that also looks through zero extensions and low extractions which lose nothing.
void deepCollect(E e, u128 c, std::vector<std::pair<E, u128>>& t, u128& k, unsigned w, bool exact, int depth) {
  if (e->isConst()) { k += c * e->val; return; }
  if (depth < 500 && e->width <= 64) {
    uint64_t full = (uint64_t)maskw(e->width), hi;
    switch (e->op) {
      case OpAdd: if (!exact || (!__builtin_add_overflow(e->a->umax, e->b->umax, &hi) && hi <= full)) {
        deepCollect(e->a, c, t, k, w, exact, depth + 1); deepCollect(e->b, c, t, k, w, exact, depth + 1); return; } break;
      case OpSub: if (!exact || e->a->umin >= e->b->umax) {
        deepCollect(e->a, c, t, k, w, exact, depth + 1); deepCollect(e->b, (u128)0 - c, t, k, w, exact, depth + 1); return; } break;
      case OpMul: if (e->b->isConst() && (!exact || (!__builtin_mul_overflow(e->a->umax, (uint64_t)e->b->val, &hi) && hi <= full))) {
        deepCollect(e->a, c * e->b->val, t, k, w, exact, depth + 1); return; } break;
      case OpZExt: deepCollect(e->a, c, t, k, w, true, depth + 1); return;
      case OpExtract: if (e->aux == 0 && e->a->width <= 64 && e->a->umax <= full) { deepCollect(e->a, c, t, k, w, true, depth + 1); return; } break;
      case OpConcat: if (e->b->isConst() && e->b->val == 0 && e->b->width < 64) {
        if (e->a->op == OpExtract && e->a->aux == 0 && e->a->a->width == e->width && (!exact || e->a->a->umax <= (full >> e->b->width))) { deepCollect(e->a->a, c << e->b->width, t, k, w, exact, depth + 1); return; }
        deepCollect(e->a, c << e->b->width, t, k, w, true, depth + 1); return; } break;
      default: break;
    }
  }
  t.push_back({e, c});
}
// The difference a - b as a constant, if the linear forms cancel.
bool deepDiff(E a, E b, unsigned w, u128& d) {
  std::vector<std::pair<E, u128>> t; u128 k = 0;
  deepCollect(a, 1, t, k, w, false, 0); deepCollect(b, (u128)0 - 1, t, k, w, false, 0);
  std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  for (size_t i = 0; i < t.size();) { u128 c = 0; size_t j = i; for (; j < t.size() && t[j].first == t[i].first; j++) c += t[j].second; if (c & maskw(w)) return false; i = j; }
  d = k & maskw(w); return true;
}
bool isLin(E e) { return e->op == OpAdd || e->op == OpSub || (e->op == OpMul && e->b->isConst()); }

E mapIte(E t, Op op, E other, bool tLeft) {
  if (t->isConst()) return tLeft ? mkBin(op, t, other) : mkBin(op, other, t);
  return mkIte(t->a, mapIte(t->b, op, other, tLeft), mapIte(t->c, op, other, tLeft));
}
}  // namespace

uint64_t exprCount() { return nextId; }

E mkConst(unsigned w, u128 v) {
  v &= maskw(w);
  if (v < 256) {
    auto& s = smallConst[w];
    if (s.empty()) s.resize(256, nullptr);
    E& r = s[(size_t)v];
    if (!r) r = intern(OpConst, w, nullptr, nullptr, nullptr, v, 0);
    return r;
  }
  return intern(OpConst, w, nullptr, nullptr, nullptr, v, 0);
}
E mkSym(const std::string& name, unsigned w, bool uninit) {
  uint32_t i = (uint32_t)g_syms.size();
  g_syms.push_back({name, w, uninit});
  E e = intern(OpSym, w, nullptr, nullptr, nullptr, 0, i, uninit);
  g_symExprs.push_back(e);
  return e;
}
E mkSymRange(const std::string& name, unsigned w, uint64_t lo, uint64_t hi) {
  E e = mkSym(name, w);
  const_cast<Expr*>(e)->umin = lo; const_cast<Expr*>(e)->umax = hi;
  return e;
}
E mkUltRaw(E a, E b) { return intern(OpUlt, 1, a, b, nullptr, 0, 0); }  // not simplified by known ranges

E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d %u %u\n", op, a->width, b->width); abort(); }
  unsigned rw = isCmp(op) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(rw, foldBin(op, w, a->val, b->val));
  if (isCommut(op)) {
    // constants go right; otherwise order by id
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  }
  u128 m = maskw(w);
  if (a == b) {
    switch (op) {
      case OpSub: case OpXor: return mkConst(w, 0);
      case OpAnd: case OpOr: return a;
      case OpEq: return mkTrue();
      case OpUlt: case OpSlt: return mkFalse();
      default: break;
    }
  }
  switch (op) {
    case OpAdd:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->op == OpAdd && a->b->isConst()) return mkBin(OpAdd, a->a, mkConst(w, a->b->val + b->val));
        if (a->op == OpSub && a->b->isConst()) return mkBin(OpAdd, a->a, mkConst(w, b->val - a->b->val));
      } else {
        if (a->op == OpAdd && a->b->isConst()) return mkBin(OpAdd, mkBin(OpAdd, a->a, b), a->b);
        if (b->op == OpAdd && b->b->isConst()) return mkBin(OpAdd, mkBin(OpAdd, a, b->a), b->b);
        if (a->op == OpSub && a->b == b) return a->a;
        if (b->op == OpSub && b->b == a) return b->a;
        if (w >= 8 && (isLin(a) || isLin(b))) { Lin l; linCollect(a, 1, l, 0); linCollect(b, 1, l, 0); if (l.ok) return linBuild(l, w); }
      }
      break;
    case OpSub:
      if (b->isConst()) return mkBin(OpAdd, a, mkConst(w, (u128)0 - b->val));
      if (w >= 8 && (isLin(a) || isLin(b))) { Lin l; linCollect(a, 1, l, 0); linCollect(b, (u128)0 - 1, l, 0); if (l.ok) return linBuild(l, w); }
      if (a->op == OpAdd && a->b == b) return a->a;
      if (a->op == OpAdd && a->a == b) return a->b;
      if (a->op == OpAdd && a->b->isConst()) return mkBin(OpAdd, mkBin(OpSub, a->a, b), a->b);
      if (b->op == OpAdd && b->b->isConst()) return mkBin(OpAdd, mkBin(OpSub, a, b->a), mkConst(w, (u128)0 - b->b->val));
      break;
    case OpMul:
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        u128 v = b->val;
        if ((v & (v - 1)) == 0) { unsigned k = 0; while (!((v >> k) & 1)) k++; return mkBin(OpShl, a, mkConst(w, k)); }
      }
      break;
    case OpUDiv:
      if (b->isConst()) {
        if (b->val == 1) return a;
        u128 v = b->val;
        if (v && (v & (v - 1)) == 0) { unsigned k = 0; while (!((v >> k) & 1)) k++; return mkBin(OpLShr, a, mkConst(w, k)); }
      }
      if (w <= 64 && a->umax < b->umin) return mkConst(w, 0);
      break;
    case OpURem:
      if (b->isConst()) {
        u128 v = b->val;
        if (v && (v & (v - 1)) == 0) return mkBin(OpAnd, a, mkConst(w, v - 1));
      }
      if (w <= 64 && a->umax < b->umin) return a;
      break;
    case OpAnd:
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        // low mask -> zext(extract)
        u128 v = b->val;
        if ((v & (v + 1)) == 0) { unsigned k = 0; while ((v >> k) & 1) k++;
          if (w <= 64 && a->umax <= (uint64_t)v) return a;
          return mkZExt(mkExtract(a, 0, k), w); }
        if (a->op == OpAnd && a->b->isConst()) return mkBin(OpAnd, a->a, mkConst(w, a->b->val & b->val));
        if (a->op == OpZExt && w <= 64 && (b->val & maskw(a->a->width)) == 0) return mkConst(w, 0);
      } else if (w == 1) {
        if (a->op == OpXor && a->b->isConst() && a->a == b) return mkFalse();
        if (b->op == OpXor && b->b->isConst() && b->a == a) return mkFalse();
        if (b->op == OpAnd && (b->a == a || b->b == a)) return b;
        if (a->op == OpAnd && (a->a == b || a->b == b)) return a;
      }
      break;
    case OpOr:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val == m) return b;
      } else if (w == 1) {
        if (a->op == OpXor && a->b->isConst() && a->a == b) return mkTrue();
        if (b->op == OpXor && b->b->isConst() && b->a == a) return mkTrue();
        if (b->op == OpOr && (b->a == a || b->b == a)) return b;
        if (a->op == OpOr && (a->a == b || a->b == b)) return a;
      }
      break;
    case OpXor:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->op == OpXor && a->b->isConst()) return mkBin(OpXor, a->a, mkConst(w, a->b->val ^ b->val));
        if (w == 1 && a->op == OpIte) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
      }
      break;
    case OpShl: case OpLShr: case OpAShr:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val < w) {
          unsigned s = (unsigned)b->val;
          if (op == OpShl) {
            if (a->op == OpLShr && a->b == b) return mkBin(OpAnd, a->a, mkConst(w, (m << s) & m));
            return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
          }
          if (op == OpLShr) return mkZExt(mkExtract(a, s, w - s), w);
          return mkSExt(mkExtract(a, s, w - s), w);
        } else if (op != OpAShr) return mkConst(w, 0);
      }
      break;
    case OpEq:
      if (b->isConst()) {
        if (w == 1) return b->val ? a : mkNot(a);
        if (w <= 64 && ((uint64_t)b->val < a->umin || (uint64_t)b->val > a->umax)) return mkFalse();
        if (a->op == OpZExt) {
          if (b->val >> a->a->width) return mkFalse();
          return mkEq(a->a, mkConst(a->a->width, b->val));
        }
        if (a->op == OpSExt) {
          u128 t = b->val & maskw(a->a->width);
          if (((u128)sextw(t, a->a->width) & m) != b->val) return mkFalse();
          return mkEq(a->a, mkConst(a->a->width, t));
        }
        if (a->op == OpConcat) {
          unsigned lw = a->b->width;
          return mkAnd(mkEq(a->a, mkConst(a->a->width, b->val >> lw)), mkEq(a->b, mkConst(lw, b->val & maskw(lw))));
        }
        if (a->op == OpAdd && a->b->isConst()) return mkEq(a->a, mkConst(w, b->val - a->b->val));
        if (a->op == OpXor && a->b->isConst()) return mkEq(a->a, mkConst(w, b->val ^ a->b->val));
        if (a->op == OpSub && b->val == 0) return mkEq(a->a, a->b);
      } else {
        if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkFalse();
        if (a->op == OpZExt && b->op == OpZExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->op == OpSExt && b->op == OpSExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->op == OpAdd && b->op == OpAdd && a->b == b->b) return mkEq(a->a, b->a);
        if (w >= 8 && isLin(a) && isLin(b)) { E d = mkBin(OpSub, a, b); if (d->isConst()) return d->val == 0 ? mkTrue() : mkFalse(); }
        if (a->op == OpAdd && b->op == OpAdd && a->a == b->a) return mkEq(a->b, b->b);
        if (w >= 8 && w <= 64 && (isLin(a) || a->op == OpZExt) && (isLin(b) || b->op == OpZExt)) { u128 d; if (deepDiff(a, b, w, d)) return d == 0 ? mkTrue() : mkFalse(); }
        if (a->op == OpAdd && a->b->isConst() && a->a == b && a->b->val != 0) return mkFalse();
        if (b->op == OpAdd && b->b->isConst() && b->a == a && b->b->val != 0) return mkFalse();
      }
      break;
    case OpUlt:
      if (w <= 64) {
        if (a->umax < b->umin) return mkTrue();
        if (a->umin >= b->umax) return mkFalse();
      }
      if (w == 1) return mkAnd(mkNot(a), b);
      if (b->isConst() && b->val == 1) return mkEq(a, mkConst(w, 0));
      if (a->isConst() && a->val == 0) return mkNot(mkEq(b, a));
      if (a->op == OpZExt && b->op == OpZExt && a->a->width == b->a->width) return mkUlt(a->a, b->a);
      if (a->op == OpZExt && b->isConst()) {
        if (b->val >> a->a->width) return mkTrue();
        return mkUlt(a->a, mkConst(a->a->width, b->val));
      }
      if (b->op == OpZExt && a->isConst()) {
        if (a->val >> b->a->width) return mkFalse();
        return mkUlt(mkConst(b->a->width, a->val), b->a);
      }
      if (a->op == OpSExt && b->op == OpSExt && a->a->width == b->a->width) return mkUlt(a->a, b->a);
      break;
    case OpSlt:
      if (w <= 64) {
        uint64_t half = 1ull << (w - 1);
        if (a->umax < half && b->umax < half) return mkUlt(a, b);
        if (a->umin >= half && b->umin >= half) return mkUlt(a, b);
        if (a->umin >= half && b->umax < half) return mkTrue();
        if (a->umax < half && b->umin >= half) return mkFalse();
      }
      if (w == 1) return mkAnd(a, mkNot(b));
      if (a->op == OpSExt && b->op == OpSExt && a->a->width == b->a->width) return mkBin(OpSlt, a->a, b->a);
      if (a->op == OpSExt && b->isConst()) {
        unsigned aw = a->a->width; __int128 v = sextw(b->val, w);
        if (v > sextw(maskw(aw) >> 1, aw)) return mkTrue();
        if (v < sextw((u128)1 << (aw - 1), aw)) return mkFalse();
        return mkBin(OpSlt, a->a, mkConst(aw, b->val));
      }
      if (b->op == OpSExt && a->isConst()) {
        unsigned bw = b->a->width; __int128 v = sextw(a->val, w);
        if (v >= sextw(maskw(bw) >> 1, bw)) return mkFalse();
        if (v < sextw((u128)1 << (bw - 1), bw)) return mkTrue();
        return mkBin(OpSlt, mkConst(bw, a->val), b->a);
      }
      break;
    default: break;
  }
  if ((op == OpOr || op == OpXor || op == OpAdd) && w > 1 && w <= 64) {
    for (int sw = 0; sw < 2; sw++) {
      E x = sw ? b : a, y = sw ? a : b;
      if (x->op == OpZExt && x->a->op == OpConcat) {
        // zext(concat(h, 0_k)) | y
        E cc = x->a; unsigned zl = lowZeros(cc);
        if (zl && y->umax < (1ull << zl) && !y->isConst()) return mkZExt(mkConcat(mkExtract(cc, zl, cc->width - zl), mkExtract(y, 0, zl)), w);
      }
      if (x->op == OpConcat) {
        unsigned zl = lowZeros(x);
        if (zl && zl < 64 && y->umax < (1ull << zl) && !y->isConst()) return mkConcat(mkExtract(x, zl, w - zl), mkExtract(y, 0, zl));
      }
    }
  }
  // push through ite-of-constants
  if (b->isConst() && a->op == OpIte && isIteConst(a) && iteSize(a) <= 32) return mapIte(a, op, b, true);
  if (a->isConst() && b->op == OpIte && isIteConst(b) && iteSize(b) <= 32) return mapIte(b, op, a, false);
  if (op == OpEq && b->isConst() && a->op == OpIte && (a->b->isConst() || a->c->isConst()))
    return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
  return intern(op, rw, a, b, nullptr, 0, 0);
}

E mkIte(E c, E t, E f) {
  if (c->isConst()) return c->val ? t : f;
  if (t == f) return t;
  if (c->op == OpXor && c->b->isConst()) return mkIte(c->a, f, t);
  if (t->width == 1) {
    if (t->isConst() && f->isConst()) return t->val ? c : mkNot(c);
    if (t->isTrue()) return mkOr(c, f);
    if (t->isFalse()) return mkAnd(mkNot(c), f);
    if (f->isTrue()) return mkOr(mkNot(c), t);
    if (f->isFalse()) return mkAnd(c, t);
  }
  if (t->op == OpIte && t->a == c) t = t->b;
  if (f->op == OpIte && f->a == c) f = f->c;
  if (t == f) return t;
  if (f->op == OpIte && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
  if (t->op == OpIte && t->c == f) return mkIte(mkAnd(c, t->a), t->b, f);
  if (c->op == OpEq && c->b->isConst() && c->a == t && f->isConst() && f->val == c->b->val) return f;  // c?k:k
  return intern(OpIte, t->width, c, t, f, 0, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) return mkConst(w, a->val);
  if (a->op == OpZExt) return mkZExt(a->a, w);
  if (a->op == OpAdd && a->b->isConst() && a->width <= 64 && w <= 64 && a->a->op != OpConcat && a->a->umax <= maskw(a->width) - a->b->val) return mkBin(OpAdd, mkZExt(a->a, w), mkConst(w, a->b->val));
  if (a->op == OpIte && isIteConst(a) && iteSize(a) <= 32) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(OpZExt, w, a, nullptr, nullptr, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) return mkConst(w, (u128)sextw(a->val, a->width));
  if (a->op == OpSExt) return mkSExt(a->a, w);
  if (a->width <= 64 && a->umax < (1ull << (a->width - 1))) return mkZExt(a, w);
  if (a->op == OpIte && isIteConst(a) && iteSize(a) <= 32) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(OpSExt, w, a, nullptr, nullptr, 0, 0);
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (a->isConst()) return mkConst(w, a->val >> off);
  switch (a->op) {
    case OpExtract: return mkExtract(a->a, off + a->aux, w);
    case OpConcat: {
      unsigned lw = a->b->width;
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case OpZExt: {
      unsigned iw = a->a->width;
      if (off >= iw) return mkConst(w, 0);
      if (off + w <= iw) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, iw - off), w);
    }
    case OpSExt: {
      unsigned iw = a->a->width;
      if (off + w <= iw) return mkExtract(a->a, off, w);
      if (off < iw) return mkSExt(mkExtract(a->a, off, iw - off), w);
      break;
    }
    case OpIte:
      if (isIteConst(a) && iteSize(a) <= 32) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    case OpAnd: case OpOr: case OpXor:
      return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case OpAdd: case OpSub: case OpMul:
      if (off == 0 && w > 8) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  if (a->width <= 64 && off < 64 && (a->umax >> off) == 0) return mkConst(w, 0);
  return intern(OpExtract, w, a, nullptr, nullptr, 0, off);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) return mkConst(w, (hi->val << lo->width) | lo->val);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->op == OpConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == OpExtract && lo->op == OpExtract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
    return mkExtract(hi->a, lo->aux, w);
  if (lo->op == OpConcat && hi->op == OpExtract && lo->a->op == OpExtract && hi->a == lo->a->a &&
      hi->aux == lo->a->aux + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
  // concat(extract(x, k, n), y) where x already fully covers: zext pieces
  if (hi->op == OpZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->op == OpIte && lo->op == OpIte && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->op == OpIte && lo->isConst() && isIteConst(hi) && iteSize(hi) <= 32)
    return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->op == OpIte && hi->isConst() && isIteConst(lo) && iteSize(lo) <= 32)
    return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return intern(OpConcat, w, hi, lo, nullptr, 0, 0);
}

static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 frD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 frF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
u128 foldFp(Op op, unsigned w, u128 a, unsigned aw, u128 b) {
  bool f32 = aw == 32;
  switch (op) {
#define BINOP(OP, X) case OP: if (f32) { float x = asF(a), y = asF(b); return frF(X); } else { double x = asD(a), y = asD(b); return frD(X); }
    BINOP(OpFAdd, x + y) BINOP(OpFSub, x - y) BINOP(OpFMul, x * y) BINOP(OpFDiv, x / y)
    case OpFRem: if (f32) return frF(fmodf(asF(a), asF(b))); return frD(fmod(asD(a), asD(b)));
    case OpFEq: return f32 ? asF(a) == asF(b) : asD(a) == asD(b);
    case OpFLt: return f32 ? asF(a) < asF(b) : asD(a) < asD(b);
    case OpFLe: return f32 ? asF(a) <= asF(b) : asD(a) <= asD(b);
    case OpFIsNan: return f32 ? asF(a) != asF(a) : asD(a) != asD(a);
    case OpSIToFP: if (w == 32) return frF((float)(int64_t)sextw(a, aw)); return frD((double)(int64_t)sextw(a, aw));
    case OpUIToFP: if (w == 32) return frF((float)(uint64_t)a); return frD((double)(uint64_t)a);
    case OpFPToSI: { double d = f32 ? asF(a) : asD(a); return (u128)(__int128)d & maskw(w); }
    case OpFPToUI: { double d = f32 ? asF(a) : asD(a); return d < 0 ? ((u128)(__int128)d & maskw(w)) : ((u128)d & maskw(w)); }
    case OpFPExt: return frD((double)asF(a));
    case OpFPTrunc: return frF((float)asD(a));
    case OpFSqrt: if (f32) return frF(sqrtf(asF(a))); return frD(sqrt(asD(a)));
    default: abort();
  }
}
E mkFp(Op op, unsigned w, E a, E b) {
  if (a->isConst() && (!b || b->isConst())) return mkConst(w, foldFp(op, w, a->val, a->width, b ? b->val : 0));
  return intern(op, w, a, b, nullptr, 0, 0);
}

static u128 evalRec(E e, const Model& m) {
  if (e->op == OpConst) return e->val;
  Expr* x = const_cast<Expr*>(e);
  if (x->epoch == curEpoch) return x->ev;
  u128 r;
  switch (e->op) {
    case OpSym: r = e->aux < m.size() ? m[e->aux] : (e->width <= 64 ? (u128)e->umin : 0); break;
    case OpIte: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    case OpZExt: r = evalRec(e->a, m); break;
    case OpSExt: r = (u128)sextw(evalRec(e->a, m), e->a->width) & maskw(e->width); break;
    case OpExtract: r = (evalRec(e->a, m) >> e->aux) & maskw(e->width); break;
    case OpConcat: r = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
    default:
      if (e->op >= OpFAdd) r = foldFp(e->op, e->width, evalRec(e->a, m), e->a->width, e->b ? evalRec(e->b, m) : 0);
      else r = foldBin(e->op, e->a->width, evalRec(e->a, m), evalRec(e->b, m));
  }
  x->epoch = curEpoch; x->ev = r;
  return r;
}
u128 evalExpr(E e, const Model& m) { curEpoch++; return evalRec(e, m); }

void collectSyms(E e, std::unordered_set<uint32_t>& out, std::unordered_set<uint32_t>& seen) {
  if (e->op == OpConst || !seen.insert(e->id).second) return;
  if (e->op == OpSym) { out.insert(e->aux); return; }
  if (e->a) collectSyms(e->a, out, seen);
  if (e->b) collectSyms(e->b, out, seen);
  if (e->c) collectSyms(e->c, out, seen);
}
static const char* opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","zext","sext","extract","concat",
  "fadd","fsub","fmul","fdiv","frem","feq","flt","fle","fisnan","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","fsqrt"};
std::string exprStr(E e, int d) {
  if (!e) return "";
  if (e->isConst()) { char buf[40]; snprintf(buf, 40, "%llu", (unsigned long long)e->val); return buf; }
  if (e->op == OpSym) return g_syms[e->aux].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == OpExtract) s += "@" + std::to_string(e->aux) + ":" + std::to_string(e->width);
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
