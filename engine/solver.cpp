#include "solver.h"
#include <unordered_set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <chrono>

double nowSec() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %d: %s\n", e, Z3_get_error_msg(c, e)); abort(); }

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, zerr);
  inc = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, inc);
}

static Z3_sort fpSort(Z3_context c, unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }

Z3_ast Solver::trBool(E e) {
  // width-1 expression as Bool
  if (e->isConst()) return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  Z3_ast t = tr(e);
  return t;
}
// width-1 expressions are translated to Bool, wider ones to BitVec
Z3_ast Solver::tr(E e) {
  auto it = cache.find(e->id);
  if (it != cache.end()) return it->second;
  Z3_ast r;
  unsigned w = e->width;
  auto bv = [&](E x) -> Z3_ast {  // as bit-vector
    Z3_ast t = tr(x);
    if (x->width == 1) {
      Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
      return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
    }
    return t;
  };
  auto toBool = [&](Z3_ast t) { return Z3_mk_eq(ctx, t, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
  auto fp = [&](E x) { return Z3_mk_fpa_to_fp_bv(ctx, bv(x), fpSort(ctx, x->width)); };
  auto rne = [&]() { return Z3_mk_fpa_round_nearest_ties_to_even(ctx); };
  switch (e->op) {
    case OpConst:
      if (w == 1) r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      else if (w <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, Z3_mk_bv_sort(ctx, w));
      else {
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, Z3_mk_bv_sort(ctx, 64));
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(ctx, w - 64));
        r = Z3_mk_concat(ctx, hi, lo);
      }
      break;
    case OpSym: {
      Z3_symbol s = Z3_mk_int_symbol(ctx, (int)e->aux);
      r = Z3_mk_const(ctx, s, w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w));
      break;
    }
    case OpAnd: case OpOr: case OpXor:
      if (w == 1) {
        Z3_ast x[2] = {tr(e->a), tr(e->b)};
        if (e->op == OpAnd) r = Z3_mk_and(ctx, 2, x);
        else if (e->op == OpOr) r = Z3_mk_or(ctx, 2, x);
        else if (e->b->isTrue()) r = Z3_mk_not(ctx, x[0]);
        else r = Z3_mk_xor(ctx, x[0], x[1]);
      } else {
        Z3_ast x = tr(e->a), y = tr(e->b);
        r = e->op == OpAnd ? Z3_mk_bvand(ctx, x, y) : e->op == OpOr ? Z3_mk_bvor(ctx, x, y) : Z3_mk_bvxor(ctx, x, y);
      }
      break;
    case OpEq: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
    case OpUlt: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case OpSlt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case OpIte: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    case OpZExt: r = Z3_mk_zero_ext(ctx, w - e->a->width, bv(e->a)); break;
    case OpSExt: r = Z3_mk_sign_ext(ctx, w - e->a->width, bv(e->a)); break;
    case OpExtract: {
      Z3_ast t = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, bv(e->a));
      r = w == 1 ? toBool(t) : t;
      break;
    }
    case OpConcat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    case OpFEq: r = Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b)); usesFp = true; break;
    case OpFLt: r = Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b)); usesFp = true; break;
    case OpFLe: r = Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b)); usesFp = true; break;
    case OpFIsNan: r = Z3_mk_fpa_is_nan(ctx, fp(e->a)); usesFp = true; break;
    case OpFAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), fp(e->a), fp(e->b))); usesFp = true; break;
    case OpFSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), fp(e->a), fp(e->b))); usesFp = true; break;
    case OpFMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), fp(e->a), fp(e->b))); usesFp = true; break;
    case OpFDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), fp(e->a), fp(e->b))); usesFp = true; break;
    case OpFRem: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, fp(e->a), fp(e->b))); usesFp = true; break;
    case OpFSqrt: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, rne(), fp(e->a))); usesFp = true; break;
    case OpSIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(e->a), fpSort(ctx, w))); usesFp = true; break;
    case OpUIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(e->a), fpSort(ctx, w))); usesFp = true; break;
    case OpFPToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_round_toward_zero(ctx), fp(e->a), w); usesFp = true; break;
    case OpFPToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_round_toward_zero(ctx), fp(e->a), w); usesFp = true; break;
    case OpFPExt: case OpFPTrunc: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->a), fpSort(ctx, w))); usesFp = true; break;
    default: {
      Z3_ast x = bv(e->a), y = bv(e->b);
      switch (e->op) {
        case OpAdd: r = Z3_mk_bvadd(ctx, x, y); break;
        case OpSub: r = Z3_mk_bvsub(ctx, x, y); break;
        case OpMul: r = Z3_mk_bvmul(ctx, x, y); break;
        case OpUDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
        case OpSDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
        case OpURem: r = Z3_mk_bvurem(ctx, x, y); break;
        case OpSRem: r = Z3_mk_bvsrem(ctx, x, y); break;
        case OpShl: r = Z3_mk_bvshl(ctx, x, y); break;
        case OpLShr: r = Z3_mk_bvlshr(ctx, x, y); break;
        case OpAShr: r = Z3_mk_bvashr(ctx, x, y); break;
        default: fprintf(stderr, "tr op %d\n", e->op); abort();
      }
      if (w == 1) r = toBool(r);
    }
  }
  Z3_inc_ref(ctx, r);
  cache[e->id] = r;
  return r;
}

void Solver::getModel(Z3_model zm, Model* m, const std::vector<E>& path, E extra) {
  Z3_model_inc_ref(ctx, zm);
  m->assign(g_syms.size(), 0);
  for (size_t i = 0; i < g_syms.size(); i++) (*m)[i] = g_symExprs[i]->width <= 64 ? (u128)g_symExprs[i]->umin : 0;
  unsigned n = Z3_model_get_num_consts(ctx, zm);
  for (unsigned i = 0; i < n; i++) {
    Z3_func_decl d = Z3_model_get_const_decl(ctx, zm, i);
    Z3_symbol s = Z3_get_decl_name(ctx, d);
    if (Z3_get_symbol_kind(ctx, s) != Z3_INT_SYMBOL) continue;
    int idx = Z3_get_symbol_int(ctx, s);
    Z3_ast v = Z3_model_get_const_interp(ctx, zm, d);
    if (!v || idx < 0 || (size_t)idx >= m->size()) continue;
    unsigned w = g_syms[idx].width;
    if (w == 1) { (*m)[idx] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE; continue; }
    if (w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, v, &x); (*m)[idx] = x; }
    else {
      const char* s2 = Z3_get_numeral_string(ctx, v);
      u128 x = 0; for (; *s2; s2++) x = x * 10 + (*s2 - '0');
      (*m)[idx] = x;
    }
  }
  Z3_model_dec_ref(ctx, zm);
}

SatRes Solver::oneShot(const std::vector<E>& path, E extra, Model* m, unsigned ms) {
  nOneShot++;
  Z3_solver s;
  if (usesFp) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
  else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  for (E e : path) Z3_solver_assert(ctx, s, tr(e));
  if (extra) Z3_solver_assert(ctx, s, tr(extra));
  Z3_lbool r = Z3_solver_check(ctx, s);
  SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && m) getModel(Z3_solver_get_model(ctx, s), m, path, extra);
  Z3_solver_dec_ref(ctx, s);
  return res;
}

// Comparison-only reasoning. Literals x<y, x<=y, x==y (and their negations) over the same
// terms form a graph; a derivable contradiction with `extra` means UNSAT (sound regardless of the
// other constraints). For SAT, a candidate model is built by ranking the terms, and accepted only
// if it satisfies every constraint.
namespace {
struct Lit { int kind; E a, b; };   // kind: 0 a<b, 1 a<=b, 2 a==b, 3 a!=b ; cls: signedness in sgn
bool litOf(E e, Lit& l, bool& sgn) {
  bool neg = false;
  if (e->op == OpXor && e->width == 1 && e->b->isConst()) { neg = true; e = e->a; }
  if (e->op == OpUlt || e->op == OpSlt) { sgn = e->op == OpSlt; if (neg) l = {1, e->b, e->a}; else l = {0, e->a, e->b}; return true; }
  if (e->op == OpEq && e->a->width > 1) { sgn = false; l = {neg ? 3 : 2, e->a, e->b}; return true; }
  return false;
}
}  // namespace
SatRes Solver::orderCheck(const std::vector<E>& path, E extra, Model* m) {
  Lit x; bool xs;
  if (!litOf(extra, x, xs)) return UNKNOWN;
  std::vector<Lit> ls; bool anyS = false, anyU = false;
  bool xeq = x.kind >= 2;
  for (E p : path) { Lit l; bool sg; if (litOf(p, l, sg)) { if (l.kind < 2) { (sg ? anyS : anyU) = true; if (!xeq && sg != xs) continue; if (xeq && false) continue; } ls.push_back(l); if (l.kind < 2 && xeq) ls.back().kind |= sg ? 8 : 0; } }
  bool useS = xeq ? (anyS && !anyU) : xs;
  if (xeq && anyS && anyU) return UNKNOWN;
  for (auto& l : ls) l.kind &= 7;
  // reach(from,to): 0 no, 1 via <=, 2 with a strict edge
  auto reach = [&](E from, E to) -> int {
    std::unordered_map<E, int> best; std::vector<E> q; best[from] = 1; q.push_back(from);
    while (!q.empty()) {
      E u = q.back(); q.pop_back(); int bu = best[u];
      for (auto& l : ls) {
        E v = nullptr; int st = 1;
        if (l.kind == 0 && l.a == u) { v = l.b; st = 2; }
        else if (l.kind == 1 && l.a == u) v = l.b;
        else if (l.kind == 2 && (l.a == u || l.b == u)) v = l.a == u ? l.b : l.a;
        if (!v) continue;
        int nb = std::max(bu, st);
        int& r = best[v];
        if (nb > r) { r = nb; q.push_back(v); }
      }
    }
    auto it = best.find(to);
    return it == best.end() ? 0 : it->second;
  };
  switch (x.kind) {
    case 0: if (reach(x.b, x.a) >= 1) return UNSAT; break;
    case 1: if (reach(x.b, x.a) == 2) return UNSAT; break;
    case 2: if (reach(x.a, x.b) == 2 || reach(x.b, x.a) == 2) return UNSAT;
      for (auto& l : ls) if (l.kind == 3 && reach(x.a, l.a) >= 1 && reach(l.a, x.a) >= 1 && reach(x.b, l.b) >= 1 && reach(l.b, x.b) >= 1) return UNSAT;
      break;
    case 3: if (reach(x.a, x.b) == 1 && reach(x.b, x.a) == 1) return UNSAT; break;
  }
  // candidate model
  if (!m) return UNKNOWN;
  ls.push_back(x);
  std::vector<E> nodes; std::unordered_map<E, int> id;
  auto node = [&](E e) { if (!id.count(e)) { id[e] = (int)nodes.size(); nodes.push_back(e); } return id[e]; };
  // only the component of x
  std::unordered_set<E> comp{x.a, x.b}; bool ch = true;
  while (ch) { ch = false; for (auto& l : ls) if (comp.count(l.a) != comp.count(l.b)) { comp.insert(l.a); comp.insert(l.b); ch = true; } }
  std::vector<Lit> cl; for (auto& l : ls) if (comp.count(l.a)) { cl.push_back(l); node(l.a); node(l.b); }
  int n = (int)nodes.size();
  if (n > 200) return UNKNOWN;
  for (E e : nodes) if (e->op != OpSym && !e->isConst()) return UNKNOWN;
  // longest path levels (equalities force equal levels)
  std::vector<long> lev(n, 0);
  unsigned w = nodes[0]->width;
  for (E e : nodes) if (e->width != w || w > 64) return UNKNOWN;
  auto val = [&](E e) -> __int128 { return useS ? sextw(e->val, w) : (__int128)e->val; };
  __int128 lo = useS ? -((__int128)1 << (w - 1)) : 0;
  std::vector<__int128> v(n);
  for (int i = 0; i < n; i++) v[i] = nodes[i]->isConst() ? val(nodes[i]) : useS ? lo : (__int128)nodes[i]->umin;
  bool changed = true; int it = 0;
  while (changed) {
    changed = false; if (++it > n + 2) return UNKNOWN;
    for (auto& l : cl) {
      int a = id[l.a], b = id[l.b];
      auto raise = [&](int i, __int128 to) { if (v[i] < to) { if (nodes[i]->isConst()) return false; v[i] = to; changed = true; } return true; };
      bool ok = true;
      if (l.kind == 0) ok = raise(b, v[a] + 1);
      else if (l.kind == 1) ok = raise(b, v[a]);
      else if (l.kind == 2) ok = raise(a, v[b]) && raise(b, v[a]);
      else if (v[a] == v[b]) ok = nodes[b]->isConst() ? raise(a, v[b] + 1) : raise(b, v[a] + 1);
      if (!ok) return UNKNOWN;
    }
  }
  Model mm = *hint;
  if (mm.size() < g_syms.size()) { size_t o = mm.size(); mm.resize(g_syms.size()); for (; o < mm.size(); o++) mm[o] = g_symExprs[o]->width <= 64 ? (u128)g_symExprs[o]->umin : 0; }
  for (int i = 0; i < n; i++) if (nodes[i]->op == OpSym) {
    __int128 hi = useS ? ((__int128)1 << (w - 1)) - 1 : (__int128)maskw(w);
    if (v[i] > hi) return UNKNOWN;
    mm[nodes[i]->aux] = (u128)v[i] & maskw(w);
  }
  if (!evalExpr(extra, mm)) return UNKNOWN;
  for (E p : path) if (!evalExpr(p, mm)) return UNKNOWN;
  *m = mm;
  return SAT;
}

const std::vector<uint32_t>& Solver::symsOf(E e) {
  auto it = symCache.find(e->id);
  if (it != symCache.end()) return it->second;
  std::unordered_set<uint32_t> out, seen;
  collectSyms(e, out, seen);
  return symCache[e->id] = std::vector<uint32_t>(out.begin(), out.end());
}
SatRes Solver::bddCheck(const std::vector<E>& path, E extra, Model* m) {
  // the constraints connected to extra by shared symbols; the path model satisfies the others
  std::vector<char> in(path.size(), 0);
  std::unordered_set<uint32_t> syms(symsOf(extra).begin(), symsOf(extra).end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < path.size(); i++) if (!in[i]) {
      auto& ss = symsOf(path[i]); bool hit = false;
      for (uint32_t x : ss) if (syms.count(x)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; syms.insert(ss.begin(), ss.end()); }
    }
  }
  if (bdd.nodes.size() > bdd.maxNodes / 2) bdd.reset();
  Bdd::N f = 1;
  bool all = true;
  for (size_t i = 0; i <= path.size(); i++) {
    E c = i < path.size() ? path[i] : extra;
    if (i < path.size() && !in[i]) continue;
    try {
      Bdd::N n = bdd.bits(c)[0];
      bdd.begin(1000000);
      f = bdd.And(f, n);
    } catch (BddLimit&) { if (getenv("BDBG")) { for (auto y : symsOf(c)) fprintf(stderr, "%s:%u%s ", g_syms[y].name.c_str(), g_syms[y].width, g_syms[y].uninit ? "!" : ""); fprintf(stderr,"limit extra=%d op=%d w=%d nodes=%zu bits? %d\n", c==extra, (int)c->op,(int)c->width, bdd.nodes.size(), (int)bdd.unfit.count(c->id)); fprintf(stderr,"%.600s\n", exprStr(c,7).c_str()); } if (c == extra) return UNKNOWN; all = false; }
    if (f == 0) return UNSAT;
  }
  Model mm = *hint;
  if (mm.size() < g_syms.size()) { size_t o = mm.size(); mm.resize(g_syms.size()); for (; o < mm.size(); o++) mm[o] = g_symExprs[o]->width <= 64 ? (u128)g_symExprs[o]->umin : 0; }
  bdd.model(f, mm);
  if (!evalExpr(extra, mm)) return UNKNOWN;
  for (E p : path) if (!evalExpr(p, mm)) return UNKNOWN;
  if (m) *m = mm;
  return SAT;
}

SatRes Solver::check(const std::vector<E>& path, E extra, Model* m) {
  double t0 = nowSec();
  nQueries++;
  if (extra && extra->isConst()) {
    if (extra->isFalse()) { nUnsat++; return UNSAT; }
  }
  SatRes res;
  if (extra && hint) {
    res = orderCheck(path, extra, m);
    if (res != UNKNOWN) { nOrder++; if (res == SAT) nSat++; else nUnsat++; solveTime += nowSec() - t0; return res; }
  }
  if (extra && hint) {
    res = bddCheck(path, extra, m);
    if (res != UNKNOWN) {
      nBdd++;
      if (res == UNSAT && (((nUnsat & (nUnsat - 1)) == 0) || (confirmEvery && nUnsat % confirmEvery == 0))) {
        SatRes z = oneShot(path, extra, nullptr, 2000);
        if (z == SAT) { fprintf(stderr, "the two decision procedures disagree\n"); abort(); }
        if (z == UNSAT) nConfirmed++;
      }
      if (res == SAT) nSat++; else nUnsat++;
      solveTime += nowSec() - t0; return res;
    }
  }
  if (usesFp) {
    res = oneShot(path, extra, m, hardMs);
  } else {
    size_t k = 0;
    while (k < stack.size() && k < path.size() && stack[k] == path[k]) k++;
    if (stack.size() > k) { Z3_solver_pop(ctx, inc, (unsigned)(stack.size() - k)); stack.resize(k); }
    bool fpAppeared = false;
    for (; k < path.size(); k++) {
      Z3_ast t = tr(path[k]);
      Z3_solver_push(ctx, inc);
      Z3_solver_assert(ctx, inc, t);
      stack.push_back(path[k]);
    }
    Z3_ast t = extra ? tr(extra) : nullptr;
    fpAppeared = usesFp;
    if (fpAppeared) res = oneShot(path, extra, m, hardMs);
    else {
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), softMs);
      Z3_solver_set_params(ctx, inc, p);
      Z3_params_dec_ref(ctx, p);
      Z3_solver_push(ctx, inc);
      if (t) Z3_solver_assert(ctx, inc, t);
      Z3_lbool r = Z3_solver_check(ctx, inc);
      res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
      if (res == SAT && m) getModel(Z3_solver_get_model(ctx, inc), m, path, extra);
      Z3_solver_pop(ctx, inc, 1);
      if (res == UNKNOWN) res = oneShot(path, extra, m, hardMs);
    }
  }
  if (res == SAT) nSat++; else if (res == UNSAT) nUnsat++; else nUnknown++;
  solveTime += nowSec() - t0;
  return res;
}
