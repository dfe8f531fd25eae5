// Hash-consed bit-vector expressions (width 1..128) used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_set>
#include <unordered_map>

typedef unsigned __int128 u128;

enum Op : uint8_t {
  OpConst, OpSym,
  OpAdd, OpSub, OpMul, OpUDiv, OpSDiv, OpURem, OpSRem,
  OpAnd, OpOr, OpXor, OpShl, OpLShr, OpAShr,
  OpEq, OpUlt, OpSlt,
  OpIte, OpZExt, OpSExt, OpExtract, OpConcat,
  // floating point, operands and results are IEEE bit patterns
  OpFAdd, OpFSub, OpFMul, OpFDiv, OpFRem, OpFEq, OpFLt, OpFLe, OpFIsNan,
  OpSIToFP, OpUIToFP, OpFPToSI, OpFPToUI, OpFPExt, OpFPTrunc, OpFSqrt,
};

struct Expr {
  Op op;
  uint8_t taint;      // bit0: depends on uninitialised memory
  uint16_t width;
  uint32_t aux;       // Extract: bit offset; Sym: symbol index
  uint32_t id;
  uint32_t epoch;     // evaluation memo
  const Expr *a, *b, *c;
  u128 val;           // Const value
  uint64_t umin, umax;  // unsigned interval (only meaningful for width<=64)
  u128 ev;            // evaluation memo value
  uint64_t hash;
  bool isConst() const { return op == OpConst; }
  bool isTrue() const { return op == OpConst && val == 1; }
  bool isFalse() const { return op == OpConst && val == 0; }
};
typedef const Expr* E;

struct SymInfo { std::string name; unsigned width; bool uninit; };
extern std::vector<SymInfo> g_syms;
extern std::vector<E> g_symExprs;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (__int128)((v ^ m) - m);
}

E mkConst(unsigned w, u128 v);
E mkSym(const std::string& name, unsigned w, bool uninit = false);
E mkUltRaw(E a, E b);
E mkSymRange(const std::string& name, unsigned w, uint64_t lo, uint64_t hi);
E mkBin(Op op, E a, E b);
E mkIte(E c, E t, E f);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkFp(Op op, unsigned w, E a, E b);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(1, 0); }
inline E mkNot(E a) { return mkBin(OpXor, a, mkConst(1, 1)); }
inline E mkAnd(E a, E b) { return mkBin(OpAnd, a, b); }
inline E mkOr(E a, E b) { return mkBin(OpOr, a, b); }
inline E mkEq(E a, E b) { return mkBin(OpEq, a, b); }
inline E mkUlt(E a, E b) { return mkBin(OpUlt, a, b); }
inline E mkUle(E a, E b) { return mkNot(mkBin(OpUlt, b, a)); }

// model: symbol index -> value
typedef std::vector<u128> Model;
u128 evalExpr(E e, const Model& m);   // missing symbols evaluate to their umin
void collectSyms(E e, std::unordered_set<uint32_t>& out, std::unordered_set<uint32_t>& seen);
std::string exprStr(E e, int depth = 6);
u128 foldFp(Op op, unsigned w, u128 a, unsigned aw, u128 b);
uint64_t exprCount();
