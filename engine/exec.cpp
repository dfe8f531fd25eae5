#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
using namespace llvm;

static Expr uninitMarker;
const E UNINIT = &uninitMarker;
static const uint64_t BASEOFF = 0x10000;

static std::string demang(const std::string& s) { return llvm::demangle(s); }

Executor::Executor(std::unique_ptr<Module> m, Options o) : opt(std::move(o)), M(std::move(m)) {
  t0 = nowSec();
  DL = &M->getDataLayout();
  initialObjs.resize(16);
  for (auto& F : *M) {
    uint64_t id = initialObjs.size();
    initialObjs.emplace_back();
    gaddr[&F] = (id << 32) + BASEOFF;
    faddr[id] = &F;
  }
  for (auto& G : M->globals()) {
    uint64_t id = initialObjs.size();
    initialObjs.emplace_back();
    uint64_t al = std::max<uint64_t>(BASEOFF, G.getAlign() ? G.getAlign()->value() : 16);
    gaddr[&G] = (id << 32) + al;
    gvars[id] = &G;
  }
  setupHandlers();
}

unsigned Executor::leafWidth(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  throw Unsupported{"leaf type"};
}
void Executor::leafTypes(Type* t, std::vector<std::pair<Type*, uint64_t>>& out, uint64_t off) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leafTypes(st->getElementType(i), out, off + sl->getElementOffset(i));
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), out, off + i * es);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) leafTypes(vt->getElementType(), out, off + i * es);
  } else if (t->isVoidTy()) {
  } else out.push_back({t, off});
}

uint64_t Executor::constAddr(const Constant* c) {
  std::vector<Val> v; constLeaves(c, v); return v[0].c;
}
void Executor::constLeaves(const Constant* c, std::vector<Val>& out) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back(cv(ci->getZExtValue()));
    else { u128 v = ci->getValue().extractBitsAsZExtValue(64, 0); v |= (u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64; out.push_back(ev(mkConst(w, v))); }
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) out.push_back(cv(b.getZExtValue()));
    else { u128 v = b.extractBitsAsZExtValue(64, 0); v |= (u128)b.extractBitsAsZExtValue(b.getBitWidth() - 64, 64) << 64; out.push_back(ev(mkConst(b.getBitWidth(), v))); }
    return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<std::pair<Type*, uint64_t>> ls; leafTypes(c->getType(), ls);
    for (auto& l : ls) { unsigned w = leafWidth(l.first); if (w <= 64) out.push_back(cv(0)); else out.push_back(ev(mkConst(w, 0))); }
    return;
  }
  if (auto* gv = dyn_cast<GlobalAlias>(c)) { constLeaves(gv->getAliasee(), out); return; }
  if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(cv(gaddr.at(gv))); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
        out.push_back(cv(constAddr(ce->getOperand(0)) + off.getSExtValue()));
        return;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        constLeaves(ce->getOperand(0), out); return;
      case Instruction::Trunc: { uint64_t v = constAddr(ce->getOperand(0)); out.push_back(cv(v & (uint64_t)maskw(ce->getType()->getIntegerBitWidth()))); return; }
      case Instruction::Sub: out.push_back(cv(constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1)))); return;
      case Instruction::Add: out.push_back(cv(constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1)))); return;
      default: break;
    }
    throw Unsupported{"constexpr"};
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out);
    return;
  }
  if (isa<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < c->getNumOperands(); i++) constLeaves(cast<Constant>(c->getOperand(i)), out);
    return;
  }
  throw Unsupported{"constant kind"};
}

int Executor::operandIdx(KFunc& kf, std::unordered_map<const Value*, int>& regOf, const Value* v, std::vector<int>& out) {
  std::vector<std::pair<Type*, uint64_t>> ls;
  if (v->getType()->isMetadataTy() || v->getType()->isLabelTy() || v->getType()->isTokenTy()) return 0;
  if (auto* c = dyn_cast<Constant>(v)) {
    std::vector<Val> vals; constLeaves(c, vals);
    for (auto& x : vals) { kf.consts.push_back(x); out.push_back(~(int)(kf.consts.size() - 1)); }
    return (int)vals.size();
  }
  if (isa<InlineAsm>(v)) return 0;
  auto it = regOf.find(v);
  if (it == regOf.end()) throw Unsupported{"operand without register"};
  leafTypes(v->getType(), ls);
  for (size_t i = 0; i < ls.size(); i++) out.push_back(it->second + (int)i);
  return (int)ls.size();
}

void Executor::translate(KFunc& kf) {
  Function* F = kf.F;
  std::unordered_map<const Value*, int> regOf;
  std::vector<std::pair<Type*, uint64_t>> ls;
  for (auto& A : F->args()) {
    ls.clear(); leafTypes(A.getType(), ls);
    regOf[&A] = kf.nregs; kf.argStart.push_back(kf.nregs); kf.nregs += ls.size();
  }
  for (auto& BB : *F) {
    for (auto& I : BB) {
      if (I.getType()->isVoidTy() || I.getType()->isTokenTy()) continue;
      ls.clear(); leafTypes(I.getType(), ls);
      regOf[&I] = kf.nregs; kf.nregs += ls.size();
    }
  }
  for (auto& BB : *F) {
    int bi = (int)kf.blocks.size();
    kf.bbIdx[&BB] = bi;
    KBlock kb; kb.start = (int)kf.code.size(); kb.bb = &BB;
    for (auto& I : BB) {
      if (isa<PHINode>(I)) continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
          case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect:
          case Intrinsic::invariant_end: case Intrinsic::stackrestore:
            continue;
          default: break;
        }
      }
      KInst k; k.I = &I; k.opc = I.getOpcode(); k.bb = bi; k.dest = -1; k.nd = 0; k.w = 0; k.ow = 0;
      auto it = regOf.find(&I);
      if (it != regOf.end()) {
        ls.clear(); leafTypes(I.getType(), ls);
        k.dest = it->second; k.nd = ls.size();
        if (!ls.empty()) k.w = leafWidth(ls[0].first);
      }
      auto addOp = [&](const Value* v) {
        k.opStart.push_back((int)k.ops.size());
        operandIdx(kf, regOf, v, k.ops);
      };
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) addOp(a.get());
        if (cb->getCalledFunction() == nullptr && !cb->isInlineAsm()) addOp(cb->getCalledOperand());
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) addOp(br->getCondition());
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        addOp(sw->getCondition());
      } else if (isa<LandingPadInst>(I)) {
      } else {
        for (auto& op : I.operands()) addOp(op.get());
      }
      if (I.getNumOperands() > 0) {
        Type* ot = I.getOperand(0)->getType();
        ls.clear();
        if (!ot->isLabelTy() && !ot->isMetadataTy() && !ot->isTokenTy()) { leafTypes(ot, ls); if (!ls.empty()) k.ow = leafWidth(ls[0].first); }
      }
      kf.code.push_back(std::move(k));
    }
    kf.blocks.push_back(std::move(kb));
  }
  // phis
  for (auto& BB : *F) {
    KBlock& kb = kf.blocks[kf.bbIdx[&BB]];
    for (auto& P : BB.phis()) {
      for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
        int from = kf.bbIdx[P.getIncomingBlock(i)];
        std::vector<int> src; operandIdx(kf, regOf, P.getIncomingValue(i), src);
        for (size_t j = 0; j < src.size(); j++) {
          // a predecessor may appear several times with the same value
          auto& v = kb.phis[from];
          bool dup = false;
          for (auto& pc : v) if (pc.dest == regOf[&P] + (int)j) dup = true;
          if (!dup) v.push_back({regOf[&P] + (int)j, src[j]});
        }
      }
    }
  }
}

KFunc* Executor::getK(Function* F) {
  auto& p = kfuncs[F];
  if (!p) { p = std::make_unique<KFunc>(); p->F = F; translate(*p); }
  return p.get();
}

// ------------------------------------------------------------------ memory

void Executor::writeInit(Object* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cds->getRawDataValues();
    memcpy(o->data + off, s.data(), s.size());
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(o, off + i * es, ca->getOperand(i));
    return;
  }
  std::vector<Val> v; constLeaves(c, v);
  std::vector<std::pair<Type*, uint64_t>> ls; leafTypes(t, ls);
  for (size_t i = 0; i < v.size(); i++) {
    unsigned n = (leafWidth(ls[i].first) + 7) / 8;
    u128 x = v[i].e ? v[i].e->val : (u128)v[i].c;
    memcpy(o->data + off + ls[i].second, &x, n);
  }
}

void Executor::materialize(State& s, uint64_t id) {
  auto fit = faddr.find(id);
  Object* o = new Object();
  o->id = id;
  if (fit != faddr.end()) {
    o->base = gaddr[fit->second]; o->size = 1; o->kind = OkFunc; o->readonly = true; o->data = (uint8_t*)calloc(1, 1);
  } else {
    const GlobalVariable* G = gvars.at(id);
    o->base = gaddr[G]; o->kind = OkGlobal;
    o->name = strdup(G->getName().str().c_str());
    if (G->hasInitializer()) {
      o->size = DL->getTypeAllocSize(G->getValueType());
      o->data = (uint8_t*)calloc(1, std::max<uint64_t>(o->size, 1));
      writeInit(o, 0, G->getInitializer());
      o->readonly = G->isConstant();
    } else {
      o->kind = OkExt;
      o->size = std::max<uint64_t>(256, G->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G->getValueType()) : 0);
      o->data = (uint8_t*)calloc(1, o->size);
    }
    }
  s.objs[id] = ObjRef(o);
}

Object* Executor::objAt(State& s, uint64_t addr) {
  uint64_t id = addr >> 32;
  if (id >= s.objs.size() || id < 16) return nullptr;
  if (!s.objs[id].p) {
    if (id < initialObjs.size() && (faddr.count(id) || gvars.count(id))) materialize(s, id);
    else return nullptr;
  }
  return s.objs[id].p;
}
Object* Executor::writable(State& s, uint64_t id) {
  Object* o = s.objs[id].p;
  if (o->rc > 1) {
    Object* n = new Object();
    n->id = o->id; n->base = o->base; n->size = o->size; n->kind = o->kind; n->alive = o->alive; n->readonly = o->readonly; n->shared = o->shared;
    n->born = o->born; n->name = o->name;
    n->data = (uint8_t*)malloc(std::max<uint64_t>(o->size, 1)); memcpy(n->data, o->data, o->size);
    if (o->sym) { n->sym = (E*)malloc(o->size * sizeof(E)); memcpy(n->sym, o->sym, o->size * sizeof(E)); }
    s.objs[id] = ObjRef(n);
    o = n;
  }
  return o;
}
uint64_t Executor::alloc(State& s, uint64_t size, uint64_t align, ObjKind k, const char* name, bool zero) {
  if (size > (1ull << 31)) throw Unsupported{"huge allocation"};
  uint64_t id = s.objs.size();
  if (id >= (1u << 30)) throw Unsupported{"too many objects"};
  Object* o = new Object();
  o->id = id; o->base = (id << 32) + (k == OkHeap && opt.tightAlign && align < BASEOFF ? BASEOFF + align : std::max<uint64_t>(align, BASEOFF)); o->size = size; o->kind = k; o->name = name; o->born = s.steps;
  o->data = (uint8_t*)calloc(1, std::max<uint64_t>(size, 1));
  if (!zero && size) {
    o->sym = (E*)malloc(size * sizeof(E));
    for (uint64_t i = 0; i < size; i++) o->sym[i] = UNINIT;
  }
  s.objs.emplace_back(o);
  if (k == OkHeap) s.heapLive++;
  return o->base;
}

static E byteAt(Object* o, uint64_t off) {
  if (o->sym && o->sym[off]) {
    if (o->sym[off] == UNINIT) o->sym[off] = mkSym("uninit" + std::to_string(g_syms.size()) + ":" + o->name, 8, true);
    return o->sym[off];
  }
  return mkConst(8, o->data[off]);
}
E Executor::readBytes(State& s, Object* o, uint64_t off, unsigned n) {
  E r = byteAt(o, off + n - 1);
  for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, byteAt(o, off + i));
  return r;
}
Val Executor::readVal(State& s, Object* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool sym = false;
  if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym && n <= 8) {
    uint64_t x = 0; memcpy(&x, o->data + off, n);
    if (w < 64) x &= ((1ull << w) - 1);
    return cv(x);
  }
  E e = readBytes(s, o, off, n);
  return ev(mkTrunc(e, w));
}
void Executor::writeVal(State& s, Object* o, uint64_t off, unsigned w, const Val& v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    memcpy(o->data + off, &v.c, n > 8 ? 8 : n);
    if (n > 8) memset(o->data + off + 8, 0, n - 8);
    if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  E e = v.e;
  if (e->width < n * 8) e = mkZExt(e, n * 8);
  if (e->isConst()) {
    u128 x = e->val; memcpy(o->data + off, &x, n);
    if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
  for (unsigned i = 0; i < n; i++) {
    E b = mkExtract(e, i * 8, 8);
    if (b->isConst()) { o->data[off + i] = (uint8_t)b->val; o->sym[off + i] = nullptr; }
    else o->sym[off + i] = b;
  }
}

static unsigned trailingZeros1(E e);
static unsigned trailingZeros(E e) {
  if (e->isConst() || e->op == OpSym) return trailingZeros1(e);
  static std::unordered_map<uint32_t, unsigned> memo;
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  unsigned r = trailingZeros1(e);
  return memo[e->id] = r;
}
static unsigned trailingZeros1(E e) {
  if (e->isConst()) { if (e->val == 0) return 64; unsigned k = 0; while (!((e->val >> k) & 1)) k++; return k; }
  switch (e->op) {
    case OpAdd: case OpSub: case OpOr: case OpXor: return std::min(trailingZeros(e->a), trailingZeros(e->b));
    case OpMul: return std::min<unsigned>(64, trailingZeros(e->a) + trailingZeros(e->b));
    case OpAnd: return std::max(trailingZeros(e->a), trailingZeros(e->b));
    case OpIte: return std::min(trailingZeros(e->b), trailingZeros(e->c));
    case OpZExt: case OpSExt: { unsigned t = trailingZeros(e->a); return t >= e->a->width ? 64 : t; }
    case OpConcat: { unsigned t = trailingZeros(e->b); return t >= e->b->width ? std::min<unsigned>(64, e->b->width + trailingZeros(e->a)) : t; }
    case OpExtract: if (e->aux == 0) return trailingZeros(e->a); return 0;
    default: return 0;
  }
}

void Executor::splitAddr(E e, E guard, std::vector<std::pair<E, E>>& out, int depth) {
  if (out.size() > 600) throw Unsupported{"pointer with too many targets"};
  if (e->op == OpIte && depth < 64) {
    splitAddr(e->b, guard ? mkAnd(guard, e->a) : e->a, out, depth + 1);
    splitAddr(e->c, guard ? mkAnd(guard, mkNot(e->a)) : mkNot(e->a), out, depth + 1);
    return;
  }
  if ((e->op == OpAdd || e->op == OpSub) && depth < 64) {
    // a pointer-valued ite anywhere in the sum
    E it = nullptr;
    std::function<void(E)> find = [&](E x) {
      if (it) return;
      if (x->op == OpIte && x->umax >= (16ull << 32) && x->width == 64) { it = x; return; }
      if (x->op == OpAdd) { find(x->a); find(x->b); }
      else if (x->op == OpSub) find(x->a);
    };
    find(e);
    if (it) {
      for (int side = 0; side < 2; side++) {
        E rep = side ? it->c : it->b;
        E r = mkBin(OpAdd, mkBin(OpSub, e, it), rep);
        E c = side ? mkNot(it->a) : it->a;
        splitAddr(r, guard ? mkAnd(guard, c) : c, out, depth + 1);
      }
      return;
    }
  }
  if (guard && guard->isFalse()) return;
  out.push_back({guard, e});
}

static E andG(E a, E b) { return !a ? b : !b ? a : mkAnd(a, b); }

// Resolves an address to (guarded) object ranges; reports and prunes invalid accesses.
void Executor::resolve(State& s, const Val& p0, uint64_t size, bool write, std::vector<Target>& out) {
  auto bad = [&](const char* what, uint64_t addr, const Model* m) {
    Object* o = objAt(s, addr);
    char buf[300];
    if (!o) {
      uint64_t id = addr >> 32;
      const char* k = addr < (16ull << 32) ? "null or wild pointer" : (id < s.objs.size() ? "freed or out-of-scope memory" : "wild pointer");
      snprintf(buf, 300, "%s of %lu bytes through %s (0x%lx)", write ? "write" : "read", (unsigned long)size, k, (unsigned long)addr);
    } else
      snprintf(buf, 300, "%s of %lu bytes at offset %ld of %s object '%s' of size %lu%s", write ? "write" : "read", (unsigned long)size,
               (long)(addr - o->base), o->kind == OkHeap ? "heap" : o->kind == OkStack ? "stack" : "global", o->name, (unsigned long)o->size,
               o->readonly && write ? " (read-only)" : "");
    report(s, "memory", std::string("invalid ") + buf + what, m);
  };
  Val p = p0;
  if (!p.e) {
    Object* o = objAt(s, p.c);
    if (!o || !o->alive || p.c < o->base || p.c - o->base + size > o->size || o->kind == OkFunc || (write && o->readonly)) { bad("", p.c, nullptr); throw PathEnd{"violation"}; }
    out.push_back({nullptr, o, p.c - o->base, p.c - o->base, 1, nullptr, p.c - o->base});
    return;
  }
  if (p.e->taint) { p = ev(checkTaint(s, p.e, "address")); if (!p.e) return resolve(s, p, size, write, out); }
  std::vector<std::pair<E, E>> leaves;
  bool many = false;
  try { splitAddr(p.e, nullptr, leaves, 0); } catch (Unsupported&) { many = true; }
  if (!many) {                       // merge equal leaves
    std::unordered_map<uint32_t, size_t> at; std::vector<std::pair<E, E>> m;
    for (auto& lf : leaves) {
      auto it = at.find(lf.second->id);
      if (it == at.end()) { at[lf.second->id] = m.size(); m.push_back(lf); }
      else m[it->second].first = mkOr(m[it->second].first, lf.first);
    }
    leaves.swap(m);
    many = leaves.size() > 100;
  }
  if (many) { Val c = cv(concretize(s, p, 64, "address")); return resolve(s, c, size, write, out); }
  bool single = leaves.size() == 1;
  for (auto& lf : leaves) {
    E g = lf.first, a = lf.second;
    if (a->isConst()) {
      uint64_t c = (uint64_t)a->val;
      Object* o = objAt(s, c);
      if (!o || !o->alive || c < o->base || c - o->base + size > o->size || o->kind == OkFunc || (write && o->readonly)) {
        Model m2;
        SatRes r = g ? S.check(s.path, g, &m2) : SAT;
        if (r == SAT) { bad("", c, g ? &m2 : nullptr); if (!g) throw PathEnd{"violation"}; addPath(s, mkNot(g)); if (!feasible(s, mkTrue(), &s.model)) throw PathEnd{"violation"}; }
        else if (r == UNKNOWN) solverUnknown = true;
        continue;
      }
      out.push_back({g, o, c - o->base, c - o->base, 1, nullptr, c - o->base});
      continue;
    }
    // symbolic leaf: find object(s)
    uint64_t objId = 0; bool intervalOk = false;
    if ((a->umin >> 32) == (a->umax >> 32)) { objId = a->umin >> 32; intervalOk = true; }
    else {
      // under the guard, the model may not be representative
      Model m; uint64_t av;
      if (g && !evalExpr(g, s.model)) {
        SatRes r = S.check(s.path, g, &m);
        if (r == UNSAT) continue;
        if (r == UNKNOWN) { solverUnknown = true; continue; }
        av = (uint64_t)evalExpr(a, m);
      } else av = (uint64_t)evalExpr(a, s.model);
      objId = av >> 32;
    }
    Object* o = objAt(s, objId << 32);
    uint64_t base = o ? o->base : 0;
    if (!o || o->kind == OkFunc || (write && o->readonly) || o->size < size) {
      Model m2; E cond = andG(g, mkEq(mkExtract(a, 32, 32), mkConst(32, objId)));
      SatRes r = S.check(s.path, cond, &m2);
      if (r == SAT) { bad("", (uint64_t)evalExpr(a, m2), &m2); addPath(s, mkNot(cond)); if (!feasible(s, mkTrue(), &s.model)) throw PathEnd{"violation"}; throw Restart{}; }
      if (r == UNKNOWN) { solverUnknown = true; throw PathEnd{"unknown"}; }
      continue;
    }
    uint64_t last = base + o->size - size;
    E off = mkBin(OpSub, a, mkConst(64, base));
    if (!(intervalOk && a->umin >= base && a->umax <= last)) {
      E inb = mkUle(off, mkConst(64, o->size - size));
      E oob = andG(g, mkNot(inb));
      // already constrained on this path?
      bool known = false;
      for (E c : s.path) if (c == inb) { known = true; break; }
      if (!known) {
        Model m2;
        SatRes r = oob->isFalse() ? UNSAT : S.check(s.path, oob, &m2);
        if (r == UNKNOWN) { solverUnknown = true; throw PathEnd{"unknown"}; }
        if (r == SAT) {
          uint64_t wa = (uint64_t)evalExpr(a, m2);
          Object* o2 = objAt(s, wa);
          if (o2 && o2 != o && wa >= o2->base && wa - o2->base + size <= o2->size) {
            // another valid object: split the path on the object
            E same = g ? mkOr(mkNot(g), inb) : inb;
            mustDecide(s, same);   // forks; either way the instruction restarts
            throw Restart{};
          }
          bad(" [symbolic index]", wa, &m2);
          E okc = g ? mkOr(mkNot(g), inb) : inb;
          addPath(s, okc);
          if (!feasible(s, mkTrue(), &s.model)) throw PathEnd{"violation"};
          if (!g) {}
        } else if (!g) { /* implied */ }
      }
    }
    uint64_t lo = off->umin, hi = off->umax;
    if (hi > o->size - size) hi = o->size - size;
    if (lo > hi) { lo = 0; }
    unsigned tz = std::min(trailingZeros(off), 12u);
    uint64_t step = 1ull << tz;
    lo = (lo + step - 1) & ~(step - 1);
    if ((hi - lo) / step + 1 > opt.maxIteCands) {
      if (!single) throw Unsupported{"large guarded symbolic range"};
      // too many candidates: enumerate values by forking
      uint64_t c = concretize(s, p, 64, "address");
      (void)c;
      Object* oo = objAt(s, c);
      out.push_back({nullptr, oo, c - oo->base, c - oo->base, 1, nullptr, c - oo->base});
      return;
    }
    out.push_back({g, o, lo, hi, step, off, 0});
  }
}

Val Executor::load(State& s, const Val& p, unsigned w, bool isAtomic) {
  unsigned n = (w + 7) / 8;
  if (!p.e) {
    Object* o = objAt(s, p.c);
    if (o && p.c >= o->base && p.c - o->base + n <= o->size && o->kind != OkFunc) {
      if (logging(s) && !isAtomic) logAccess(s, o, p.c - o->base, n, false, nullptr, nullptr, isAtomic);
      return readVal(s, o, p.c - o->base, w);
    }
  }
  std::vector<Target> ts;
  resolve(s, p, n, false, ts);
  if (ts.empty()) throw PathEnd{"no target"};
  E r = nullptr;
  for (size_t ti = ts.size(); ti-- > 0;) {
    auto& t = ts[ti];
    E v = nullptr;
    if (!t.off) {
      v = toE(readVal(s, t.o, t.c, w), w);
      if (logging(s)) logAccess(s, t.o, t.c, n, false, t.guard, nullptr, isAtomic);
    } else {
      for (uint64_t k = t.hi - (t.hi - t.lo) % t.step;; k -= t.step) {
        E x = toE(readVal(s, t.o, k, w), w);
        E c = mkEq(t.off, mkConst(64, k));
        if (logging(s)) logAccess(s, t.o, k, n, false, andG(t.guard, c), nullptr, isAtomic);
        v = v ? mkIte(c, x, v) : x;
        if (k < t.lo + t.step) break;
      }
    }
    r = r ? mkIte(t.guard ? t.guard : mkTrue(), v, r) : v;
  }
  return ev(r);
}
void Executor::store(State& s, const Val& p, unsigned w, const Val& v, bool isAtomic) {
  unsigned n = (w + 7) / 8;
  if (!p.e) {
    Object* o = objAt(s, p.c);
    if (o && p.c >= o->base && p.c - o->base + n <= o->size && !o->readonly) {
      if (logging(s) && !isAtomic) logAccess(s, o, p.c - o->base, n, true, nullptr, &v, isAtomic);
      o = writable(s, o->id);
      writeVal(s, o, p.c - o->base, w, v);
      return;
    }
  }
  std::vector<Target> ts;
  resolve(s, p, n, true, ts);
  E ve = toE(v, w);
  for (auto& t : ts) {
    Object* o = writable(s, t.o->id);
    if (!t.off) {
      if (logging(s)) logAccess(s, o, t.c, n, true, t.guard, &v, isAtomic);
      if (!t.guard) writeVal(s, o, t.c, w, v);
      else writeVal(s, o, t.c, w, ev(mkIte(t.guard, ve, toE(readVal(s, o, t.c, w), w))));
    } else {
      for (uint64_t k = t.lo; k <= t.hi; k += t.step) {
        E c = andG(t.guard, mkEq(t.off, mkConst(64, k)));
        if (c->isFalse()) continue;
        if (logging(s)) logAccess(s, o, k, n, true, c, &v, isAtomic);
        writeVal(s, o, k, w, ev(mkIte(c, ve, toE(readVal(s, o, k, w), w))));
      }
    }
  }
}

std::string Executor::readCStr(State& s, uint64_t addr) {
  std::string r;
  Object* o = objAt(s, addr);
  if (!o) return "?";
  for (uint64_t off = addr - o->base; off < o->size; off++) {
    if (o->sym && o->sym[off]) { r += '?'; continue; }
    if (!o->data[off]) break;
    r += (char)o->data[off];
  }
  return r;
}

void Executor::copyMem(State& s, const Val& d, const Val& src, const Val& n, bool move) {
  uint64_t len = concretize(s, n, 64, "memcpy length");
  if (!len) return;
  std::vector<Target> td, ts;
  resolve(s, src, len, false, ts);
  resolve(s, d, len, true, td);
  if (ts.size() == 1 && td.size() == 1 && !ts[0].off && !td[0].off && !ts[0].guard && !td[0].guard) {
    Object* so = ts[0].o;
    Object* dobj = writable(s, td[0].o->id);
    if (td[0].o->id == ts[0].o->id) so = dobj;
    uint64_t a = td[0].c, b = ts[0].c;
    if (logging(s)) {
      logAccess(s, so, b, len, false, nullptr, nullptr, false);
      for (uint64_t i = 0; i < len; i++) {
        if (so->sym && so->sym[b + i] == UNINIT) { logAccess(s, dobj, a + i, 1, true, nullptr, nullptr, false); continue; }
        Val bv = so->sym && so->sym[b + i] ? ev(so->sym[b + i]) : cv(so->data[b + i]);
        logAccess(s, dobj, a + i, 1, true, nullptr, &bv, false);
      }
    }
    if (so->sym || dobj->sym) {
      if (!dobj->sym) dobj->sym = (E*)calloc(dobj->size, sizeof(E));
      if (so->sym) memmove(dobj->sym + a, so->sym + b, len * sizeof(E));
      else memset(dobj->sym + a, 0, len * sizeof(E));
    }
    memmove(dobj->data + a, so->data + b, len);
    return;
  }
  // general case, byte-wise through temporaries
  if (len > 4096) throw Unsupported{"large symbolic memcpy"};
  std::vector<std::pair<unsigned, Val>> tmp;
  uint64_t i = 0;
  while (i < len) {
    unsigned c = len - i >= 8 ? 8 : len - i >= 4 ? 4 : 1;
    Val a = src.e ? ev(mkBin(OpAdd, src.e, mkConst(64, i))) : cv(src.c + i);
    tmp.push_back({c, load(s, a, c * 8)});
    i += c;
  }
  i = 0;
  for (auto& t : tmp) {
    Val a = d.e ? ev(mkBin(OpAdd, d.e, mkConst(64, i))) : cv(d.c + i);
    store(s, a, t.first * 8, t.second);
    i += t.first;
  }
}
void Executor::setMem(State& s, const Val& d, const Val& v, const Val& n) {
  uint64_t len = concretize(s, n, 64, "memset length");
  if (!len) return;
  std::vector<Target> td;
  resolve(s, d, len, true, td);
  for (auto& t : td) if (t.off && (t.hi - t.lo) / t.step > 64) throw Unsupported{"symbolic memset"};
  for (auto& t : td) {
    Object* o = writable(s, t.o->id);
    if (!t.off && !t.guard) {
      for (uint64_t i = 0; i < len; i++) {
        if (logging(s)) logAccess(s, o, t.c + i, 1, true, nullptr, &v, false);
        writeVal(s, o, t.c + i, 8, v);
      }
    } else {
      for (uint64_t k = t.lo; k <= t.hi; k += t.step) {
        E c = t.off ? andG(t.guard, mkEq(t.off, mkConst(64, k))) : t.guard;
        for (uint64_t i = 0; i < len; i++) {
          if (logging(s)) logAccess(s, o, k + i, 1, true, c, &v, false);
          writeVal(s, o, k + i, 8, ev(mkIte(c, toE(v, 8), toE(readVal(s, o, k + i, 8), 8))));
        }
      }
    }
  }
}

void Executor::freeObj(State& s, const Val& p, const char* what) {
  uint64_t a = concretize(s, p, 64, "free");
  if (a == 0) return;
  Object* o = objAt(s, a);
  if (!o || o->kind != OkHeap || o->base != a) {
    char buf[200]; snprintf(buf, 200, "%s of 0x%lx which is not a live heap block (double free or invalid free)", what, (unsigned long)a);
    report(s, "memory", buf); throw PathEnd{"violation"};
  }
  if (concMode && s.thr.size() > 1) {
    if (tso && !s.thr[s.tid].buf.empty()) { Pend q; q.kind = PdFence; visible(s, q); }
    if (opt.reuse) { Pend q; q.kind = PdAccess; q.write = true; q.addr = 0x1000 + o->size; q.size = 1; visible(s, q); }
    if (s.granted) { s.granted = false; s.thr[s.tid].pend = Pend(); if (opt.reuse) performed(s, 0x1000 + o->size, 1, true, s.tid); }
    concAccess(s, o->id, 0, (unsigned)o->size, true, false, true);
    o = s.objs[a >> 32].p;
    s.shadow[o->id] = ShRef();
    if (opt.reuse) s.freed.insert({o->size, {o->base, s.thr[s.tid].vc}});
    s.thr[s.tid].vc.c[s.tid]++;
  } else if (logging(s)) logAccess(s, o, 0, (unsigned)o->size, true, nullptr, nullptr, false);
  s.objs[a >> 32] = ObjRef();
  s.heapLive--;
}

// ------------------------------------------------------------------ path conditions

void Executor::addPath(State& s, E c) {
  if (c->isConst()) return;
  if (c->op == OpAnd && c->width == 1) { addPath(s, c->a); addPath(s, c->b); return; }
  for (E x : s.path) if (x == c) return;
  s.path.push_back(c);
}
bool Executor::feasible(State& s, E cond, Model* m) {
  SatRes r = S.check(s.path, cond, m);
  if (r == UNKNOWN) { solverUnknown = true; return false; }
  return r == SAT;
}

static int knownIn(const State& s, E cond) {
  E neg = mkNot(cond);
  for (E x : s.path) {
    if (x == cond) return 1;
    if (x == neg) return 0;
  }
  // order reasoning on the same operands
  E c = cond; bool inv = false;
  if (c->op == OpXor && c->b->isTrue()) { c = c->a; inv = true; }
  if (c->op == OpUlt || c->op == OpSlt) {
    E rev = mkBin(c->op, c->b, c->a);
    E eq = mkEq(c->a, c->b);
    for (E x : s.path) if (x == rev || x == eq) return inv ? 1 : 0;
  } else if (c->op == OpEq) {
    E l = mkBin(OpUlt, c->a, c->b), r = mkBin(OpUlt, c->b, c->a), l2 = mkBin(OpSlt, c->a, c->b), r2 = mkBin(OpSlt, c->b, c->a);
    for (E x : s.path) if (x == l || x == r || x == l2 || x == r2) return inv ? 1 : 0;
  }
  return -1;
}

// e with every uninitialised byte replaced (by fresh symbols, or by zero)
static E substUninit(E x, bool zero, std::unordered_map<uint32_t, E>& memo) {
  if (!x->taint) return x;
  auto it = memo.find(x->id);
  if (it != memo.end()) return it->second;
  E r;
  if (x->op == OpSym) r = zero ? mkConst(x->width, 0) : mkSym("uninit'", x->width, true);
  else {
    E a = x->a ? substUninit(x->a, zero, memo) : nullptr, b = x->b ? substUninit(x->b, zero, memo) : nullptr, c = x->c ? substUninit(x->c, zero, memo) : nullptr;
    switch (x->op) {
      case OpIte: r = mkIte(a, b, c); break;
      case OpZExt: r = mkZExt(a, x->width); break;
      case OpSExt: r = mkSExt(a, x->width); break;
      case OpExtract: r = mkExtract(a, x->aux, x->width); break;
      case OpConcat: r = mkConcat(a, b); break;
      default: r = x->op >= OpFAdd ? mkFp(x->op, x->width, a, b) : mkBin(x->op, a, b);
    }
  }
  memo[x->id] = r;
  return r;
}
// A condition implied by "bits [lo,lo+n) of e depend on uninitialised bytes".
E Executor::taintCond(E e, unsigned lo, unsigned n) {
  if (!e->taint || n == 0) return mkFalse();
  auto key = std::make_tuple(e->id, lo, n);
  auto it = taintMemo.find(key);
  if (it != taintMemo.end()) return it->second;
  E r;
  auto whole = [&](E x) { return x ? taintCond(x, 0, x->width) : mkFalse(); };
  switch (e->op) {
    case OpSym: r = mkTrue(); break;
    case OpIte: {
      E c = whole(e->a), cz = substUninit(e->a, true, scrubMemo);
      r = mkOr(c, mkIte(cz, taintCond(e->b, lo, n), taintCond(e->c, lo, n)));
      break;
    }
    case OpExtract: r = taintCond(e->a, e->aux + lo, n); break;
    case OpZExt: r = lo >= e->a->width ? mkFalse() : taintCond(e->a, lo, std::min(n, (unsigned)e->a->width - lo)); break;
    case OpConcat: {
      unsigned lw = e->b->width;
      E l = lo < lw ? taintCond(e->b, lo, std::min(n, lw - lo)) : mkFalse();
      unsigned s = lo > lw ? lo - lw : 0, end = lo + n;
      E h = end > lw ? taintCond(e->a, s, end - lw - s) : mkFalse();
      r = mkOr(l, h);
      break;
    }
    case OpAnd: case OpOr: case OpXor: r = mkOr(taintCond(e->a, lo, n), taintCond(e->b, lo, n)); break;
    default: r = mkOr(whole(e->a), mkOr(whole(e->b), whole(e->c)));
  }
  taintMemo[key] = r;
  return r;
}
// Reports if e depends on uninitialised bytes; otherwise returns an equal expression without them.
E Executor::checkTaint(State& s, E e, const char* what) {
  if (!e->taint) return e;
  E tc = taintCond(e, 0, e->width);
  SatRes r = tc->isFalse() ? UNSAT : S.check(s.path, tc, nullptr);
  if (r != UNSAT) {
    std::unordered_map<uint32_t, E> memo;
    std::vector<E> p2 = s.path;
    for (E c : s.path) if (c->taint) p2.push_back(substUninit(c, false, memo));
    E e2 = substUninit(e, false, memo);
    Model m;
    r = S.check(p2, mkNot(mkEq(e, e2)), &m);
    if (r == SAT) {
      std::string src;
      std::unordered_set<uint32_t> sy, seen; collectSyms(e, sy, seen);
      for (auto i : sy) if (g_syms[i].uninit) { src = g_syms[i].name; break; }
      report(s, "uninit", std::string("use of uninitialised memory in ") + what + " (" + src + ")", &m);
      throw PathEnd{"violation"};
    }
    if (r == UNKNOWN) solverUnknown = true;
  }
  return substUninit(e, true, scrubMemo);
}

bool Executor::mustDecide(State& s, E cond) {
  if (cond->isConst()) return cond->val != 0;
  if (cond->taint) { cond = checkTaint(s, cond, "branch"); if (cond->isConst()) return cond->val != 0; }
  int k = knownIn(s, cond);
  if (k >= 0) return k;
  bool m = evalExpr(cond, s.model) != 0;
  E here = m ? cond : mkNot(cond), other = m ? mkNot(cond) : cond;
  Model m2;
  SatRes r = S.check(s.path, other, &m2);
  if (r == UNSAT) return m;
  if (r == UNKNOWN) { solverUnknown = true; addPath(s, here); return m; }
  nForks++;
  auto ns = std::make_unique<State>(s);
  addPath(*ns, other);
  ns->model = std::move(m2);
  ns->depth++;
  work.push_back(std::move(ns));
  addPath(s, here);
  s.depth++;
  return m;
}
uint64_t Executor::concretize(State& s, const Val& v, unsigned w, const char* why) {
  if (!v.e) return v.c;
  if (v.e->isConst()) return (uint64_t)v.e->val;
  if (v.e->taint) return concretize(s, ev(checkTaint(s, v.e, why)), w, why);
  uint64_t c = (uint64_t)evalExpr(v.e, s.model);
  mustDecide(s, mkEq(v.e, mkConst(v.e->width, c)));
  return c;
}
void Executor::doAssert(State& s, E cond, const std::string& msg, const std::string& kind) {
  nAsserts++;
  if (cond->isTrue()) return;
  if (!cond->isConst() && knownIn(s, cond) == 1) return;
  Model m;
  nAssertQueries++;
  SatRes r = cond->isFalse() ? SAT : S.check(s.path, mkNot(cond), &m);
  if (r == UNKNOWN) { solverUnknown = true; return; }
  if (r == UNSAT) return;
  report(s, kind, msg, cond->isFalse() ? nullptr : &m);
  if (cond->isFalse()) throw PathEnd{"violation"};
  addPath(s, cond);
  if (!feasible(s, mkTrue(), &s.model)) throw PathEnd{"violation"};
}

std::string Executor::curLoc(State& s) {
  std::string r; int n = 0;
  for (size_t i = s.stack.size(); i-- > 0 && n < 6;) {
    Frame& f = s.stack[i];
    if (f.pc >= (int)f.f->code.size()) continue;
    Instruction* I = f.f->code[f.pc].I;
    DILocation* dl = I->getDebugLoc().get();
    if (dl) {
      for (DILocation* d = dl; d && n < 6; d = d->getInlinedAt(), n++) {
        if (!r.empty()) r += " < ";
        std::string fn = d->getFilename().str();
        size_t sl = fn.rfind('/'); if (sl != std::string::npos) fn = fn.substr(sl + 1);
        r += fn + ":" + std::to_string(d->getLine());
      }
    } else { r += (r.empty() ? "" : " < ") + f.f->F->getName().str(); n++; }
  }
  return r;
}
void Executor::report(State& s, const std::string& kind, const std::string& msg, const Model* m) {
  if (!opt.kinds.empty() && !opt.kinds.count(kind)) return;
  Violation v; v.schedule = s.schedule; v.kind = kind; v.msg = msg; v.loc = curLoc(s);
  std::string key = kind + "|" + msg.substr(0, 40) + "|" + v.loc.substr(0, v.loc.find(" < "));
  if (violKey[key]++ >= 1) return;
  const Model& mm = m ? *m : s.model;
  for (auto& c : s.inputs) v.inputs.push_back({c.first, evalExpr(c.second, mm)});
  if (getenv("PSYM_DEBUG_PATH")) for (E c : s.path) v.trace.push_back(exprStr(c, 8));
  violations.push_back(v);
  fprintf(stderr, "  [violation] %s: %s at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str());
}
E Executor::fresh(State& s, const std::string& name, unsigned w, bool input) {
  unsigned n = s.nameCount[name]++;
  std::string nm = n ? name + "#" + std::to_string(n) : name;
  // the same name on different paths denotes the same symbol
  static std::unordered_map<std::string, E> interned;
  E& e = interned[nm + ":" + std::to_string(w)];
  if (!e) e = mkSym(nm, w);
  if (input) s.inputs.push_back({nm, e});
  return e;
}

// ------------------------------------------------------------------ determinacy races

Region& Executor::regionW(State& s) {
  auto& r = s.regions.back();
  if (r.use_count() > 1) r = std::make_shared<Region>(*r);
  return *r;
}
void Executor::regionBegin(State& s) {
  auto r = std::make_shared<Region>();
  r->birth = s.steps; r->birthId = s.objs.size();
  s.regions.push_back(r);
}
void Executor::mergeLog(State& s, AccLog& into, AccLog& from, bool check) {
  for (auto& kv : from) {
    auto it = into.find(kv.first);
    if (it == into.end()) { into.insert(kv); continue; }
    AccInfo& a = it->second; AccInfo& b = kv.second;
    if (check) {
      auto conflict = [&](E g1, E g2, E v1, E v2, const char* what) {
        if (!g1 || !g2) return;
        nRaceChecks++;
        E c = mkAnd(g1, g2);
        if (v1 && v2 && !opt.strictRace) c = mkAnd(c, mkNot(mkEq(v1, v2)));  // otherwise writes of one value race as well
        if (c->isFalse()) return;
        if (c->taint) return;
        Model m;
        SatRes r = c->isTrue() ? SAT : S.check(s.path, c, &m);
        if (r == UNKNOWN) { solverUnknown = true; return; }
        if (r == SAT) {
          Object* o = s.objs[kv.first >> 32].p;
          char buf[200];
          snprintf(buf, 200, "%s race between two parallel branches on byte %ld of '%s' (schedule-dependent result)", what,
                   o ? (long)(kv.first - o->base) : -1L, o ? o->name : "?");
          report(s, "race", buf, c->isTrue() ? nullptr : &m);
        }
      };
      conflict(a.wg, b.wg, a.wv, b.wv, "write-write");
      conflict(a.rg, b.wg, nullptr, nullptr, "read-write");
      conflict(a.wg, b.rg, nullptr, nullptr, "write-read");
    }
    if (b.rg) a.rg = a.rg ? mkOr(a.rg, b.rg) : b.rg;
    if (b.wg) {
      if (!a.wg) { a.wg = b.wg; a.wv = b.wv; }
      else { a.wv = (a.wv && b.wv) ? mkIte(b.wg, b.wv, a.wv) : nullptr; a.wg = mkOr(a.wg, b.wg); }
    }
  }
}
void Executor::regionMid(State& s) {
  if (s.regions.empty()) return;
  Region& r = regionW(s);
  AccLog cur; cur.swap(r.cur);
  mergeLog(s, r.prev, cur, true);
  r.birth = s.steps; r.birthId = s.objs.size();
}
void Executor::regionEnd(State& s) {
  if (s.regions.empty()) return;
  regionMid(s);
  auto r = s.regions.back();
  s.regions.pop_back();
  if (!s.regions.empty()) {
    Region& p = regionW(s);
    AccLog l;
    for (auto& kv : r->prev) { Object* o = s.objs[kv.first >> 32].p; if (o ? o->born <= p.birth : (kv.first >> 32) < p.birthId) l.insert(kv); }
    mergeLog(s, p.cur, l, false);
  }
}
void Executor::logAccess(State& s, Object* o, uint64_t off, unsigned n, bool write, E guard, const Val* v, bool atomic) {
  if (concMode) { if (s.thr.empty()) return; if (!atomic && o->kind != OkExt && !o->readonly) concAccess(s, o->id, off, n, write, false); return; }
  if (!opt.race || atomic || o->kind == OkExt) return;
  if (o->born > s.regions.back()->birth) return;
  if (!write && o->readonly) return;
  Region& r = regionW(s);
  E g = guard ? guard : mkTrue();
  for (unsigned i = 0; i < n; i++) {
    AccInfo& a = r.cur[o->base + off + i];
    if (!write) { if (!a.wg || !a.wg->isTrue()) a.rg = a.rg ? mkOr(a.rg, g) : g; else if (!a.rg) a.rg = g; }
    else {
      E bv = nullptr;
      if (v) { if (v->e) { if (v->e->width >= (i + 1) * 8) bv = mkExtract(v->e, i * 8, 8); else if (v->e->width > i * 8) bv = mkZExt(mkExtract(v->e, i * 8, v->e->width - i * 8), 8); else bv = mkConst(8, 0); }
               else bv = mkConst(8, i < 8 ? (v->c >> (8 * i)) : 0); }
      if (!a.wg || g->isTrue()) { a.wv = bv; a.wg = a.wg ? mkOr(a.wg, g) : g; }
      else { a.wv = (a.wv && bv) ? mkIte(g, bv, a.wv) : nullptr; a.wg = mkOr(a.wg, g); }
    }
  }
}

// ------------------------------------------------------------------ execution

void Executor::pushCall(State& s, Function* F, const std::vector<Val>& args, int retDest) {
  if (s.stack.size() > 4000) { report(s, "nontermination", "call stack deeper than 4000 frames"); throw PathEnd{"violation"}; }
  KFunc* k = getK(F);
  s.stack.emplace_back();
  Frame& f = s.stack.back();
  f.f = k; f.retDest = retDest; f.pc = 0;
  f.regs.resize(k->nregs);
  size_t n = 0;
  for (size_t i = 0; i < args.size() && n < (size_t)k->nregs; i++) f.regs[n++] = args[i];
  k->used = true;
  k->blocks[0].covered = true;
}

void Executor::jump(State& s, Frame& fr, int from, BasicBlock* to) {
  int b = fr.f->bbIdx[to];
  KBlock& kb = fr.f->blocks[b];
  kb.covered = true;
  auto it = kb.phis.find(from);
  if (it != kb.phis.end()) {
    auto& v = it->second;
    if (v.size() == 1) fr.regs[v[0].dest] = get(s, fr, v[0].src);
    else {
      Val tmp[64]; std::vector<Val> big; Val* t = tmp;
      if (v.size() > 64) { big.resize(v.size()); t = big.data(); }
      for (size_t i = 0; i < v.size(); i++) t[i] = get(s, fr, v[i].src);
      for (size_t i = 0; i < v.size(); i++) fr.regs[v[i].dest] = t[i];
    }
  }
  fr.pc = kb.start;
  fr.curBB = b;
}

void Executor::doRet(State& s, std::vector<Val> vals) {
  Frame& f = s.stack.back();
  for (uint64_t a : f.allocas) s.objs[a >> 32] = ObjRef();
  int d = f.retDest;
  bool mark = f.catchMark;
  s.stack.pop_back();
  if (s.stack.empty()) throw PathEnd{"return"};
  Frame& c = s.stack.back();
  if (mark) { if (d >= 0) c.regs[d] = cv(0); }
  else if (d >= 0) for (size_t i = 0; i < vals.size(); i++) c.regs[d + i] = vals[i];
  // advance the caller past the call
  KInst& k = c.f->code[c.pc];
  if (auto* inv = dyn_cast<InvokeInst>(k.I)) jump(s, c, k.bb, inv->getNormalDest());
  else c.pc++;
}
void Executor::doThrow(State& s, const std::string& what) {
  nThrown++;
  size_t i = s.stack.size();
  while (i > 0 && !s.stack[i - 1].catchMark) i--;
  if (i == 0) { report(s, "exception", "uncaught exception: " + what); throw PathEnd{"violation"}; }
  while (s.stack.size() >= i) {
    Frame& f = s.stack.back();
    for (uint64_t a : f.allocas) s.objs[a >> 32] = ObjRef();
    int d = f.retDest;
    bool last = s.stack.size() == i;
    s.stack.pop_back();
    if (last) {
      Frame& c = s.stack.back();
      if (d >= 0) c.regs[d] = cv(1);
      KInst& k = c.f->code[c.pc];
      if (auto* inv = dyn_cast<InvokeInst>(k.I)) jump(s, c, k.bb, inv->getNormalDest());
      else c.pc++;
      return;
    }
  }
}

static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= m64(w); return (int64_t)((v ^ m) - m); }

Val Executor::binop(State& s, unsigned opc, unsigned w, const Val& a, const Val& b) {
  bool isDiv = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem;
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = m64(w);
    if (isDiv && y == 0) { report(s, "arith", "division by zero"); throw PathEnd{"violation"}; }
    switch (opc) {
      case Instruction::Add: return cv((x + y) & m);
      case Instruction::Sub: return cv((x - y) & m);
      case Instruction::Mul: return cv((x * y) & m);
      case Instruction::UDiv: return cv(x / y);
      case Instruction::URem: return cv(x % y);
      case Instruction::SDiv: { int64_t p = sx(x, w), q = sx(y, w); if (q == -1) return cv((uint64_t)(0 - (uint64_t)p) & m); return cv((uint64_t)(p / q) & m); }
      case Instruction::SRem: { int64_t p = sx(x, w), q = sx(y, w); if (q == -1) return cv(0); return cv((uint64_t)(p % q) & m); }
      case Instruction::And: return cv(x & y);
      case Instruction::Or: return cv(x | y);
      case Instruction::Xor: return cv(x ^ y);
      case Instruction::Shl: return cv(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return cv(y >= w ? 0 : x >> y);
      case Instruction::AShr: return cv((uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m);
    }
  }
  static const std::map<unsigned, Op> mp = {
      {Instruction::Add, OpAdd}, {Instruction::Sub, OpSub}, {Instruction::Mul, OpMul}, {Instruction::UDiv, OpUDiv}, {Instruction::SDiv, OpSDiv},
      {Instruction::URem, OpURem}, {Instruction::SRem, OpSRem}, {Instruction::And, OpAnd}, {Instruction::Or, OpOr}, {Instruction::Xor, OpXor},
      {Instruction::Shl, OpShl}, {Instruction::LShr, OpLShr}, {Instruction::AShr, OpAShr}};
  E x = toE(a, w), y = toE(b, w);
  if (isDiv) {
    E nz = mkNot(mkEq(y, mkConst(w, 0)));
    if (!nz->isTrue()) doAssert(s, nz, "division by zero", "arith");
  }
  return ev(mkBin(mp.at(opc), x, y));
}
Val Executor::icmp(unsigned pred, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t p = sx(x, w), q = sx(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return cv(x == y);
      case CmpInst::ICMP_NE: return cv(x != y);
      case CmpInst::ICMP_UGT: return cv(x > y);
      case CmpInst::ICMP_UGE: return cv(x >= y);
      case CmpInst::ICMP_ULT: return cv(x < y);
      case CmpInst::ICMP_ULE: return cv(x <= y);
      case CmpInst::ICMP_SGT: return cv(p > q);
      case CmpInst::ICMP_SGE: return cv(p >= q);
      case CmpInst::ICMP_SLT: return cv(p < q);
      case CmpInst::ICMP_SLE: return cv(p <= q);
    }
  }
  E x = toE(a, w), y = toE(b, w);
  auto ev = [&](E e) { if (e->isConst()) nNormal++; return ::ev(e); };
  switch (pred) {
    case CmpInst::ICMP_EQ: return ev(mkEq(x, y));
    case CmpInst::ICMP_NE: return ev(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: return ev(mkBin(OpUlt, y, x));
    case CmpInst::ICMP_UGE: return ev(mkNot(mkBin(OpUlt, x, y)));
    case CmpInst::ICMP_ULT: return ev(mkBin(OpUlt, x, y));
    case CmpInst::ICMP_ULE: return ev(mkNot(mkBin(OpUlt, y, x)));
    case CmpInst::ICMP_SGT: return ev(mkBin(OpSlt, y, x));
    case CmpInst::ICMP_SGE: return ev(mkNot(mkBin(OpSlt, x, y)));
    case CmpInst::ICMP_SLT: return ev(mkBin(OpSlt, x, y));
    case CmpInst::ICMP_SLE: return ev(mkNot(mkBin(OpSlt, y, x)));
  }
  throw Unsupported{"icmp"};
}

static Val addrAdd(const Val& p, uint64_t o) {
  if (!p.e) return cv(p.c + o);
  return ev(mkBin(OpAdd, p.e, mkConst(64, o)));
}

void Executor::step(State& s) {
  Frame& fr = s.stack.back();
  KInst& k = fr.f->code[fr.pc];
  nInstr++;
  s.steps++;
  if (s.steps > opt.maxSteps) { nStepLimit++; report(s, "nontermination", "path exceeds the step bound of " + std::to_string(opt.maxSteps) + " instructions"); throw PathEnd{"steplimit"}; }
  Instruction* I = k.I;
  auto op = [&](unsigned i, unsigned j = 0) -> const Val& { return get(s, fr, k.ops[k.opStart[i] + j]); };
  switch (k.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = binop(s, k.opc, k.w, op(0, j), op(1, j));
      fr.pc++;
      return;
    case Instruction::ICmp: {
      unsigned p = cast<ICmpInst>(I)->getPredicate();
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = icmp(p, k.ow, op(0, j), op(1, j));
      fr.pc++;
      return;
    }
    case Instruction::Select: {
      bool vecCond = I->getOperand(0)->getType()->isVectorTy();
      for (unsigned j = 0; j < k.nd; j++) {
        const Val& c = op(0, vecCond ? j : 0);
        std::vector<std::pair<Type*, uint64_t>> ls;
        unsigned w = k.w;
        if (k.nd > 1) { leafTypes(I->getType(), ls); w = leafWidth(ls[j].first); }
        if (c.e && opt.forkSelect && w >= 32 && !c.e->taint && k.nd == 1 && !concMode) { fr.regs[k.dest] = mustDecide(s, c.e) ? op(1) : op(2); continue; }
        if (!c.e) fr.regs[k.dest + j] = (c.c & 1) ? op(1, j) : op(2, j);
        else fr.regs[k.dest + j] = ev(mkIte(c.e, toE(op(1, j), w), toE(op(2, j), w)));
      }
      fr.pc++;
      return;
    }
    case Instruction::Br: {
      auto* br = cast<BranchInst>(I);
      if (br->isUnconditional()) { jump(s, fr, k.bb, br->getSuccessor(0)); return; }
      const Val& c = op(0);
      bool t = c.e ? mustDecide(s, c.e) : (c.c & 1);
      jump(s, s.stack.back(), k.bb, br->getSuccessor(t ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Val c = op(0);
      if (c.e) {
        // fork on the target selected by the model
        uint64_t v = (uint64_t)evalExpr(c.e, s.model);
        BasicBlock* tgt = sw->getDefaultDest();
        for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v) tgt = cs.getCaseSuccessor();
        E cond = nullptr;
        if (tgt == sw->getDefaultDest()) {
          cond = mkTrue();
          for (auto& cs : sw->cases()) if (cs.getCaseSuccessor() != tgt) cond = mkAnd(cond, mkNot(mkEq(c.e, mkConst(k.ow, cs.getCaseValue()->getZExtValue()))));
        } else {
          cond = mkFalse();
          for (auto& cs : sw->cases()) if (cs.getCaseSuccessor() == tgt) cond = mkOr(cond, mkEq(c.e, mkConst(k.ow, cs.getCaseValue()->getZExtValue())));
        }
        mustDecide(s, cond);
        jump(s, s.stack.back(), k.bb, tgt);
        return;
      }
      BasicBlock* tgt = sw->getDefaultDest();
      for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { tgt = cs.getCaseSuccessor(); break; }
      jump(s, fr, k.bb, tgt);
      return;
    }
    case Instruction::GetElementPtr: {
      if (k.nd != 1) throw Unsupported{"vector gep"};
      auto* gep = cast<GetElementPtrInst>(I);
      Val base = op(0);
      uint64_t coff = 0; E soff = nullptr;
      unsigned i = 1;
      for (auto it = gep_type_begin(gep); it != gep_type_end(gep); ++it, ++i) {
        const Val& x = op(i);
        if (StructType* st = it.getStructTypeOrNull()) coff += DL->getStructLayout(st)->getElementOffset((unsigned)x.c);
        else {
          uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
          unsigned iw = gep->getOperand(i)->getType()->getIntegerBitWidth();
          if (!x.e) coff += (uint64_t)sx(x.c, iw) * es;
          else { E t = mkBin(OpMul, mkSExt(x.e, 64), mkConst(64, es)); soff = soff ? mkBin(OpAdd, soff, t) : t; }
        }
      }
      Val r;
      if (!base.e && !soff) r = cv(base.c + coff);
      else {
        E e = toE(base, 64);
        if (soff) e = mkBin(OpAdd, e, soff);
        r = ev(mkBin(OpAdd, e, mkConst(64, coff)));
      }
      fr.regs[k.dest] = r;
      fr.pc++;
      return;
    }
    case Instruction::Load: {
      auto* ld = cast<LoadInst>(I);
      Val p = op(0);
      if (concMode && s.thr.size() > 1) { extern bool concLoad(Executor&, State&, KInst&, const Val&); if (concLoad(*this, s, k, p)) { s.stack.back().pc++; return; } }
      if (k.nd == 1) { Val v = load(s, p, k.w, ld->isAtomic()); s.stack.back().regs[k.dest] = v; }
      else {
        std::vector<std::pair<Type*, uint64_t>> ls; leafTypes(I->getType(), ls);
        for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = load(s, addrAdd(p, ls[j].second), leafWidth(ls[j].first));
      }
      s.stack.back().pc++;
      return;
    }
    case Instruction::Store: {
      auto* st = cast<StoreInst>(I);
      Val p = op(1);
      if (concMode && s.thr.size() > 1) { extern bool concStore(Executor&, State&, KInst&, const Val&, const Val&); if (concStore(*this, s, k, p, op(0))) { s.stack.back().pc++; return; } }
      std::vector<std::pair<Type*, uint64_t>> ls; leafTypes(st->getValueOperand()->getType(), ls);
      if (isa<UndefValue>(st->getValueOperand())) { fr.pc++; return; }
      for (unsigned j = 0; j < ls.size(); j++) store(s, addrAdd(p, ls[j].second), leafWidth(ls[j].first), op(0, j), st->isAtomic());
      s.stack.back().pc++;
      return;
    }
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I);
      uint64_t n = concretize(s, op(0), 64, "alloca");
      uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
      uint64_t a = alloc(s, sz, al->getAlign().value(), OkStack, I->hasName() ? strdup(I->getName().str().c_str()) : "stack", false);
      Frame& f2 = s.stack.back();
      f2.allocas.push_back(a);
      f2.regs[k.dest] = cv(a);
      f2.pc++;
      return;
    }
    case Instruction::ZExt:
      if (opt.forkSelect && k.nd == 1 && k.ow == 1 && k.w >= 32 && op(0).e && !op(0).e->taint) { fr.regs[k.dest] = cv(mustDecide(s, op(0).e)); fr.pc++; return; }
      for (unsigned j = 0; j < k.nd; j++) { const Val& a = op(0, j); fr.regs[k.dest + j] = a.e ? ev(mkZExt(a.e, k.w)) : k.w <= 64 ? a : ev(mkConst(k.w, a.c)); } fr.pc++; return;
    case Instruction::SExt: for (unsigned j = 0; j < k.nd; j++) { const Val& a = op(0, j); if (a.e || k.w > 64) fr.regs[k.dest + j] = ev(mkSExt(toE(a, k.ow), k.w)); else fr.regs[k.dest + j] = cv((uint64_t)sx(a.c, k.ow) & m64(k.w)); } fr.pc++; return;
    case Instruction::Trunc: for (unsigned j = 0; j < k.nd; j++) { const Val& a = op(0, j); if (a.e) fr.regs[k.dest + j] = ev(mkTrunc(a.e, k.w)); else fr.regs[k.dest + j] = cv(a.c & m64(k.w)); } fr.pc++; return;
    case Instruction::PtrToInt: { const Val& a = op(0); if (k.w < 64) fr.regs[k.dest] = a.e ? ev(mkTrunc(a.e, k.w)) : cv(a.c & m64(k.w)); else if (k.w > 64) fr.regs[k.dest] = ev(mkZExt(toE(a, 64), k.w)); else fr.regs[k.dest] = a; fr.pc++; return; }
    case Instruction::IntToPtr: { const Val& a = op(0); fr.regs[k.dest] = k.ow == 64 ? a : ev(k.ow < 64 ? mkZExt(toE(a, k.ow), 64) : mkTrunc(toE(a, k.ow), 64)); fr.pc++; return; }
    case Instruction::AddrSpaceCast: case Instruction::Freeze:
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = op(0, j);
      fr.pc++; return;
    case Instruction::BitCast: {
      unsigned nsrc = (unsigned)k.ops.size();
      if (nsrc == k.nd) { for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = op(0, j); }
      else if (k.nd == 1) { E e = toE(op(0, nsrc - 1), k.ow); for (int j = (int)nsrc - 2; j >= 0; j--) e = mkConcat(e, toE(op(0, j), k.ow)); fr.regs[k.dest] = ev(e); }
      else if (nsrc == 1) { E e = toE(op(0), k.ow); for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = ev(mkExtract(e, j * k.w, k.w)); }
      else throw Unsupported{"bitcast"};
      fr.pc++; return;
    }
    case Instruction::ExtractValue: {
      auto* x = cast<ExtractValueInst>(I);
      std::vector<std::pair<Type*, uint64_t>> ls;
      unsigned idx = 0; Type* t = x->getAggregateOperand()->getType();
      for (unsigned i : x->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < i; q++) { ls.clear(); leafTypes(st->getElementType(q), ls); idx += ls.size(); } t = st->getElementType(i); }
        else { auto* at = cast<ArrayType>(t); ls.clear(); leafTypes(at->getElementType(), ls); idx += ls.size() * i; t = at->getElementType(); }
      }
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = op(0, idx + j);
      fr.pc++; return;
    }
    case Instruction::InsertValue: {
      auto* x = cast<InsertValueInst>(I);
      std::vector<std::pair<Type*, uint64_t>> ls;
      unsigned idx = 0; Type* t = x->getAggregateOperand()->getType();
      for (unsigned i : x->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < i; q++) { ls.clear(); leafTypes(st->getElementType(q), ls); idx += ls.size(); } t = st->getElementType(i); }
        else { auto* at = cast<ArrayType>(t); ls.clear(); leafTypes(at->getElementType(), ls); idx += ls.size() * i; t = at->getElementType(); }
      }
      ls.clear(); leafTypes(t, ls);
      std::vector<Val> v(k.nd);
      for (unsigned j = 0; j < k.nd; j++) v[j] = op(0, j);
      for (unsigned j = 0; j < ls.size(); j++) v[idx + j] = op(1, j);
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = v[j];
      fr.pc++; return;
    }
    case Instruction::ExtractElement: { Val ix = op(1); if (ix.e) throw Unsupported{"symbolic extractelement"}; fr.regs[k.dest] = op(0, (unsigned)ix.c); fr.pc++; return; }
    case Instruction::InsertElement: {
      Val ix = op(2); if (ix.e) throw Unsupported{"symbolic insertelement"};
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = j == ix.c ? op(1) : op(0, j);
      fr.pc++; return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
      std::vector<Val> v(k.nd);
      for (unsigned j = 0; j < k.nd; j++) { int m = sv->getMaskValue(j); v[j] = m < 0 ? cv(0) : (unsigned)m < n ? op(0, m) : op(1, m - n); }
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = v[j];
      fr.pc++; return;
    }
    case Instruction::Ret: {
      std::vector<Val> vals;
      for (size_t j = 0; j < k.ops.size(); j++) vals.push_back(get(s, fr, k.ops[j]));
      doRet(s, std::move(vals));
      return;
    }
    case Instruction::Call: case Instruction::Invoke:
      execCall(s, fr, k);
      return;
    case Instruction::Unreachable:
      report(s, "ub", "reached unreachable code (undefined behaviour)");
      throw PathEnd{"violation"};
    case Instruction::LandingPad: case Instruction::Resume:
      throw Unsupported{"exception unwinding"};
    case Instruction::Fence:
      if (concMode && s.thr.size() > 1) { extern void concFence(Executor&, State&, KInst&); concFence(*this, s, k); }
      fr.pc++; return;
    case Instruction::AtomicRMW: {
      auto* rmw = cast<AtomicRMWInst>(I);
      Val p = op(0), v = op(1);
      unsigned w = k.w;
      if (concMode && s.thr.size() > 1) { extern bool concRMW(Executor&, State&, KInst&, const Val&, const Val&); if (concRMW(*this, s, k, p, v)) { s.stack.back().pc++; return; } }
      Val old = load(s, p, w, true);
      Val nv;
      switch (rmw->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, w, old, v); break;
        case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, w, old, v); break;
        case AtomicRMWInst::And: nv = binop(s, Instruction::And, w, old, v); break;
        case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, w, old, v); break;
        case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, w, old, v); break;
        case AtomicRMWInst::UMax: nv = ev(mkIte(mkUlt(toE(old, w), toE(v, w)), toE(v, w), toE(old, w))); break;
        case AtomicRMWInst::UMin: nv = ev(mkIte(mkUlt(toE(old, w), toE(v, w)), toE(old, w), toE(v, w))); break;
        default: throw Unsupported{"atomicrmw op"};
      }
      store(s, p, w, nv, true);
      Frame& f2 = s.stack.back();
      f2.regs[k.dest] = old; f2.pc++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* cx = cast<AtomicCmpXchgInst>(I);
      (void)cx;
      unsigned w = k.w;
      Val p = op(0), exp = op(1), nv = op(2);
      if (concMode && s.thr.size() > 1) { extern bool concCAS(Executor&, State&, KInst&, const Val&, const Val&, const Val&); if (concCAS(*this, s, k, p, exp, nv)) { s.stack.back().pc++; return; } }
      Val old = load(s, p, w, true);
      Val eq = icmp(CmpInst::ICMP_EQ, w, old, exp);
      if (eq.e) store(s, p, w, ev(mkIte(eq.e, toE(nv, w), toE(old, w))), true);
      else if (eq.c) store(s, p, w, nv, true);
      Frame& f2 = s.stack.back();
      f2.regs[k.dest] = old; f2.regs[k.dest + 1] = eq; f2.pc++;
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Op o = k.opc == Instruction::FAdd ? OpFAdd : k.opc == Instruction::FSub ? OpFSub : k.opc == Instruction::FMul ? OpFMul : k.opc == Instruction::FDiv ? OpFDiv : OpFRem;
      if (k.w == 80) throw Unsupported{"x86 long double"};
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = ev(mkFp(o, k.w, toE(op(0, j), k.w), toE(op(1, j), k.w)));
      fr.pc++; return;
    }
    case Instruction::FNeg: for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = ev(mkBin(OpXor, toE(op(0, j), k.w), mkConst(k.w, (u128)1 << (k.w - 1)))); fr.pc++; return;
    case Instruction::FCmp: {
      auto* fc = cast<FCmpInst>(I);
      for (unsigned j = 0; j < k.nd; j++) {
        if (k.ow == 80) throw Unsupported{"x86 long double"};
        E a = toE(op(0, j), k.ow), b = toE(op(1, j), k.ow), r;
        E un = mkOr(mkFp(OpFIsNan, 1, a, nullptr), mkFp(OpFIsNan, 1, b, nullptr));
        auto P = fc->getPredicate();
        switch (P) {
          case CmpInst::FCMP_FALSE: r = mkFalse(); break;
          case CmpInst::FCMP_TRUE: r = mkTrue(); break;
          case CmpInst::FCMP_OEQ: r = mkFp(OpFEq, 1, a, b); break;
          case CmpInst::FCMP_OLT: r = mkFp(OpFLt, 1, a, b); break;
          case CmpInst::FCMP_OLE: r = mkFp(OpFLe, 1, a, b); break;
          case CmpInst::FCMP_OGT: r = mkFp(OpFLt, 1, b, a); break;
          case CmpInst::FCMP_OGE: r = mkFp(OpFLe, 1, b, a); break;
          case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un), mkNot(mkFp(OpFEq, 1, a, b))); break;
          case CmpInst::FCMP_ORD: r = mkNot(un); break;
          case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = mkOr(un, mkFp(OpFEq, 1, a, b)); break;
          case CmpInst::FCMP_UNE: r = mkNot(mkFp(OpFEq, 1, a, b)); break;
          case CmpInst::FCMP_ULT: r = mkNot(mkFp(OpFLe, 1, b, a)); break;
          case CmpInst::FCMP_ULE: r = mkNot(mkFp(OpFLt, 1, b, a)); break;
          case CmpInst::FCMP_UGT: r = mkNot(mkFp(OpFLe, 1, a, b)); break;
          case CmpInst::FCMP_UGE: r = mkNot(mkFp(OpFLt, 1, a, b)); break;
          default: throw Unsupported{"fcmp"};
        }
        fr.regs[k.dest + j] = ev(r);
      }
      fr.pc++; return;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
      if (k.w == 80 || k.ow == 80) throw Unsupported{"x86 long double"};
      Op o = k.opc == Instruction::SIToFP ? OpSIToFP : k.opc == Instruction::UIToFP ? OpUIToFP : k.opc == Instruction::FPToSI ? OpFPToSI : k.opc == Instruction::FPToUI ? OpFPToUI : k.opc == Instruction::FPExt ? OpFPExt : OpFPTrunc;
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = ev(mkFp(o, k.w, toE(op(0, j), k.ow), nullptr));
      fr.pc++; return;
    }
    default:
      throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
}

Val Executor::intrinsic(State& s, Frame& fr, KInst& k, Function* F, bool& handled) {
  handled = true;
  auto op = [&](unsigned i, unsigned j = 0) -> const Val& { return get(s, fr, k.ops[k.opStart[i] + j]); };
  unsigned w = k.w;
  auto un = [&](std::function<Val(const Val&)> f) { for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = f(op(0, j)); };
  switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
      const Val& p = op(1);
      if (!p.e) { Object* o = objAt(s, p.c); if (o && o->kind == OkStack && p.c == o->base) {
        o = writable(s, o->id); o->born = s.steps; if (!o->sym && o->size) o->sym = (E*)malloc(o->size * sizeof(E)); for (uint64_t i = 0; i < o->size; i++) o->sym[i] = UNINIT; } }
      return Val();
    }
    case Intrinsic::var_annotation: return Val();
    case Intrinsic::invariant_start: fr.regs[k.dest] = cv(0); return Val();
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, op(0), op(1), op(2), true); return Val();
    case Intrinsic::memset: setMem(s, op(0), op(1), op(2)); return Val();
    case Intrinsic::threadlocal_address: fr.regs[k.dest] = concMode ? cv(tlsAddr(s, op(0).c)) : op(0); return Val();
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability:
      fr.regs[k.dest] = op(0); return Val();
    case Intrinsic::is_constant: fr.regs[k.dest] = cv(0); return Val();
    case Intrinsic::objectsize: fr.regs[k.dest] = cv(m64(w)); return Val();
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      auto id = F->getIntrinsicID();
      for (unsigned j = 0; j < k.nd; j++) {
        const Val &a = op(0, j), &b = op(1, j);
        Val lt = icmp(id == Intrinsic::umin || id == Intrinsic::umax ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, w, a, b);
        bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
        if (!lt.e) fr.regs[k.dest + j] = (lt.c != 0) == mn ? a : b;
        else fr.regs[k.dest + j] = ev(mn ? mkIte(lt.e, toE(a, w), toE(b, w)) : mkIte(lt.e, toE(b, w), toE(a, w)));
      }
      return Val();
    }
    case Intrinsic::abs: un([&](const Val& a) { E e = toE(a, w); return ev(mkIte(mkBin(OpSlt, e, mkConst(w, 0)), mkBin(OpSub, mkConst(w, 0), e), e)); }); return Val();
    case Intrinsic::ctpop: un([&](const Val& a) { if (!a.e) return cv(__builtin_popcountll(a.c)); E r = mkConst(w, 0); for (unsigned i = 0; i < w; i++) r = mkBin(OpAdd, r, mkZExt(mkExtract(a.e, i, 1), w)); return ev(r); }); return Val();
    case Intrinsic::ctlz: un([&](const Val& a) { if (!a.e) return cv(a.c ? __builtin_clzll(a.c) - (64 - w) : w); E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a.e, i, 1), mkConst(w, w - 1 - i), r); return ev(r); }); return Val();
    case Intrinsic::cttz: un([&](const Val& a) { if (!a.e) return cv(a.c ? __builtin_ctzll(a.c) : w); E r = mkConst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(a.e, i, 1), mkConst(w, i), r); return ev(r); }); return Val();
    case Intrinsic::bswap: un([&](const Val& a) { E x = toE(a, w), r = mkExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, i * 8, 8)); return ev(r); }); return Val();
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool left = F->getIntrinsicID() == Intrinsic::fshl;
      for (unsigned j = 0; j < k.nd; j++) {
        E a = toE(op(0, j), w), b = toE(op(1, j), w), c = toE(op(2, j), w);
        c = mkBin(OpURem, c, mkConst(w, w));
        E cc = mkConcat(a, b), c2 = mkZExt(c, 2 * w);
        if (2 * w > 128) throw Unsupported{"fsh width"};
        if (left) fr.regs[k.dest + j] = ev(mkExtract(mkBin(OpShl, cc, c2), w, w));
        else fr.regs[k.dest + j] = ev(mkExtract(mkBin(OpLShr, cc, c2), 0, w));
      }
      return Val();
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      auto id = F->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op o = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OpAdd : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? OpSub : OpMul;
      unsigned ww = o == OpMul ? 2 * w : w + 1;
      E a = toE(op(0), w), b = toE(op(1), w);
      E x = sg ? mkSExt(a, ww) : mkZExt(a, ww), y = sg ? mkSExt(b, ww) : mkZExt(b, ww);
      E full = mkBin(o, x, y), r = mkBin(o, a, b);
      E ov = mkNot(mkEq(full, sg ? mkSExt(r, ww) : mkZExt(r, ww)));
      fr.regs[k.dest] = ev(r); fr.regs[k.dest + 1] = ev(ov);
      return Val();
    }
    case Intrinsic::usub_sat: for (unsigned j = 0; j < k.nd; j++) { E a = toE(op(0, j), w), b = toE(op(1, j), w); fr.regs[k.dest + j] = ev(mkIte(mkUlt(a, b), mkConst(w, 0), mkBin(OpSub, a, b))); } return Val();
    case Intrinsic::uadd_sat: for (unsigned j = 0; j < k.nd; j++) { E a = toE(op(0, j), w), b = toE(op(1, j), w), r = mkBin(OpAdd, a, b); fr.regs[k.dest + j] = ev(mkIte(mkUlt(r, a), mkConst(w, maskw(w)), r)); } return Val();
    case Intrinsic::fabs: un([&](const Val& a) { return ev(mkBin(OpAnd, toE(a, w), mkConst(w, maskw(w - 1)))); }); return Val();
    case Intrinsic::sqrt: un([&](const Val& a) { return ev(mkFp(OpFSqrt, w, toE(a, w), nullptr)); }); return Val();
    case Intrinsic::fmuladd: for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = ev(mkFp(OpFAdd, w, mkFp(OpFMul, w, toE(op(0, j), w), toE(op(1, j), w)), toE(op(2, j), w))); return Val();
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::pow: case Intrinsic::log2: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::trunc: case Intrinsic::round: {
      Val a = op(0);
      if (w != 64) throw Unsupported{"libm width"}; if (a.e) a = cv(concretize(s, a, w, "libm argument"));
      double x; memcpy(&x, &a.c, 8); double y = 0;
      switch (F->getIntrinsicID()) { case Intrinsic::ceil: y = ceil(x); break; case Intrinsic::floor: y = floor(x); break; case Intrinsic::log2: y = log2(x); break; case Intrinsic::log: y = log(x); break; case Intrinsic::exp: y = exp(x); break; case Intrinsic::trunc: y = trunc(x); break; case Intrinsic::round: y = round(x); break;
        case Intrinsic::pow: { Val b = op(1); if (b.e) b = cv(concretize(s, b, 64, "libm argument")); double z; memcpy(&z, &b.c, 8); y = pow(x, z); break; } default: break; }
      uint64_t r; memcpy(&r, &y, 8); fr.regs[k.dest] = cv(r);
      return Val();
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
      report(s, F->getIntrinsicID() == Intrinsic::ubsantrap ? "ub" : "abort", F->getIntrinsicID() == Intrinsic::ubsantrap ? "undefined behaviour (sanitizer trap)" : "trap");
      throw PathEnd{"violation"};
    case Intrinsic::eh_typeid_for: fr.regs[k.dest] = cv(1); return Val();
    case Intrinsic::stacksave: fr.regs[k.dest] = cv(0); return Val();
    case Intrinsic::returnaddress: case Intrinsic::frameaddress: fr.regs[k.dest] = cv(0); return Val();
    default: break;
  }
  if (F->getName().starts_with("llvm.x86.sse2.pause")) return Val();
  handled = false;
  return Val();
}

void Executor::execCall(State& s, Frame& fr, KInst& k) {
  auto* cb = cast<CallBase>(k.I);
  Function* F = cb->getCalledFunction();
  size_t nargs = cb->arg_size();
  auto advance = [&]() {
    Frame& f2 = s.stack.back();
    if (auto* inv = dyn_cast<InvokeInst>(k.I)) jump(s, f2, k.bb, inv->getNormalDest());
    else f2.pc++;
  };
  if (!F) {
    if (cb->isInlineAsm()) {
      // compiler barriers and pause; no outputs supported
      if (k.nd) throw Unsupported{"inline asm with result"};
      advance(); return;
    }
    if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) F = cf;
    else {
      Val t = get(s, fr, k.ops[k.opStart[nargs]]);
      uint64_t a = concretize(s, t, 64, "call target");
      auto it = faddr.find(a >> 32);
      if (it == faddr.end() || gaddr[it->second] != a) { report(s, "memory", "call through an invalid function pointer"); throw PathEnd{"violation"}; }
      F = it->second;
    }
  }
  if (F->isIntrinsic()) {
    bool h; intrinsic(s, fr, k, F, h);
    if (!h) throw Unsupported{"intrinsic " + F->getName().str()};
    advance(); return;
  }
  std::vector<Val> args;
  size_t endOps = nargs < k.opStart.size() ? k.opStart[nargs] : k.ops.size();
  for (size_t j = 0; j < endOps; j++) args.push_back(get(s, fr, k.ops[j]));
  // byval arguments are copied
  for (unsigned i = 0; i < nargs; i++) if (cb->isByValArgument(i)) {
    uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
    uint64_t a = alloc(s, sz, 16, OkStack, "byval", false);
    copyMem(s, cv(a), args[k.opStart[i]], cv(sz), false);
    s.stack.back().allocas.push_back(a);
    args[k.opStart[i]] = cv(a);
  }
  auto hit = hcache.find(F);
  if (hit == hcache.end()) {
    auto it = handlers.find(F->getName().str());
    hit = hcache.emplace(F, it == handlers.end() ? nullptr : &it->second).first;
  }
  if (hit->second) {
    size_t depth = s.stack.size(); int pc = s.stack.back().pc;
    Val r = (*hit->second)(*this, s, args, k);
    if (s.stack.size() != depth || s.stack.back().pc != pc) return;  // handler pushed a frame or unwound
    if (k.dest >= 0) s.stack.back().regs[k.dest] = r;
    advance();
    return;
  }
  if (F->isVarArg() && F->getName() == "snprintf" && args.size() == 4 && !cb->getArgOperand(3)->getType()->isFloatingPointTy())
    if (Function* G = F->getParent()->getFunction("psym_snprintf")) {
      if (unsigned w = cb->getArgOperand(3)->getType()->isIntegerTy() ? cb->getArgOperand(3)->getType()->getIntegerBitWidth() : 0)
        if (w < 64) args[3] = ev(mkZExt(toE(args[3], w), 64));
      pushCall(s, G, args, k.dest);
      return;
    }
  if (F->isDeclaration()) throw Unsupported{"external function " + F->getName().str()};
  if (F->isVarArg()) throw Unsupported{"varargs function " + F->getName().str()};
  pushCall(s, F, args, k.dest);
}

void Executor::runState(std::unique_ptr<State> sp) {
  State& s = *sp;
  S.hint = &s.model;
  try {
    unsigned cnt = 0;
    while (true) {
      if ((++cnt & 0x3ff) == 0 && nowSec() - t0 > opt.timeBudget) { timedOut = true; nTruncated++; return; }
      try {
        if (s.pendingChoice >= 1000) schedule(s);
        step(s);
        if (s.sched) { s.sched = 0; schedule(s); }
      } catch (Restart&) {
      } catch (Switched&) {
      } catch (Yielded&) { schedule(s);
      } catch (PathEnd& p) { if (s.tid && p.reason == "return") threadEnd(s); else throw; }
      if (violations.size() >= opt.maxViolations) return;
    }
  } catch (PathEnd& p) {
    nPaths++;
    if (p.reason == "return" || p.reason == "exit") {
      nCompleted++;
      if (onThreadEnd) onThreadEnd(s);
      // completed paths number 1, 2, 4, 8, ... are kept with a model, for native validation
      if ((nCompleted & (nCompleted - 1)) == 0) {
        std::vector<std::pair<std::string, u128>> t;
        for (auto& i : s.inputs) t.push_back({i.first, evalExpr(i.second, s.model)});
        samples.push_back(t);
      }
    } else if (p.reason == "assume") nAssumeFail++;
  } catch (Unsupported& u) {
    nPaths++; nUnsupported++;
    std::string w = u.what + " @ " + curLoc(s);
    if (unsupportedWhat.insert(w).second && unsupportedWhat.size() <= 10) fprintf(stderr, "  [unsupported] %s\n", w.c_str());
  }
}
void Executor::exploreAll() {
  while (!work.empty()) {
    if (nowSec() - t0 > opt.timeBudget) { timedOut = true; nTruncated += work.size(); work.clear(); break; }
    if (violations.size() >= opt.maxViolations) { nTruncated += work.size(); work.clear(); break; }
    auto s = std::move(work.back());
    work.pop_back();
    runState(std::move(s));
  }
}

std::unique_ptr<State> Executor::makeInitial() {
  auto s = std::make_unique<State>();
  s->objs = initialObjs;
  // static constructors
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      for (unsigned i = 0; i < ca->getNumOperands(); i++) {
        auto* cs = cast<ConstantStruct>(ca->getOperand(i));
        if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) {
          if (F->isDeclaration()) continue;
          pushCall(*s, F, {}, -1);
          try { while (true) { try { step(*s); } catch (Restart&) {} } } catch (PathEnd& p) {
            if (p.reason != "return") { fprintf(stderr, "static constructor ended with %s\n", p.reason.c_str()); exit(3); }
          } catch (Unsupported& u) { fprintf(stderr, "static constructor: unsupported %s @ %s\n", u.what.c_str(), curLoc(*s).c_str()); s->stack.clear(); }
        }
      }
    }
  }
  s->stack.clear();
  s->steps = 0;
  s->leakMark = s->heapLive;
  return s;
}

void Executor::run() {
  auto s = makeInitial();
  Function* F = M->getFunction(opt.entry);
  if (!F) { fprintf(stderr, "entry %s not found\n", opt.entry.c_str()); exit(3); }
  pushCall(*s, F, {}, -1);
  work.push_back(std::move(s));
  exploreAll();
  for (auto& kv : kfuncs) if (kv.second->used) {
    for (auto& b : kv.second->blocks) if (b.covered) for (auto& I : *b.bb) {
      if (DILocation* d = I.getDebugLoc().get()) for (; d; d = d->getInlinedAt()) {
        if (auto* sp = d->getScope()->getSubprogram()) {
          std::string fn = sp->getFilename().str();
          if (fn.find("/parlay/") != std::string::npos || fn.find("include/parlay") != std::string::npos) {
            std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
            functions.insert(nm);
          }
        }
      }
    }
  }
}
