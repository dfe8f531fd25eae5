// External functions known to the executor: the psym interface, the allocator, and the
// parts of the C/C++ runtime that the code under analysis calls.
#include "exec.h"
#include <cmath>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
typedef std::vector<Val> Args;
#define H(name) handlers[name] = [](Executor & X, State & s, Args & a, KInst & k) -> Val

static Val ret0() { return cv(0); }

static Val doAlloc(Executor& X, State& s, const Val& sz, uint64_t align, bool zero, const char* nm, FreeKind) {
  uint64_t n = X.concretize(s, sz, 64, "allocation size");
  if (n > (1ull << 31)) {
    X.report(s, "memory", "allocation of an absurd size (" + std::to_string(n) + " bytes)");
    throw PathEnd{"violation"};
  }
  if (X.concMode && X.opt.reuse && s.thr.size() > 1) {
    Pend q; q.kind = PdAccess; q.write = true; q.addr = 0x1000 + n; q.size = 1; X.visible(s, q);
    s.granted = false; s.thr[s.tid].pend = Pend(); X.performed(s, 0x1000 + n, 1, true, s.tid);
    auto r = s.freed.equal_range(n);
    if (r.first != r.second) {           // the block freed last
      auto it = std::prev(r.second);
      uint64_t base = it->second.first;
      if (base % std::max<uint64_t>(align, 16) == 0) {
        s.thr[s.tid].vc.join(it->second.second);
        s.freed.erase(it);
        uint64_t nb = X.alloc(s, n, align, OkHeap, nm, zero);
        Object* o = X.objAt(s, nb);
        o->id = base >> 32; o->base = base;
        s.objs[base >> 32] = s.objs[nb >> 32];
        s.objs[nb >> 32] = ObjRef();
        return cv(base);
      }
    }
  }
  return cv(X.alloc(s, n, std::max<uint64_t>(align, 16), OkHeap, nm, zero));
}

void Executor::setupHandlers() {
  H("psym_engine") { return cv(1); };
  H("psym_u64") {
    uint64_t w = a[1].c;
    E e = X.fresh(s, X.readCStr(s, a[0].c), (unsigned)w, true);
    return ev(mkZExt(e, 64));
  };
  H("psym_range") {
    std::string nm = X.readCStr(s, a[0].c);
    uint64_t lo = X.concretize(s, a[1], 64, "range"), hi = X.concretize(s, a[2], 64, "range");
    if (lo > hi) throw PathEnd{"assume"};
    if (lo == hi) return cv(lo);
    unsigned n = s.nameCount[nm]++;
    if (n) nm += "#" + std::to_string(n);
    unsigned w = 1; while (w < 64 && (hi - lo) >> w) w++;
    static std::unordered_map<std::string, E> interned;
    E& y = interned[nm + ":" + std::to_string(lo) + ":" + std::to_string(hi)];
    if (!y) y = hi - lo == maskw(w) ? mkSym(nm, w) : mkSymRange(nm, w, 0, hi - lo);
    E e = mkBin(OpAdd, mkZExt(y, 64), mkConst(64, lo));
    s.inputs.push_back({nm, e});
    if (hi - lo != maskw(w)) X.addPath(s, mkUltRaw(y, mkConst(w, hi - lo + 1)));  // a fresh symbol is 0 in the model, so the model stays valid
    return ev(e);
  };
  H("psym_choose") {
    std::string nm = X.readCStr(s, a[0].c);
    uint64_t lo = X.concretize(s, a[1], 64, "choose"), hi = X.concretize(s, a[2], 64, "choose");
    if (lo > hi) throw PathEnd{"assume"};
    // fork-free splitting: remaining alternatives are pushed as copies of this state
    auto it = s.pendingChoice;
    uint64_t v = lo;
    if (it >= 0) { v = lo + (uint64_t)it; s.pendingChoice = -1; }
    if (v < hi) {
      auto ns = std::make_unique<State>(s);
      ns->pendingChoice = (long)(v - lo + 1);
      X.nForks++;
      X.work.push_back(std::move(ns));
    }
    unsigned n = s.nameCount[nm]++;
    if (n) nm += "#" + std::to_string(n);
    s.inputs.push_back({nm, mkConst(64, v)});
    return cv(v);
  };
  H("psym_assume") {
    E c = toE(a[0], 1);
    if (c->isTrue()) return ret0();
    if (c->isFalse()) throw PathEnd{"assume"};
    if (!evalExpr(c, s.model)) {
      Model m;
      SatRes r = X.S.check(s.path, c, &m);
      if (r == UNKNOWN) { X.solverUnknown = true; throw PathEnd{"unknown"}; }
      if (r == UNSAT) throw PathEnd{"assume"};
      s.model = m;
    }
    X.addPath(s, c);
    return ret0();
  };
  H("psym_assert_") {
    E c = toE(a[0], 1);
    if (c->taint) c = X.checkTaint(s, c, "asserted value");
    X.doAssert(s, c, X.readCStr(s, a[1].c), "assert");
    return ret0();
  };
  H("psym_sat") { return cv(X.mustDecide(s, toE(a[0], 1))); };
  H("psym_cover") {
    std::string nm = X.readCStr(s, a[0].c);
    if (!X.covers[nm]++) {
      std::string t;
      for (auto& i : s.inputs) { if (t.size() > 200) { t += "..."; break; } t += i.first + "=" + std::to_string((unsigned long long)evalExpr(i.second, s.model)) + " "; }
      X.coverSample[nm] = t;
    }
    return ret0();
  };
  H("psym_param") {
    auto it = X.opt.params.find(X.readCStr(s, a[0].c));
    return it == X.opt.params.end() ? a[1] : cv((uint64_t)it->second);
  };
  H("psym_catch") {
    uint64_t fn = X.concretize(s, a[0], 64, "call target");
    auto it = X.faddr.find(fn >> 32);
    if (it == X.faddr.end()) throw Unsupported{"psym_catch target"};
    X.pushCall(s, it->second, {a[1]}, k.dest);
    s.stack.back().catchMark = true;
    return ret0();
  };
  H("psym_heap_live") { return cv(s.heapLive); };
  H("psym_valid") {
    uint64_t p = X.concretize(s, a[0], 64, "pointer"), n = a[1].c;
    Object* o = X.objAt(s, p);
    if (a[1].e) {
      if (!(o && o->alive && o->kind != OkFunc && p >= o->base && p - o->base <= o->size)) return cv(0);
      return ev(mkUle(a[1].e, mkConst(64, o->size - (p - o->base))));
    }
    return cv(o && o->alive && o->kind != OkFunc && p >= o->base && p - o->base + n <= o->size);
  };
  H("psym_escape") { return ret0(); };
  H("psym_fork_begin") { X.regionBegin(s); return ret0(); };
  H("psym_fork_mid") { X.regionMid(s); return ret0(); };
  H("psym_fork_end") { X.regionEnd(s); return ret0(); };
  H("psym_symbolic") {
    std::string nm = X.readCStr(s, a[2].c);
    uint64_t n = X.concretize(s, a[1], 64, "size");
    for (uint64_t i = 0; i < n; i++) {
      E e = X.fresh(s, nm + "[" + std::to_string(i) + "]", 8, true);
      Val p = a[0].e ? ev(mkBin(OpAdd, a[0].e, mkConst(64, i))) : cv(a[0].c + i);
      X.store(s, p, 8, ev(e));
    }
    return ret0();
  };

  // allocation
  H("malloc") { return doAlloc(X, s, a[0], 16, false, "malloc", FkMalloc); };
  H("calloc") { uint64_t n = X.concretize(s, a[0], 64, "size"), m = X.concretize(s, a[1], 64, "size"); return doAlloc(X, s, cv(n * m), 16, true, "calloc", FkMalloc); };
  H("aligned_alloc") { uint64_t al = X.concretize(s, a[0], 64, "align"); return doAlloc(X, s, a[1], al, false, "aligned_alloc", FkMalloc); };
  H("posix_memalign") {
    uint64_t al = X.concretize(s, a[1], 64, "align");
    Val p = doAlloc(X, s, a[2], al, false, "posix_memalign", FkMalloc);
    X.store(s, a[0], 64, p);
    return cv(0);
  };
  H("realloc") {
    uint64_t p = X.concretize(s, a[0], 64, "pointer"), n = X.concretize(s, a[1], 64, "size");
    Val q = doAlloc(X, s, cv(n), 16, false, "realloc", FkMalloc);
    if (p) {
      Object* o = X.objAt(s, p);
      if (!o || o->kind != OkHeap || o->base != p) { X.report(s, "memory", "realloc of an invalid pointer"); throw PathEnd{"violation"}; }
      X.copyMem(s, q, cv(p), cv(std::min<uint64_t>(n, o->size)), false);
      X.freeObj(s, cv(p), "realloc");
    }
    return q;
  };
  H("free") { X.freeObj(s, a[0], "free"); return ret0(); };
  auto opnew = [](Executor& X, State& s, Args& a, KInst&) -> Val { return doAlloc(X, s, a[0], 16, false, "operator new", FkNew); };
  auto opnewAl = [](Executor& X, State& s, Args& a, KInst&) -> Val { return doAlloc(X, s, a[0], X.concretize(s, a[1], 64, "align"), false, "operator new", FkNew); };
  for (auto n : {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) handlers[n] = opnew;
  for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t"}) handlers[n] = opnewAl;
  auto opdel = [](Executor& X, State& s, Args& a, KInst&) -> Val { X.freeObj(s, a[0], "operator delete"); return cv(0); };
  auto opdelSz = [](Executor& X, State& s, Args& a, KInst&) -> Val {
    uint64_t p = X.concretize(s, a[0], 64, "free"), n = X.concretize(s, a[1], 64, "size");
    Object* o = p ? X.objAt(s, p) : nullptr;
    if (o && o->kind == OkHeap && o->base == p && o->size != n) {
      X.report(s, "memory", "sized delete of " + std::to_string(n) + " bytes on a block of " + std::to_string(o->size));
      throw PathEnd{"violation"};
    }
    X.freeObj(s, cv(p), "operator delete");
    return cv(0);
  };
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) handlers[n] = opdel;
  for (auto n : {"_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) handlers[n] = opdelSz;

  // abnormal termination
  H("__assert_fail") {
    X.report(s, "assert", "assertion failed: " + X.readCStr(s, a[0].c));
    throw PathEnd{"violation"};
  };
  for (auto n : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual"})
    handlers[n] = [n](Executor& X, State& s, Args&, KInst&) -> Val { X.report(s, "abort", std::string("call of ") + n); throw PathEnd{"violation"}; };
  H("exit") { throw PathEnd{"exit"}; };
  H("__cxa_throw") {
    std::string t = "?";
    auto it = X.gvars.find(a[1].c >> 32);
    if (it != X.gvars.end()) t = llvm::demangle(it->second->getName().str());
    X.doThrow(s, t);
    return ret0();
  };
  H("__cxa_rethrow") { X.doThrow(s, "rethrow"); return ret0(); };
  H("__cxa_allocate_exception") { return cv(X.alloc(s, std::max<uint64_t>(a[0].c, 16), 16, OkExt, "exception", false)); };
  H("__cxa_free_exception") { return ret0(); };
  H("__cxa_begin_catch") { return a[0]; };
  H("__cxa_end_catch") { return ret0(); };
  for (auto& F : *M) {
    std::string n = F.getName().str();
    if (n.compare(0, 10, "_ZSt20__thr") == 0 || n.compare(0, 8, "_ZSt17__") == 0 || n.find("__throw_") != std::string::npos ||
        n.find("throw_exception_or_terminate") != std::string::npos) {
      if (n.find("__throw_") == std::string::npos && n.find("throw_exception") == std::string::npos) continue;
      handlers[n] = [n](Executor& X, State& s, Args&, KInst&) -> Val { X.doThrow(s, llvm::demangle(n)); return cv(0); };
    }
  }
  for (auto n : {"_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc",
                 "_ZNSt12length_errorC1EPKc", "_ZNSt9bad_allocC1Ev", "_ZNSt9bad_allocC2Ev", "_ZNSt13runtime_errorC2EPKc", "_ZNSt12out_of_rangeC2EPKc", "_ZNSt9bad_allocD1Ev",
                 "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12length_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                 "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"})
    handlers[n] = [](Executor&, State&, Args&, KInst&) -> Val { return cv(0); };

  // runtime
  H("__cxa_guard_acquire") { Val g = X.load(s, a[0], 8); return cv(g.c ? 0 : 1); };
  H("__cxa_guard_release") { X.store(s, a[0], 8, cv(1)); return ret0(); };
  H("__cxa_guard_abort") { return ret0(); };
  for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "sched_yield", "usleep", "nanosleep",
                 "pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt6thread20hardware_concurrencyEv", "setvbuf", "fflush", "puts", "printf", "fprintf", "fputs", "fwrite", "fputc", "putchar"})
    handlers[n] = [](Executor&, State&, Args&, KInst&) -> Val { return cv(0); };
  H("_ZNSt6thread20hardware_concurrencyEv") { return cv(8); };
  H("getenv") { return ret0(); };
  H("sysconf") {
    // memory size queries: 4 GiB of 4 KiB pages
    auto it = X.opt.params.find("pages");
    return cv(a[0].c == 30 ? 4096 : a[0].c == 85 ? (it == X.opt.params.end() ? 1u << 20 : (uint64_t)it->second) : 8);
  };
  H("__errno_location") {
    return cv(X.alloc(s, 16, 16, OkExt, "errno", true));
  };
  auto clk = [](Executor& X, State& s, Args&, KInst&) -> Val {
    if (s.thr.size() > 1 && s.thr[s.tid].parent < 1000) s.thr[s.tid].parent += 1000;   // reads the time
    if (X.concMode) {      // either (almost) no time has passed since the last reading, or more than every time limit
      E b = X.fresh(s, "late", 1, true);
      E d = mkIte(b, mkConst(64, 1ull << 34), mkConst(64, 0));
      E v = s.clockLast ? mkBin(OpAdd, s.clockLast, d) : d;
      s.clockLast = v;
      return ev(v);
    }
    E e = X.fresh(s, "clock", 40, true);
    E v = mkZExt(e, 64);
    if (s.clockLast) { E c = mkUle(s.clockLast, v); Model m; if (!evalExpr(c, s.model)) { if (!X.feasible(s, c, &m)) throw PathEnd{"unknown"}; s.model = m; } X.addPath(s, c); }
    s.clockLast = v;
    return ev(v);
  };
  handlers["_ZNSt6chrono3_V212system_clock3nowEv"] = clk;
  handlers["_ZNSt6chrono3_V212steady_clock3nowEv"] = clk;
  H("__dynamic_cast") { throw Unsupported{"dynamic_cast"}; };

  // libm on concrete values
  struct FM { const char* n; double (*f)(double); };
  static const FM fms[] = {{"log", log}, {"log2", log2}, {"exp", exp}, {"sqrt", sqrt}, {"ceil", ceil}, {"floor", floor}, {"log10", log10}, {"round", round}};
  for (auto& fm : fms) {
    auto f = fm.f;
    handlers[fm.n] = [f](Executor& X, State& s, Args& a, KInst&) -> Val {
      if (a[0].e) a[0] = cv(X.concretize(s, a[0], 64, "libm argument"));
      double x; memcpy(&x, &a[0].c, 8); x = f(x); uint64_t r; memcpy(&r, &x, 8); return cv(r);
    };
  }
  H("pow") {
    for (int i = 0; i < 2; i++) if (a[i].e) a[i] = cv(X.concretize(s, a[i], 64, "libm argument"));
    double x, y; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); x = pow(x, y); uint64_t r; memcpy(&r, &x, 8); return cv(r);
  };
  setupConcHandlers();
}
