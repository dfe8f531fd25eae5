// Threads. Each thread of the program under analysis is executed symbolically up to its next
// visible operation (an atomic access, a lock, a futex call, a join); which thread goes next is a
// choice of the schedule, on which the state forks. Sleep sets drop schedules that differ only in
// the order of independent operations. Plain accesses are checked against the C++ happens-before
// relation with vector clocks, so that two conflicting accesses that are not ordered by
// release/acquire synchronisation are reported whatever the explored order is. In TSO mode atomic
// stores weaker than seq_cst go through a store buffer whose entries reach memory at any later
// point, in order.
#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;
typedef std::vector<Val> Args;
#define H(name) handlers[name] = [](Executor & X, State & s, Args & a, KInst & k) -> Val

static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool overlap(uint64_t a, unsigned n, uint64_t b, unsigned m) { return a < b + m && b < a + n; }

// ---- happens-before

void Executor::concAccess(State& s, uint64_t id, uint64_t off, unsigned n, bool write, bool atomic, bool isFree) {
  if (!n) return;
  if (s.shadow.size() <= id) s.shadow.resize(id + 64);
  ShRef& r = s.shadow[id];
  Object* o = s.objs[id].p;
  if (!r.p) { r = ShRef(new Shadow()); r.p->b.resize(o->size); memset(r.p->b.data(), 0, o->size * sizeof(ShByte)); }
  else if (r.p->rc > 1) { auto* c = new Shadow(); c->b = r.p->b; r = ShRef(c); }
  int me = s.tid; VC& vc = s.thr[me].vc; int T = (int)s.thr.size();
  for (uint64_t i = off; i < off + n; i++) {
    ShByte& b = r.p->b[i];
    for (int u = 0; u < T; u++) {
      if (u == me) continue;
      uint16_t c = vc.c[u];
      bool race = b.w[u] > c || (!atomic && b.aw[u] > c) || (write && b.r[u] > c) || (write && !atomic && b.ar[u] > c);
      nRaceChecks++;
      if (race) {
        char buf[260];
        bool prevW = b.w[u] > c || b.aw[u] > c;
        snprintf(buf, 260, isFree ? "%s of byte %ld of '%s' is not ordered before its deallocation by another thread" : "unsynchronised %s and concurrent access to byte %ld of '%s' (data race)",
                 isFree ? (prevW ? "write" : "read") : (prevW ? "write" : "read"), (long)i, o->name);
        report(s, isFree ? "memory" : "race", buf);
        i = off + n; break;
      }
    }
    if (i < off + n) {
      uint16_t now = vc.c[me];
      if (write) { (atomic ? b.aw : b.w)[me] = now; if (!atomic) b.r[me] = 0; }
      else (atomic ? b.ar : b.r)[me] = now;
    }
  }
}
static void acquire(State& s, uint64_t addr, AtomicOrdering o) {
  auto it = s.sync.find(addr);
  if (it == s.sync.end()) return;
  Thread& t = s.thr[s.tid];
  if (isAcq(o)) t.vc.join(it->second); else t.acqP.join(it->second);
}
static void tick(State& s) { Thread& t = s.thr[s.tid]; t.vc.c[s.tid]++; }
static void release(State& s, uint64_t addr, AtomicOrdering o, bool rmw) {
  Thread& t = s.thr[s.tid];
  const VC& v = isRel(o) ? t.vc : t.relF;
  if (rmw) s.sync[addr].join(v); else s.sync[addr] = v;
  tick(s);
}

// ---- schedule

static void park(State& s) {
  auto& p = s.thr[s.tid].stack;
  if (p) return;
  p = std::make_shared<std::vector<Frame>>(std::move(s.stack));
  s.stack.clear();
}
void Executor::switchTo(State& s, int t) {
  if (s.tid != t) { park(s); s.tid = t; }
  auto& p = s.thr[t].stack;
  if (!p) return;
  if (p.use_count() > 1) { auto copy = *p; copy.swap(*p); s.stack = std::move(copy); }   // this state keeps the buffer
  else s.stack = std::move(*p);
  p.reset();
}
// Called before a visible operation: returns when the schedule has chosen it.
void Executor::visible(State& s, const Pend& p) {
  if (s.granted) return;
  int me = s.tid;
  s.thr[me].pend = p;
  schedule(s);
  if (s.tid != me || !s.granted) throw Switched{};
}
static bool conflict(const DEv& a, const DEv& b) { return (a.write || b.write) && overlap(a.addr, a.size, b.addr, b.size); }
// Explore thread t as an alternative at choice d.
void Executor::dporBranch(const std::shared_ptr<DNode>& dp, int t) {
  DNode& d = *dp;
  if (d.back >> t & 1) return;
  if (!(d.sleep >> t & 1)) {
    auto ns = std::make_unique<State>(*d.st);
    ns->pendingChoice = 1000 + t;
    ns->sleep = d.sleep | d.back; ns->node = dp;
    nSwitchForks++;
    work.push_back(std::move(ns));
  }
  d.back |= 1u << t;
}
// The current thread has performed an operation: look for earlier conflicting operations that it
// could have preceded, and make sure that the reverse order is explored too.
void Executor::dporEvent(State& s, uint64_t addr, unsigned n, bool write) {
  auto e = std::make_shared<DEv>();
  int q = s.tid;
  e->t = q; e->addr = addr; e->size = n; e->write = write; e->node = s.node; 
  VC cur = s.thr[q].dep;
  thread_local std::vector<DEv*> tr; tr.clear();
  for (DEv* p = s.trace.get(); p; p = p->prev.get()) tr.push_back(p);   // latest first
  for (size_t i = 0; i < tr.size(); i++) {
    DEv& f = *tr[i];
    if (f.t == q || !conflict(f, *e) || f.idx <= cur.c[f.t]) continue;
    cur.join(f.clk);
    if (!f.node) continue;
    DNode& d = *f.node;
    // the operations after f that do not depend on it, and this one: which threads can start them?
    VC before = s.thr[q].dep; bool qFirst = true; uint32_t seenT = 0, init = 0;
    std::vector<DEv*> v;
    for (size_t j = i; j-- > 0;) {
      DEv& g = *tr[j];
      if (g.clk.c[f.t] >= f.idx) continue;
      bool hb = false;
      for (auto* h : v) if (g.clk.c[h->t] >= h->idx) { hb = true; break; }
      if (!hb && !(seenT >> g.t & 1)) init |= 1u << g.t;
      seenT |= 1u << g.t;
      if (g.t == q) qFirst = false;
      v.push_back(&g);
    }
    if (qFirst) {
      bool hb = false;
      for (auto* h : v) if (before.c[h->t] >= h->idx || conflict(*h, *e)) { hb = true; break; }
      if (!hb) init |= 1u << q;
    }
    if (init & (d.back | d.sleep)) continue;
    int pick = init >> q & 1 ? q : init ? __builtin_ctz(init) : -1;
    if (pick >= 0 && (d.en >> pick & 1)) dporBranch(f.node, pick);
    else for (int t = 0; t < MAXT; t++) if (d.en >> t & 1) dporBranch(f.node, t);
  }
  cur.c[q]++; e->idx = cur.c[q]; e->clk = cur;
  s.thr[q].dep = cur;
  e->prev = s.trace;
  s.trace = std::move(e);
}
void Executor::performed(State& s, uint64_t addr, unsigned n, bool write, int actor) {
  if (opt.dpor && opt.preempt < 0 && !tso) dporEvent(s, addr, n, write);
  if (s.sleep) for (int u = 0; u < (int)s.thr.size(); u++) {
    if (s.sleep >> u & 1) {
      Pend& p = s.thr[u].pend;
      if ((p.kind == PdAccess || p.kind == PdLock) && overlap(p.addr, p.size, addr, n) && (write || p.write)) s.sleep &= ~(1u << u);
    }
    if (s.sleep >> (16 + u) & 1) {
      auto& b = s.thr[u].buf;
      if (b.empty() || overlap(b[0].addr, b[0].w / 8, addr, n)) s.sleep &= ~(1u << (16 + u));
    }
  }
  for (int u = 0; u < (int)s.thr.size(); u++) if (u == actor) {
    Thread& t = s.thr[u];
    if (write) t.wrote = true;
    if (!write || actor == s.tid) t.foot.push_back({addr, n});
  } else {
    Thread& t = s.thr[u];
    if (write && !t.dirty) for (auto& f : t.foot) if (overlap(f.first, f.second, addr, n)) { t.dirty = true; break; }
  }
}
static void done(State& s) { s.granted = false; s.thr[s.tid].pend = Pend(); }

void Executor::flushOne(State& s, int t) {
  BufEnt e = s.thr[t].buf.front();
  s.thr[t].buf.erase(s.thr[t].buf.begin());
  Object* o = objAt(s, e.addr);
  if (o && o->alive && e.addr - o->base + e.w / 8 <= o->size) {
    o = writable(s, o->id);
    writeVal(s, o, e.addr - o->base, e.w, e.v);
    s.sync[e.addr] = e.rel;
  }
  performed(s, e.addr, e.w / 8, true, t);
}

void Executor::schedule(State& s) {
  s.granted = false;
  while (true) {
    int T = (int)s.thr.size();
    int act = -1;
    if (s.pendingChoice >= 1000) { act = (int)s.pendingChoice - 1000; s.pendingChoice = -1; }
    else {
      for (int t = 0; t < T; t++) if (s.thr[t].st == ThRun && s.thr[t].pend.kind == PdNone) { switchTo(s, t); return; }
      std::vector<int> en;
      auto enabled = [&](int t) {
        Thread& th = s.thr[t];
        if (th.st != ThRun) return false;
        Pend& p = th.pend;
        if (p.needEmpty && !th.buf.empty()) return false;
        switch (p.kind) {
          case PdJoin: return s.thr[p.target].st == ThDone && s.thr[p.target].buf.empty();
          case PdJoinAll: for (int u = 1; u < T; u++) if (u != t && (s.thr[u].st != ThDone || !s.thr[u].buf.empty())) return false; return true;
          case PdLock: { auto it = s.mutexes.find(p.addr); return it == s.mutexes.end() || it->second < 0; }
          case PdYield: return th.dirty && !s.quiet;
          case PdReady: return s.ready >= p.addr;
          case PdFence: return th.buf.empty();
          default: return true;
        }
      };
      if (enabled(s.tid)) en.push_back(s.tid);
      for (int t = 0; t < T; t++) if (t != s.tid && enabled(t)) en.push_back(t);
      for (int t = 0; t < T; t++) if (!s.thr[t].buf.empty()) en.push_back(16 + t);
      // a waiting loop that also writes (it repeats a notification, say) may go round again
      if (en.empty()) for (int t = 0; t < T; t++) { Thread& th = s.thr[t]; if (th.st == ThRun && th.pend.kind == PdYield && (th.wrote || s.quiet) && th.again < 3) { th.again++; en.push_back(t); break; } }
      // a sleep with a time limit ends when nothing else happens
      if (en.empty() && s.timeouts) for (int t = 0; t < T; t++) { Thread& th = s.thr[t]; if (th.st == ThFutex && th.timed && th.timedOut < 3) { th.timedOut++; th.st = ThRun; switchTo(s, t); return; } }
      if (en.empty()) {
        // every thread waits; time-bounded waits end on another path
        std::string w;
        for (int t = 0; t < T; t++) if (s.thr[t].st == ThRun && s.thr[t].pend.kind == PdYield && s.thr[t].pend.target == 1) throw PathEnd{"unfair"};
        for (int t = 0; t < T; t++) if (s.thr[t].st != ThDone) {
          auto k = s.thr[t].pend.kind;
          w += " thread " + std::to_string(t) + (s.thr[t].st == ThFutex ? " sleeps" : k == PdYield ? " spins" : k == PdLock ? " waits for a lock" : k == PdJoin || k == PdJoinAll ? " joins" : " waits");
        }
        report(s, "deadlock", "no thread can make progress:" + w);
        throw PathEnd{"violation"};
      }
      std::vector<int> c;
      bool quiet = s.quiet && !(s.readyN && s.ready >= s.readyN && s.ready < 2 * s.readyN);
      for (int t : en) if (t < 16 && s.thr[t].pend.kind == PdReady) { c.assign(1, t); quiet = true; break; }
      if (quiet) { s.sleep = 0; if (c.empty()) c.push_back(en[0]); }
      else if (opt.preempt < 0) { for (int t : en) if (!(s.sleep >> t & 1)) c.push_back(t); }
      else {
        bool curEn = en[0] == s.tid;
        for (int t : en) if (!curEn || t == s.tid || t >= 16 || s.preempt < opt.preempt) c.push_back(t);
      }
      if (c.empty()) { nSleepPruned++; throw PathEnd{"sleep"}; }
      if (s.nVisible >= (unsigned)opt.maxVisible) { nBounded++; throw PathEnd{"bound"}; }
      s.node = nullptr;
      if (opt.dpor && opt.preempt < 0 && !tso && !quiet && en.size() > 1) {
        bool plain = true;
        for (auto& t : s.thr) if (t.st != ThDone) { auto k = t.pend.kind; if (t.st == ThFutex || (k != PdAccess && k != PdJoin && k != PdJoinAll && k != PdReady)) plain = false; }
        auto d = std::make_shared<DNode>();
        park(s);
        d->st = std::make_unique<State>(s);
        for (int t : en) d->en |= 1u << t;
        d->sleep = s.sleep;
        d->back = 1u << c[0];
        s.node = d;
        if (!plain) for (size_t i = 1; i < c.size(); i++) dporBranch(d, c[i]);
        c.resize(1);
      }
      if (c.size() > 1) park(s);
      bool curEn = !quiet && en[0] == s.tid;
      for (size_t i = c.size(); i-- > 1;) {
        auto ns = std::make_unique<State>(s);
        ns->pendingChoice = 1000 + c[i];
        if (opt.preempt < 0) for (size_t j = 0; j < i; j++) ns->sleep |= 1u << c[j];
        else if (curEn && c[i] < 16 && c[i] != s.tid) ns->preempt++;
        nSwitchForks++;
        work.push_back(std::move(ns));
      }
      act = c[0];
      if (opt.preempt >= 0 && curEn && act < 16 && act != s.tid) s.preempt++;
    }
    s.nVisible++; nVisible++;
    s.schedule.push_back((uint8_t)act);
    if (act >= 16) { flushOne(s, act - 16); continue; }
    switchTo(s, act);
    s.granted = true;
    return;
  }
}

// The current thread's stack is empty. Returns when there is something to run.
bool Executor::threadEnd(State& s) {
  Thread& t = s.thr[s.tid];
  if (!t.dtors.empty()) {
    auto d = t.dtors.back(); t.dtors.pop_back();
    pushCall(s, faddr.at(d.first >> 32), {cv(d.second)}, -1);
    return true;
  }
  t.st = ThDone; t.pend = Pend();
  schedule(s);
  return true;
}
int Executor::spawn(State& s, Function* F, const std::vector<Val>& args) {
  concMode = true;
  if (s.thr.empty()) { s.thr.resize(1); s.thr[0].vc.c[0] = 1; s.tid = 0; }
  int t = (int)s.thr.size();
  if (t >= MAXT) throw Unsupported{"too many threads"};
  s.thr.emplace_back();
  Thread& n = s.thr[t];
  n.vc = s.thr[s.tid].vc; n.vc.c[t] = 1; n.dep = s.thr[s.tid].dep; n.parent = s.tid;
  tick(s);
  // build the first frame on a scratch stack
  std::vector<Frame> keep; keep.swap(s.stack);
  pushCall(s, F, args, -1);
  s.thr[t].stack = std::make_shared<std::vector<Frame>>(std::move(s.stack));
  s.stack = std::move(keep);
  return t;
}
uint64_t Executor::tlsAddr(State& s, uint64_t ga) {
  if (s.thr.size() < 2 || s.tid == 0) return ga;
  auto key = std::make_pair(ga, s.tid);
  auto it = s.tls.find(key);
  if (it != s.tls.end()) return it->second;
  auto gv = gvars.find(ga >> 32);
  if (gv == gvars.end()) return ga;
  const GlobalVariable* G = gv->second;
  uint64_t sz = DL->getTypeAllocSize(G->getValueType());
  uint64_t a = alloc(s, sz, G->getAlign() ? G->getAlign()->value() : 16, OkGlobal, strdup(G->getName().str().c_str()), true);
  if (G->hasInitializer()) writeInit(objAt(s, a), 0, G->getInitializer());
  return s.tls[key] = a;
}

// ---- memory operations (hooks of the executor, only called when there are several threads)

static void drain(Executor& X, State& s) {
  if (X.tso && !s.thr[s.tid].buf.empty() && !s.granted) { Pend p; p.kind = PdFence; X.visible(s, p); }
}
static bool validAccess(Executor& X, State& s, uint64_t a, unsigned n, bool write) {
  Object* o = X.objAt(s, a);
  return o && o->alive && a >= o->base && a - o->base + n <= o->size && o->kind != OkFunc && !(write && o->readonly);
}
static int bufHit(State& s, uint64_t a, unsigned n, bool* exact) {
  auto& b = s.thr[s.tid].buf;
  for (size_t i = b.size(); i-- > 0;) if (overlap(b[i].addr, b[i].w / 8, a, n)) { *exact = b[i].addr == a && b[i].w / 8 == n; return (int)i; }
  return -1;
}
static void atomicShadow(Executor& X, State& s, uint64_t a, unsigned n, bool write) {
  Object* o = X.objAt(s, a);
  if (o->kind != OkExt && !o->readonly) X.concAccess(s, o->id, a - o->base, n, write, true);
}

bool concLoad(Executor& X, State& s, KInst& k, const Val& p) {
  auto* ld = cast<LoadInst>(k.I);
  uint64_t a = X.concretize(s, p, 64, "address");
  unsigned n = (k.w + 7) / 8;
  if (!ld->isAtomic()) {
    if (p.e) { Val v; (void)v; }
    bool ex;
    if (X.tso && bufHit(s, a, n, &ex) >= 0) { drain(X, s); if (s.granted) done(s); }
    if (k.nd != 1) return false;
    Val v = X.load(s, cv(a), k.w, false);
    s.stack.back().regs[k.dest] = v;
    return true;
  }
  if (!validAccess(X, s, a, n, false)) { X.load(s, cv(a), k.w, true); throw PathEnd{"violation"}; }
  Object* ro = X.objAt(s, a);
  if (ro->readonly) return false;
  if (X.tso) {
    bool ex; int h = bufHit(s, a, n, &ex);
    if (h >= 0 && ex) { s.stack.back().regs[k.dest] = s.thr[s.tid].buf[h].v; return true; }
    if (h >= 0) { Pend q; q.kind = PdAccess; q.addr = a; q.size = n; q.needEmpty = true; X.visible(s, q); }
  }
  Pend q; q.kind = PdAccess; q.addr = a; q.size = n;
  X.visible(s, q);
  Val v = X.load(s, cv(a), k.w, true);
  s.stack.back().regs[k.dest] = v;
  atomicShadow(X, s, a, n, false);
  acquire(s, a, ld->getOrdering());
  done(s);
  X.performed(s, a, n, false, s.tid);
  return true;
}
bool concStore(Executor& X, State& s, KInst& k, const Val& p, const Val& v) {
  auto* st = cast<StoreInst>(k.I);
  uint64_t a = X.concretize(s, p, 64, "address");
  if (!st->isAtomic()) {
    bool ex;
    if (X.tso && bufHit(s, a, 8, &ex) >= 0) { drain(X, s); if (s.granted) done(s); }
    if (p.e) {
      std::vector<std::pair<Type*, uint64_t>> ls; X.leafTypes(st->getValueOperand()->getType(), ls);
      if (ls.size() != 1) return false;
      X.store(s, cv(a), X.leafWidth(ls[0].first), v, false);
      return true;
    }
    return false;
  }
  unsigned w = X.leafWidth(st->getValueOperand()->getType()), n = (w + 7) / 8;
  if (!validAccess(X, s, a, n, true)) { X.store(s, cv(a), w, v, true); throw PathEnd{"violation"}; }
  if (X.tso && st->getOrdering() != AtomicOrdering::SequentiallyConsistent) {
    Thread& t = s.thr[s.tid];
    atomicShadow(X, s, a, n, true);
    t.buf.push_back({a, n * 8, v, isRel(st->getOrdering()) ? t.vc : t.relF});
    if (v.e && v.e->width < n * 8) t.buf.back().v = ev(mkZExt(v.e, n * 8));
    tick(s);
    return true;
  }
  Pend q; q.kind = PdAccess; q.write = true; q.addr = a; q.size = n; q.needEmpty = X.tso;
  X.visible(s, q);
  X.store(s, cv(a), w, v, true);
  atomicShadow(X, s, a, n, true);
  release(s, a, st->getOrdering(), false);
  done(s);
  X.performed(s, a, n, true, s.tid);
  return true;
}
bool concRMW(Executor& X, State& s, KInst& k, const Val& p, const Val& v) {
  auto* rmw = cast<AtomicRMWInst>(k.I);
  uint64_t a = X.concretize(s, p, 64, "address");
  unsigned w = k.w, n = (w + 7) / 8;
  if (!validAccess(X, s, a, n, true)) { X.store(s, cv(a), w, v, true); throw PathEnd{"violation"}; }
  Pend q; q.kind = PdAccess; q.write = true; q.addr = a; q.size = n; q.needEmpty = X.tso;
  X.visible(s, q);
  acquire(s, a, rmw->getOrdering());
  Val old = X.load(s, cv(a), w, true), nv;
  E o = toE(old, w), x = toE(v, w);
  switch (rmw->getOperation()) {
    case AtomicRMWInst::Xchg: nv = v; break;
    case AtomicRMWInst::Add: nv = ev(mkBin(OpAdd, o, x)); break;
    case AtomicRMWInst::Sub: nv = ev(mkBin(OpSub, o, x)); break;
    case AtomicRMWInst::And: nv = ev(mkBin(OpAnd, o, x)); break;
    case AtomicRMWInst::Or: nv = ev(mkBin(OpOr, o, x)); break;
    case AtomicRMWInst::Xor: nv = ev(mkBin(OpXor, o, x)); break;
    default: throw Unsupported{"atomicrmw op"};
  }
  X.store(s, cv(a), w, nv, true);
  s.stack.back().regs[k.dest] = old;
  atomicShadow(X, s, a, n, true);
  release(s, a, rmw->getOrdering(), true);
  done(s);
  X.performed(s, a, n, true, s.tid);
  return true;
}
bool concCAS(Executor& X, State& s, KInst& k, const Val& p, const Val& exp, const Val& nv) {
  auto* cx = cast<AtomicCmpXchgInst>(k.I);
  uint64_t a = X.concretize(s, p, 64, "address");
  unsigned w = k.w, n = (w + 7) / 8;
  if (!validAccess(X, s, a, n, true)) { X.store(s, cv(a), w, nv, true); throw PathEnd{"violation"}; }
  Pend q; q.kind = PdAccess; q.write = true; q.addr = a; q.size = n; q.needEmpty = X.tso;
  X.visible(s, q);
  Val old = X.load(s, cv(a), w, true);
  bool ok, spurious = false;
  if (cx->isWeak() && s.spurious < X.opt.spurious) {
    // a weak compare-and-swap may fail without a reason
    if (s.pendingChoice == 1) { s.pendingChoice = -1; spurious = true; s.spurious++; }
    else if (s.pendingChoice == 0) s.pendingChoice = -1;
    else { auto ns = std::make_unique<State>(s); ns->pendingChoice = 1; X.nForks++; X.work.push_back(std::move(ns)); }
  }
  if (spurious) ok = false;
  else { Val eq = X.icmp(CmpInst::ICMP_EQ, w, old, exp); ok = eq.e ? X.mustDecide(s, eq.e) : eq.c != 0; }
  Frame& f = s.stack.back();
  f.regs[k.dest] = old; f.regs[k.dest + 1] = cv(ok);
  acquire(s, a, ok ? cx->getSuccessOrdering() : cx->getFailureOrdering());
  if (ok) X.store(s, cv(a), w, nv, true);
  atomicShadow(X, s, a, n, ok);
  if (ok) release(s, a, cx->getSuccessOrdering(), true);
  done(s);
  X.performed(s, a, n, ok, s.tid);
  return true;
}
void concFence(Executor& X, State& s, KInst& k) {
  auto o = cast<FenceInst>(k.I)->getOrdering();
  if (cast<FenceInst>(k.I)->getSyncScopeID() == SyncScope::SingleThread) return;
  if (X.tso && o == AtomicOrdering::SequentiallyConsistent && !s.thr[s.tid].buf.empty()) { Pend q; q.kind = PdFence; X.visible(s, q); }
  if (s.granted) done(s);
  Thread& t = s.thr[s.tid];
  if (isAcq(o)) t.vc.join(t.acqP);
  if (isRel(o)) { t.relF = t.vc; tick(s); }
}

// ---- runtime functions

static Val yield(Executor& X, State& s) {
  if (s.thr.size() < 2) return cv(0);
  Thread& t = s.thr[s.tid];
  if (s.granted) { done(s); t.rest(); return cv(0); }
  if (X.tso && !t.buf.empty()) { drain(X, s); if (s.granted) done(s); }
  if (t.dirty) t.again = 0;
  bool timed = t.parent >= 1000; if (timed) t.parent -= 1000;
  if (t.dirty && !s.quiet) { t.rest(); return cv(0); }
  if (t.idle < X.opt.slack && !s.quiet) { t.idle++; return cv(0); }
  Pend p; p.kind = PdYield; p.target = timed;
  X.visible(s, p);
  done(s); t.rest();
  return cv(0);
}

void Executor::setupConcHandlers() {
  if (opt.conc.empty()) return;
  tso = opt.conc == "tso";
  H("psym_spawn") {
    auto it = X.faddr.find(a[0].c >> 32);
    if (a[0].e || it == X.faddr.end()) throw Unsupported{"psym_spawn target"};
    X.spawn(s, it->second, {a[1]});
    return cv(0);
  };
  H("psym_join") {
    if (s.thr.size() < 2) return cv(0);
    Pend p; p.kind = PdJoinAll; p.needEmpty = true; X.visible(s, p);
    for (auto& t : s.thr) { s.thr[s.tid].vc.join(t.vc); s.thr[s.tid].dep.join(t.dep); }
    done(s);
    return cv(0);
  };
  // invocation (0) and response (1) of an operation, for real-time order
  H("psym_mark") {
    if (s.thr.size() < 2) return cv(s.nVisible);
    Pend p; p.kind = PdAccess; p.write = a[0].c == 1; p.addr = 64; p.size = 1; X.visible(s, p);
    done(s);
    X.performed(s, 64, 1, a[0].c == 1, s.tid);
    return cv(s.nVisible);
  };
  // The parts before the first and after the second psym_ready(n) of n threads run in one fixed order.
  H("psym_timeouts") { s.timeouts = a[0].c & 1; return cv(0); };
  H("psym_quiet") { s.quiet = a[0].c & 1; return cv(0); };
  H("psym_ready") {
    if (s.thr.size() < 2) return cv(0);
    if (!s.granted) {
      s.readyN = (unsigned)a[0].c; s.ready++;
      Pend p; p.kind = PdReady; p.addr = (s.ready + s.readyN - 1) / s.readyN * s.readyN; X.visible(s, p);
    }
    done(s);
    return cv(0);
  };
  H("psym_threads") { return cv(s.thr.empty() ? 1 : s.thr.size()); };
  for (auto n : {"sched_yield", "usleep", "nanosleep"}) handlers[n] = [](Executor& X, State& s, Args&, KInst&) -> Val { return yield(X, s); };
  handlers["clock_nanosleep"] = handlers["nanosleep"];

  Function* main = M->getFunction("psym_thread_main");
  handlers["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = [main](Executor& X, State& s, Args& a, KInst&) -> Val {
    if (!main) throw Unsupported{"std::thread runtime"};
    Val st = X.load(s, a[1], 64);
    X.store(s, a[1], 64, cv(0));
    int t = X.spawn(s, main, {st});
    X.store(s, a[0], 64, cv(t + 1));
    return cv(0);
  };
  H("_ZNSt6thread4joinEv") {
    Val id = X.load(s, a[0], 64);
    int t = (int)id.c - 1;
    if (t < 1 || t >= (int)s.thr.size()) { X.report(s, "abort", "join of a thread that is not joinable"); throw PathEnd{"violation"}; }
    Pend p; p.kind = PdJoin; p.target = t; p.needEmpty = true; X.visible(s, p);
    s.thr[s.tid].vc.join(s.thr[t].vc); s.thr[s.tid].dep.join(s.thr[t].dep);
    done(s);
    X.store(s, a[0], 64, cv(0));
    return cv(0);
  };
  H("_ZNSt6thread6detachEv") { X.store(s, a[0], 64, cv(0)); return cv(0); };
  for (auto n : {"_ZNSt6thread6_StateD2Ev", "_ZNSt6thread6_StateD1Ev"}) handlers[n] = [](Executor&, State&, Args&, KInst&) -> Val { return cv(0); };
  H("pthread_self") { return cv(s.tid + 1); };
  H("__cxa_thread_atexit") {
    if (s.thr.size() > 1 && s.tid != 0) s.thr[s.tid].dtors.push_back({a[0].c, a[1].c});
    return cv(0);
  };
  H("pthread_mutex_lock") {
    uint64_t m = X.concretize(s, a[0], 64, "mutex");
    if (s.thr.size() > 1) {
      Pend p; p.kind = PdLock; p.write = true; p.addr = m; p.size = 8; p.needEmpty = true; X.visible(s, p);
      s.mutexes[m] = s.tid;
      auto it = s.sync.find(m); if (it != s.sync.end()) s.thr[s.tid].vc.join(it->second);
      done(s);
      X.performed(s, m, 8, true, s.tid);
    } else s.mutexes[m] = 0;
    return cv(0);
  };
  H("pthread_mutex_unlock") {
    uint64_t m = X.concretize(s, a[0], 64, "mutex");
    if (s.thr.size() > 1) {
      Pend p; p.kind = PdAccess; p.write = true; p.addr = m; p.size = 8; p.needEmpty = true; X.visible(s, p);
      s.mutexes[m] = -1;
      s.sync[m].join(s.thr[s.tid].vc); tick(s);
      done(s);
      X.performed(s, m, 8, true, s.tid);
    } else s.mutexes[m] = -1;
    return cv(0);
  };
  H("__cxa_guard_acquire") {
    uint64_t g = X.concretize(s, a[0], 64, "guard");
    Val v = X.load(s, cv(g), 8, true);
    if (s.thr.size() < 2) { if (v.c) return cv(0); return cv(1); }
    Pend p; p.kind = PdLock; p.write = true; p.addr = g; p.size = 8; p.needEmpty = true; X.visible(s, p);
    done(s);
    X.performed(s, g, 8, true, s.tid);
    auto it = s.sync.find(g); if (it != s.sync.end()) s.thr[s.tid].vc.join(it->second);
    if (v.c) return cv(0);
    s.mutexes[g] = s.tid;
    return cv(1);
  };
  H("__cxa_guard_release") {
    uint64_t g = X.concretize(s, a[0], 64, "guard");
    if (s.thr.size() > 1) {
      Pend p; p.kind = PdAccess; p.write = true; p.addr = g; p.size = 8; p.needEmpty = true; X.visible(s, p);
      X.store(s, cv(g), 8, cv(1), true);
      atomicShadow(X, s, g, 1, true);
      s.mutexes[g] = -1;
      s.sync[g].join(s.thr[s.tid].vc); tick(s);
      done(s);
      X.performed(s, g, 8, true, s.tid);
    } else X.store(s, cv(g), 8, cv(1), true);
    return cv(0);
  };
  H("syscall") {
    if (a[0].e || a[0].c != 202) throw Unsupported{"syscall"};
    uint64_t f = X.concretize(s, a[1], 64, "futex");
    int op = (int)(a[2].c & 127);
    if (s.thr.size() < 2) {
      if (op == 1) return cv(0);
      X.report(s, "deadlock", "the only thread sleeps on a futex"); throw PathEnd{"violation"};
    }
    Pend p; p.kind = PdAccess; p.write = true; p.addr = f; p.size = 4; p.needEmpty = true; X.visible(s, p);
    if (op == 0) {
      Val v = X.load(s, cv(f), 32, true);
      Val want = a[3].e ? ev(mkTrunc(toE(a[3], a[3].e->width), 32)) : cv(a[3].c & 0xffffffff);
      Val eq = X.icmp(CmpInst::ICMP_EQ, 32, v, want);
      bool same = eq.e ? X.mustDecide(s, eq.e) : eq.c != 0;
      done(s);
      X.performed(s, f, 4, true, s.tid);
      if (!same) return cv((uint64_t)-1);
      s.thr[s.tid].st = ThFutex; s.thr[s.tid].futex = f; s.thr[s.tid].timed = a[4].e || a[4].c != 0;
      s.sched = 1;          // the run loop switches after this call
      return cv(0);
    }
    std::vector<int> w;
    for (int t = 0; t < (int)s.thr.size(); t++) if (s.thr[t].st == ThFutex && s.thr[t].futex == f) w.push_back(t);
    int n = (int)a[3].c;
    if (!w.empty()) {
      if (n >= (int)w.size()) for (int t : w) s.thr[t].st = ThRun;
      else {
        size_t pick = 0;
        if (s.pendingChoice >= 0 && s.pendingChoice < 1000) { pick = (size_t)s.pendingChoice; s.pendingChoice = -1; }
        if (pick + 1 < w.size()) { auto ns = std::make_unique<State>(s); ns->pendingChoice = (long)pick + 1; X.nForks++; X.work.push_back(std::move(ns)); }
        s.thr[w[pick]].st = ThRun;
      }
    }
    done(s);
    X.performed(s, f, 4, true, s.tid);
    return cv(w.size() < (size_t)n ? w.size() : n);
  };
}
void Executor::runConc() {
  run();
  extra["schedules_completed"] = std::to_string(nCompleted);
  extra["visible_operations"] = std::to_string(nVisible);
  extra["sleep_set_pruned"] = std::to_string(nSleepPruned);
  extra["schedule_bound_hit"] = std::to_string(nBounded);
  extra["memory_model"] = tso ? "\"TSO store buffers, C++ happens-before for plain accesses\"" : "\"interleavings, C++ happens-before for plain accesses\"";
}
