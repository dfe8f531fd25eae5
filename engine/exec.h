// Symbolic executor over LLVM-18 IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <string>
#include <vector>

struct Val { E e = nullptr; uint64_t c = 0; };
inline Val cv(uint64_t c) { Val v; v.c = c; return v; }
inline Val ev(E e) { Val v; if (e->isConst() && e->width <= 64) { v.c = (uint64_t)e->val; } else v.e = e; return v; }
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }

enum ObjKind : uint8_t { OkGlobal, OkStack, OkHeap, OkFunc, OkExt };
enum FreeKind : uint8_t { FkMalloc, FkNew, FkNewArr, FkNone };

struct Object {
  int rc = 1;
  uint64_t id, base, size;
  ObjKind kind;
  bool alive = true, readonly = false, shared = false;
  uint64_t born = 0;   // step count at creation or at the last start of its lifetime
  uint8_t* data = nullptr;
  E* sym = nullptr;   // per byte, nullptr where concrete
  const char* name = "";
  ~Object() { free(data); free(sym); }
};
extern const E UNINIT;  // marker in Object::sym

struct ObjRef {
  Object* p = nullptr;
  ObjRef() {}
  explicit ObjRef(Object* o) : p(o) {}
  ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
};

struct KFunc;
struct KInst {
  llvm::Instruction* I;
  unsigned opc;
  int dest;             // first destination register or -1
  uint16_t nd;          // number of flattened destination registers
  uint16_t w;           // result leaf width (first leaf)
  uint16_t ow;          // operand width (first operand leaf)
  std::vector<int> ops; // flattened operand indices
  std::vector<int> opStart; // start of each operand in ops
  int bb = -1;
};
struct PhiCopy { int dest; int src; };
struct KBlock { int start; llvm::BasicBlock* bb; std::map<int, std::vector<PhiCopy>> phis; bool covered = false; };
struct KFunc {
  llvm::Function* F;
  int nregs = 0;
  std::vector<KInst> code;
  std::vector<KBlock> blocks;
  std::map<llvm::BasicBlock*, int> bbIdx;
  std::vector<Val> consts;
  std::vector<unsigned> argStart;
  bool used = false;
};

struct Frame {
  KFunc* f;
  int pc = 0;
  int retDest = -1;      // in the caller
  int curBB = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  bool catchMark = false;     // psym_catch boundary
  bool isMainCtor = false;
  uint64_t va = 0;
};

struct AccInfo { E rg = nullptr; E wg = nullptr; E wv = nullptr; };
typedef std::map<uint64_t, AccInfo> AccLog;
struct Region {
  AccLog prev;      // union over finished branches
  AccLog cur;       // current branch
  uint64_t birth;   // objects born at a later step live inside the current branch
  uint64_t birthId;
};

// ---- concurrency mode
enum { MAXT = 6 };
struct VC { uint16_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
// accesses to one byte: last plain write, last atomic write and last reads of each thread
struct ShByte { uint16_t w[MAXT], aw[MAXT], r[MAXT], ar[MAXT]; };
struct Shadow { int rc = 1; std::vector<ShByte> b; };
struct ShRef {
  Shadow* p = nullptr;
  ShRef() {}
  explicit ShRef(Shadow* o) : p(o) {}
  ShRef(const ShRef& o) : p(o.p) { if (p) p->rc++; }
  ShRef(ShRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ShRef& operator=(ShRef o) { std::swap(p, o.p); return *this; }
  ~ShRef() { if (p && --p->rc == 0) delete p; }
};
enum OpKind : uint8_t { PdNone, PdAccess, PdJoin, PdJoinAll, PdLock, PdYield, PdFence, PdReady };
struct Pend { OpKind kind = PdNone; bool write = false, needEmpty = false; uint64_t addr = 0; unsigned size = 0; int target = -1; };
struct BufEnt { uint64_t addr; unsigned w; Val v; VC rel; };
enum ThStatus : uint8_t { ThRun, ThFutex, ThDone };
struct Thread {
  std::shared_ptr<std::vector<Frame>> stack;   // when not current; shared between copies of the state
  ThStatus st = ThRun;
  Pend pend;
  VC vc, relF, acqP, dep;
  std::vector<BufEnt> buf;
  std::vector<std::pair<uint64_t, unsigned>> foot;   // what was read since the last useful yield
  bool dirty = false, wrote = false, timed = false; int idle = 0, again = 0, timedOut = 0;
  void rest() { if (dirty) again = 0; dirty = wrote = false; foot.clear(); idle = 0; }
  uint64_t futex = 0;
  std::vector<std::pair<uint64_t, uint64_t>> dtors;
  int parent = 0;
};

// Partial-order reduction: a choice of the schedule whose alternatives are explored only when a
// later operation turns out to conflict with the one chosen.
struct State;
struct DNode { std::unique_ptr<State> st; uint32_t en = 0, back = 0, sleep = 0; ~DNode(); };
struct DEv { int t; uint64_t addr; unsigned size; bool write; VC clk; unsigned idx; std::shared_ptr<DNode> node; std::shared_ptr<DEv> prev; };

struct State {
  std::vector<Frame> stack;
  std::vector<ObjRef> objs;
  std::vector<E> path;
  Model model;
  uint64_t steps = 0;
  unsigned depth = 0;
  uint64_t nextAlloc = 0;
  uint64_t heapLive = 0;
  std::vector<std::pair<std::string, E>> inputs;   // named symbolic inputs, in creation order
  std::vector<std::pair<std::string, uint64_t>> choices;
  std::vector<std::shared_ptr<Region>> regions;    // copy on write
  uint64_t leakMark = 0;
  int sched = 0;
  // concurrency mode: thread 0 is the harness
  std::vector<Thread> thr;
  int tid = 0;
  bool granted = false;
  uint32_t sleep = 0;
  int preempt = 0;
  std::vector<ShRef> shadow;
  std::map<uint64_t, VC> sync;                       // release clocks of atomic locations and mutexes
  std::map<uint64_t, int> mutexes;
  std::map<std::pair<uint64_t, int>, uint64_t> tls;
  std::multimap<uint64_t, std::pair<uint64_t, VC>> freed;   // blocks that may be handed out again, by size
  std::vector<uint8_t> schedule;
  unsigned nVisible = 0; int spurious = 0;
  std::shared_ptr<DEv> trace; std::shared_ptr<DNode> node;
  bool timeouts = false; bool quiet = false; unsigned ready = 0, readyN = 0;   // deterministic phases before and after the operations of interest
  E clockLast = nullptr;
  std::map<std::string, unsigned> nameCount;
  std::vector<std::pair<std::string, E>> notes;
  std::vector<uint64_t> threadFns;
  int unroll = 0;
  long pendingChoice = -1;
};

inline DNode::~DNode() {}

struct Violation {
  std::string kind, msg, loc;
  std::vector<std::pair<std::string, u128>> inputs;
  std::vector<std::string> trace;
  std::vector<uint8_t> schedule;
};

struct Options {
  std::string entry;
  double timeBudget = 60;
  uint64_t maxSteps = 30000000;
  uint64_t maxIteCands = 300;
  unsigned maxViolations = 3;
  bool race = false, strictRace = true, forkSelect = false;
  std::set<std::string> kinds;  // report only these kinds of violations (empty: all)
  bool verbose = false;
  bool verifyBranch = false;
  std::map<std::string, long> params;
  std::string out, conc;
  int preempt = -1, slack = 1, maxVisible = 2000, spurious = 0; bool dpor = true;
  bool reuse = false;
  bool tightAlign = false;   // heap blocks are aligned as requested and no more
};

struct PathEnd { std::string reason; };
struct Switched {};               // another thread continues
struct Yielded {};                // the thread stops before a visible operation
struct Restart {};                // re-execute current instruction
struct Unsupported { std::string what; };

class Executor {
 public:
  Executor(std::unique_ptr<llvm::Module> m, Options o);
  void run();                      // explore from entry
  Options opt;
  std::unique_ptr<llvm::Module> M;
  const llvm::DataLayout* DL;
  Solver S;
  // statistics
  uint64_t nPaths = 0, nCompleted = 0, nAssumeFail = 0, nForks = 0, nInstr = 0, nAsserts = 0, nAssertQueries = 0, nUnsupported = 0, nTruncated = 0, nThrown = 0, nStepLimit = 0;
  uint64_t nRaceChecks = 0, nNormal = 0;
  std::map<std::string, uint64_t> covers;
  std::map<std::string, std::string> coverSample;
  std::set<std::string> unsupportedWhat;
  std::set<std::string> functions;
  std::vector<Violation> violations;
  std::vector<std::vector<std::pair<std::string, u128>>> samples;
  std::map<std::string, int> violKey;
  bool timedOut = false, solverUnknown = false;
  double t0;

  // concurrency engine access
  std::unique_ptr<State> makeInitial();
  std::vector<std::unique_ptr<State>> work;
  bool concMode = false;
  std::function<void(State&)> onThreadEnd;
  int maxUnroll = 0;

  KFunc* getK(llvm::Function* F);
  void pushCall(State& s, llvm::Function* F, const std::vector<Val>& args, int retDest);
  void runState(std::unique_ptr<State> s);
  void exploreAll();
  void report(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
  std::string curLoc(State& s);
  E fresh(State& s, const std::string& name, unsigned w, bool input);

  // memory
  uint64_t alloc(State& s, uint64_t size, uint64_t align, ObjKind k, const char* name, bool zero);
  void freeObj(State& s, const Val& p, const char* what);
  Object* objAt(State& s, uint64_t addr);
  Object* writable(State& s, uint64_t id);
  E readBytes(State& s, Object* o, uint64_t off, unsigned n);
  Val readVal(State& s, Object* o, uint64_t off, unsigned w);
  void writeVal(State& s, Object* o, uint64_t off, unsigned w, const Val& v);
  Val load(State& s, const Val& p, unsigned w, bool isAtomic = false);
  void store(State& s, const Val& p, unsigned w, const Val& v, bool isAtomic = false);
  uint64_t concretize(State& s, const Val& v, unsigned w, const char* why);
  bool mustDecide(State& s, E cond);       // forks if both feasible; returns side taken
  bool feasible(State& s, E cond, Model* m);
  void addPath(State& s, E cond);
  void doAssert(State& s, E cond, const std::string& msg, const std::string& kind);
  E checkTaint(State& s, E e, const char* what);
  E taintCond(E e, unsigned lo, unsigned n);
  std::unordered_map<uint32_t, E> scrubMemo;
  std::map<std::tuple<uint32_t, unsigned, unsigned>, E> taintMemo;
  std::string readCStr(State& s, uint64_t addr);
  void copyMem(State& s, const Val& d, const Val& src, const Val& n, bool move);
  void setMem(State& s, const Val& d, const Val& v, const Val& n);

  std::unordered_map<llvm::Function*, std::unique_ptr<KFunc>> kfuncs;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, llvm::Function*> faddr;  // by object id
  std::unordered_map<uint64_t, const llvm::GlobalVariable*> gvars;
  typedef std::function<Val(Executor&, State&, std::vector<Val>&, KInst&)> Handler;
  std::unordered_map<std::string, Handler> handlers;
  std::unordered_map<const llvm::Function*, const Handler*> hcache;
  std::vector<ObjRef> initialObjs;
  void setupHandlers();
  void setupConcHandlers();
  void runConc();
  bool tso = false;
  uint64_t nVisible = 0, nSchedules = 0, nSleepPruned = 0, nBounded = 0, nSwitchForks = 0;
  void schedule(State& s);
  void switchTo(State& s, int t);
  bool threadEnd(State& s);
  void visible(State& s, const Pend& p);
  void dporEvent(State& s, uint64_t addr, unsigned n, bool write);
  void dporBranch(const std::shared_ptr<DNode>& d, int t);
  void performed(State& s, uint64_t addr, unsigned n, bool write, int actor);
  void flushOne(State& s, int t);
  int spawn(State& s, llvm::Function* F, const std::vector<Val>& args);
  void concAccess(State& s, uint64_t id, uint64_t off, unsigned n, bool write, bool atomic, bool isFree = false);
  bool mt(State& s) const { return s.thr.size() > 1; }
  uint64_t tlsAddr(State& s, uint64_t gaddr);
  std::map<std::string, std::string> extra;   // further result fields, values are JSON
  void step(State& s);
  void execCall(State& s, Frame& fr, KInst& k);
  void doRet(State& s, std::vector<Val> vals);
  void doThrow(State& s, const std::string& what);
  void jump(State& s, Frame& fr, int from, llvm::BasicBlock* to);
  void translate(KFunc& kf);
  int operandIdx(KFunc& kf, std::unordered_map<const llvm::Value*, int>& regOf, const llvm::Value* v, std::vector<int>& out);
  void constLeaves(const llvm::Constant* c, std::vector<Val>& out);
  uint64_t constAddr(const llvm::Constant* c);
  void materialize(State& s, uint64_t id);
  void writeInit(Object* o, uint64_t off, const llvm::Constant* c);
  void leafTypes(llvm::Type* t, std::vector<std::pair<llvm::Type*, uint64_t>>& out, uint64_t off = 0);
  unsigned leafWidth(llvm::Type* t);
  const Val& get(State& s, Frame& fr, int idx) { return idx >= 0 ? fr.regs[idx] : fr.f->consts[~idx]; }
  Val binop(State& s, unsigned opc, unsigned w, const Val& a, const Val& b);
  Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b);
  struct Target { E guard; Object* o; uint64_t lo, hi, step; E off; uint64_t c; };
  void resolve(State& s, const Val& p, uint64_t size, bool write, std::vector<Target>& out);
  void splitAddr(E e, E guard, std::vector<std::pair<E, E>>& out, int depth);
  void logAccess(State& s, Object* o, uint64_t off, unsigned n, bool write, E guard, const Val* v, bool atomic);
  bool logging(State& s) const { return !s.regions.empty() || (concMode && s.thr.size() > 1); }
  void regionBegin(State& s); void regionMid(State& s); void regionEnd(State& s);
  void mergeLog(State& s, AccLog& into, AccLog& from, bool check);
  Region& regionW(State& s);
  Val intrinsic(State& s, Frame& fr, KInst& k, llvm::Function* F, bool& handled);
};
