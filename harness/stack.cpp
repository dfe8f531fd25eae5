// The shared stack with deferred reclamation, every interleaving of pushes and pops.
#define private public
#include <atomic>
#include <array>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <variant>
#include <vector>
#include <optional>
#include <unordered_set>
#include <parlay/internal/concurrency/hazptr_stack.h>
#undef private
#include "common.h"
#include "lin.h"
// an element that owns memory
struct Item {
  int* p; unsigned pay;
  explicit Item(int v, unsigned y = 0) : p(new int(v)), pay(y) {}
  Item(Item&& o) noexcept : p(o.p), pay(o.pay) { o.p = nullptr; }
  Item& operator=(Item&& o) noexcept { if (p) delete p; p = o.p; pay = o.pay; o.p = nullptr; return *this; }
  ~Item() { if (p) delete p; }
};
using Stack = parlay::internal::hazptr_stack<Item>;
static Stack* st;
enum { PUSH, POP, EMPTY, SIZE };
static Op hist[12]; static int nops;
static int from[5]; static int nthreads; static bool marks;
static unsigned payload[128];      // by element
static bool eager;          // reclamation is attempted at every retirement
struct StackModel {
  int e[12]; int n = 0;
  bool apply(const Op& o) {
    switch (o.kind) {
      case PUSH: e[n++] = o.arg; return true;
      case POP: if (n == 0) return o.res == -1; return o.res == e[--n];
      case SIZE: return o.res == n;
      default: return o.res == (n == 0);
    }
  }
};
template <typename A> static auto hurry(A& ar, int) -> decltype(ar.data->amortized_work = 1000, void()) { ar.data->amortized_work = 1000; }
template <typename A> static void hurry(A&, long) {}
template <typename A> static auto enter(A& ar, int) -> decltype(*ar.data, void()) { *ar.data; }      // has an identifier
template <typename A> static void enter(A&, long) { parlay::my_thread_id(); }
static void doOp(Op& o) {
  auto& ar = Stack::hazptr_instance();
  if (eager) hurry(ar, 0);
  if (marks) o.inv = psym_mark(0);
  switch (o.kind) {
    case PUSH: st->push(Item(o.arg, payload[o.arg])); break;
    case POP: { auto r = st->pop(); if (r) { CHECK(r->p != nullptr, "an element that was moved away is popped"); o.res = *r->p; CHECK(r->pay == payload[o.res], "an element changed while it was in the stack"); } else o.res = -1; break; }
    case SIZE: o.res = (int)st->size(); break;
    default: o.res = st->empty();
  }
  if (marks) o.ret = psym_mark(1);
}
static void worker(void* a) {
  int me = (int)(size_t)a;
  enter(Stack::hazptr_instance(), 0);
  psym_ready(nthreads);
  for (int i = from[me]; i < from[me + 1]; i++) doOp(hist[i]);
  psym_ready(nthreads);
}
// counts: operations of each thread, one decimal digit per thread
static void run(int counts, int maxInit, bool eg, int kinds) {
  psym_quiet(true);
  nthreads = 0; eager = eg; marks = P("marks", 1);
  for (int c = counts; c; c /= 10) { from[nthreads + 1] = from[nthreads] + c % 10; nthreads++; }
  int n = from[nthreads];
  StackModel m;
  int init = (int)choose("initial", 0, maxInit), id = 0;
  {
    Stack s; st = &s;
    if (choose("other stack", 0, 1)) { Stack t; t.push(Item(1)); t.pop(); }   // the reclamation machinery is shared by all stacks
    for (int i = 0; i < init; i++) { m.e[m.n++] = id; payload[id] = sym<unsigned>("payload"); s.push(Item(id, payload[id])); id++; }
    for (int t = 0; t < nthreads; t++) for (int i = from[t]; i < from[t + 1]; i++) {
      Op& o = hist[i];
      o.kind = (int)choose("op", 0, kinds - 1); o.arg = id; payload[id++] = sym<unsigned>("payload"); o.res = -2; o.inv = 1; o.ret = 1; o.thread = t;
    }
    for (int t = 0; t < nthreads; t++) psym_spawn(worker, (void*)(size_t)t);
    psym_join();
    // what is left afterwards is part of the history
    int total = n;
    for (;;) {
      auto r = s.pop();
      Op& o = hist[total++];
      o.kind = POP; o.res = r ? *r->p : -1; o.inv = o.ret = 1000000; o.thread = 9;
      if (!r) break;
      CHECK(r->pay == payload[o.res], "an element changed while it was in the stack");
      CHECK(total < 12, "more elements come out than went in");
    }
    CHECK(s.empty() && s.size() == 0, "empty and size of an empty stack");
    CHECK(linearizable(hist, total, 0u, m), "the results fit no sequential order of the operations");
  }
  using AR = std::remove_reference_t<decltype(Stack::hazptr_instance())>;
  Stack::hazptr_instance().~AR();         // everything retired is reclaimed
  psym_cover("end");
}
ENTRY(two) { run(11, 2, true, 4); }
ENTRY(two_lazy) { run(11, 2, false, 3); }
ENTRY(two_twice) { run(22, 1, true, 2); }
ENTRY(one_three) { run(31, 2, true, 2); }
ENTRY(three) { run(111, 2, true, 2); }
