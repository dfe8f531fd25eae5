// The real work-stealing deque, one owner and several thieves, every interleaving.
// The deque starts in any state it can be in when no operation is in progress: elements at
// positions top..bot-1, with any tag.
#define private public
#include <array>
#include <atomic>
#include <limits>
#include <parlay/internal/work_stealing_deque.h>
#undef private
#include "common.h"
using parlay::internal::Deque;
struct Job { unsigned what = 0; };      // what there is to do, written before the job is pushed
using D = Deque<Job>;
static D* d;
static Job jobs[8];
static size_t nOwner, nSteal;            // operations of the owner and of each thief
static unsigned ownerOps;                // bit i: the i-th operation is a push
static int nextJob;
static Job* got[8][8]; static int nGot[8];
static bool emptied[8];
static unsigned todo[8];
static void take(int who, Job* j) { CHECK(j->what == todo[j - jobs], "a job is not what was pushed"); got[who][nGot[who]++] = j; }
static void give() { Job* j = &jobs[nextJob]; j->what = todo[nextJob]; nextJob++; d->push_bottom(j); }
// any tag, if the deque (still) has one
template <typename Q> static auto anyTag(Q& q, int) -> decltype(q.age.load().tag, void()) { auto a = q.age.load(); a.tag = sym<unsigned>("tag"); q.age.store(a); }
template <typename Q> static void anyTag(Q&, long) {}

static void owner(void*) {
  for (size_t i = 0; i < nOwner; i++) {
    if (ownerOps >> i & 1) give();
    else { Job* j = d->pop_bottom(); if (j) take(0, j); }
  }
}
static void thief(void* p) {
  int me = (int)(size_t)p;
  for (size_t i = 0; i < nSteal; i++) {
    auto r = d->pop_top();
    if (r.first) take(me, r.first);
  }
}
// n0 jobs at positions top.., then the owner runs its operations while the thieves steal
static void run(size_t thieves, size_t maxInit, size_t ops, size_t steals) {
  D dq; d = &dq;
  for (auto& t : todo) t = sym<unsigned>("what");
  psym_quiet(true);
  size_t top = choose("top", 0, 1), n0 = choose("initial", 0, maxInit);
  anyTag(dq, 0);
  if (n0 == 0) psym_assume(top == 0);    // the deque resets itself when it becomes empty through its owner
  for (size_t i = 0; i < top + n0; i++) give();
  for (size_t i = 0; i < top; i++) { auto r = dq.pop_top(); CHECK(r.first == &jobs[i], "a steal from a deque in rest fails"); take(0, r.first); }
  psym_quiet(false);
  nOwner = ops; ownerOps = (unsigned)choose("ops", 0, (1u << ops) - 1); nSteal = steals;
  psym_spawn(owner, nullptr);
  for (size_t t = 1; t <= thieves; t++) psym_spawn(thief, (void*)t);
  psym_join();
  // what is left comes out now
  for (int guard = 0; ; guard++) {
    CHECK(guard < 10, "the deque never runs empty");
    Job* j = dq.pop_bottom();
    if (!j) break;
    take(0, j);
  }
  Job* none = dq.pop_bottom();
  CHECK(none == nullptr, "a job appears in an empty deque");
  int count[8] = {};
  for (size_t t = 0; t <= thieves; t++) for (int i = 0; i < nGot[t]; i++) count[got[t][i] - jobs]++;
  for (int i = 0; i < 8; i++) CHECK(count[i] == (i < nextJob ? 1 : 0), "a job is lost or handed out twice");
  // each thief gets jobs oldest first
  for (size_t t = 1; t <= thieves; t++) for (int i = 1; i < nGot[t]; i++) CHECK(got[t][i] > got[t][i - 1], "a thief gets a newer job before an older one");
  psym_cover("end");
}
ENTRY(one_thief) { run(1, 2, P("ops", 3), P("steals", 2)); }
ENTRY(two_thieves) { run(2, 2, P("ops", 2), 1); }
ENTRY(three_thieves) { run(3, 2, P("ops", 1), 1); }
