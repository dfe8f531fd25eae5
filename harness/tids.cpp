// Thread identifiers and per-thread elements, every interleaving of threads that come and go.
#define private public
#include <atomic>
#include <array>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <variant>
#include <vector>
#include <parlay/internal/thread_id_pool.h>
#include <parlay/thread_specific.h>
#undef private
#include "common.h"
using parlay::ThreadSpecific;
static unsigned base;                     // identifiers already taken by threads that stay alive
unsigned slot[24]; static unsigned token[8];                     // what a user keeps per identifier, not synchronised
static bool seen[24]; static unsigned idOf[8]; static bool reused[24];
static std::atomic<int> turn{0};

static void start() {
  for (int i = 0; i < 8; i++) { token[i] = sym<unsigned>("token"); for (int j = 0; j < i; j++) psym_assume(token[i] != token[j]); }
  parlay::my_thread_id();                 // the main thread has an identifier from the beginning
}
static void user(void* p) {
  int me = (int)(size_t)p;
  unsigned id = parlay::my_thread_id();
  CHECK(id < parlay::num_thread_ids(), "an identifier is not below the number of identifiers");
  CHECK(id != 0 && id < 24, "identifier of a live thread handed out again");
  slot[id] = token[me];
  psym_escape(slot); turn.fetch_add(0, std::memory_order_relaxed);
  CHECK(slot[id] == token[me], "two live threads have the same identifier");
  CHECK(parlay::my_thread_id() == id, "the identifier of a thread changes");
  idOf[me] = id;
}
template <typename Pool> static auto inPool(Pool& pool, int) -> decltype(pool.available_ids.load()->next, void()) {
  bool in[24] = {}; size_t n = 0;
  for (auto* c = pool.available_ids.load(); c; c = c->next) { CHECK(c->id < 24 && !in[c->id], "an identifier is in the pool twice"); in[c->id] = true; n++; }
  CHECK(n + 1 == parlay::num_thread_ids(), "an identifier of a finished thread is lost");
}
template <typename Pool> static void inPool(Pool&, long) {}
// threads that come and go, with left-over identifiers in the pool from earlier threads
static void ids(int threads) {
  start();
  size_t before = choose("earlier", 0, 2);
  psym_quiet(true);
  for (size_t i = 0; i < before; i++) psym_spawn(user, (void*)(size_t)(i + 1));
  psym_join();
  psym_quiet(false);
  for (int i = 0; i < threads; i++) psym_spawn(user, (void*)(size_t)(i + 3));
  psym_join();
  size_t most = before > (size_t)threads ? before : (size_t)threads;
  CHECK(parlay::num_thread_ids() <= 1 + before + threads, "more identifiers than threads");
  if (before >= (size_t)threads && threads == 1) CHECK(parlay::num_thread_ids() <= 1 + before, "an identifier of a finished thread is not reused");
  // everything is back in the pool exactly once
  inPool(parlay::internal::ThreadIdPool::instance(), 0);
  (void)most;
  psym_cover("end");
}
ENTRY(ids_two) { ids(2); }
ENTRY(ids_three) { ids(3); }
// one thread after another: never more than one identifier besides the main thread's
ENTRY(ids_sequential) {
  start();
  size_t n = choose("n", 1, 4);
  for (size_t i = 0; i < n; i++) { psym_spawn(user, (void*)(size_t)1); psym_join(); }
  CHECK(parlay::num_thread_ids() == 2, "identifiers of finished threads are not reused");
  psym_cover("end");
}

// ---- per-thread elements
struct Elem { int v; int owner; };
static int built[64]; static int destroyed;
struct Obj { size_t id; int uses = 0; explicit Obj(size_t i) : id(i) {} Obj(const Obj&) = delete; ~Obj() { destroyed++; } };
static ThreadSpecific<Obj>* ts;
static Obj* elemOf[8]; 
static void tsuser(void* p) {
  int me = (int)(size_t)p;
  Obj& o = **ts;
  unsigned id = parlay::my_thread_id();
  CHECK(o.id == id, "element of another identifier");
  int before = o.uses;
  o.uses = before + 1;
  psym_escape(slot); turn.fetch_add(0, std::memory_order_relaxed);
  Obj& o2 = ts->get();
  CHECK(&o2 == &o, "the element of a thread changes");
  CHECK(o2.uses == before + 1, "two live threads share an element");
  elemOf[me] = &o;
}
static void elements(int threads, bool walk) {
  start();
  auto& pool = parlay::internal::ThreadIdPool::instance();
  size_t P = parlay::internal::ThreadListChunkData::thread_list_chunk_size;
  base = (unsigned)(choose("chunks", 1, 2) * P - choose("below", 0, 2));   // identifiers in use elsewhere
  pool.num_thread_ids.store(base);
  {
    ThreadSpecific<Obj> t([](std::size_t i) { built[i]++; return Obj(i); });
    ts = &t;
    for (int i = 0; i < threads; i++) psym_spawn(tsuser, (void*)(size_t)i);
    if (walk) {
      size_t k = 0;
      t.for_each([&](Obj& o) { CHECK(o.id == k, "for_each visits elements out of order"); k++; });
      CHECK(k >= base, "for_each leaves out an element");
    }
    psym_join();
    size_t n = parlay::num_thread_ids(), k = 0;
    int uses = 0;
    t.for_each([&](Obj& o) { CHECK(o.id == k, "for_each: wrong element"); k++; uses += o.uses; });
    CHECK(k == n, "for_each does not visit every element");
    CHECK(uses == threads, "a use is lost");
    k = 0;
    for (auto& o : t) { CHECK(o.id == k, "iteration: wrong element"); k++; }
    CHECK(k == n, "iteration does not visit every element");
    for (int i = 0; i < threads; i++) CHECK(elemOf[i]->id >= base, "element of a thread that is alive");
    for (size_t i = 0; i < n; i++) CHECK(built[i] == 1, "an element is constructed more than once");
    for (size_t i = 0; i < 64; i++) CHECK(built[i] <= 1, "an element is constructed more than once");
  }
  int all = 0; for (int i = 0; i < 64; i++) all += built[i];
  CHECK(destroyed == all, "elements are not destroyed exactly once");
  psym_cover("end");
}
ENTRY(elements_two) { elements(2, false); }
ENTRY(elements_three) { elements(3, false); }
ENTRY(elements_walk) { elements(2, true); }
// random access over all elements: positions agree with identifiers
template <bool Const> static void iteration() {
  start();
  auto& pool = parlay::internal::ThreadIdPool::instance();
  size_t P = parlay::internal::ThreadListChunkData::thread_list_chunk_size;
  size_t n = choose("n", 1, 4 * P);
  pool.num_thread_ids.store(n);
  ThreadSpecific<Obj> t0([](std::size_t i) { built[i]++; return Obj(i); });
  std::conditional_t<Const, const ThreadSpecific<Obj>, ThreadSpecific<Obj>>& t = t0;
  auto b = t.begin(), e = t.end();
  CHECK(e - b == (long)n, "distance of begin and end");
  size_t i = choose("i", 0, n), j = choose("j", 0, n);
  auto x = b + (long)i, y = e - (long)(n - j);
  CHECK(y - x == (long)j - (long)i, "distance");
  CHECK(x + (long)(j - i) == y && y - (long)(j - i) == x, "advance");
  CHECK((x < y) == (i < j) && (x <= y) == (i <= j) && (x == y) == (i == j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x != y) == (i != j), "comparison");
  if (i < n) { CHECK((*x).id == i && b[i].id == i, "dereference"); auto z = x; ++z; CHECK(z - x == 1 && z == b + (long)(i + 1), "increment"); --z; CHECK(z == x && (*z).id == i, "decrement"); auto w = z++; CHECK(w == x && z - w == 1, "postincrement"); w = z--; CHECK(z == x && w - z == 1, "postdecrement"); }
  if (j < n) CHECK((*y).id == j && x[(long)j - (long)i].id == j, "dereference");
  psym_cover("end");
}
ENTRY(iterate) { iteration<false>(); }
ENTRY(iterate_const) { iteration<true>(); }
