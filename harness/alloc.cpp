// The allocators: alignment, size, disjointness and accounting over histories of allocations and frees.
#include <parlay/alloc.h>
#include <parlay/sequence.h>
#include "common.h"
typedef unsigned char uc;
// a live block: its first and last byte carry a mark, checked when it is freed and at every step
struct Live { uc* p; size_t n; uc a, z; size_t cls; };
static Live live[8]; static int nl;
static void enter(void* v, size_t n, size_t align, size_t cls = 0) {
  uc* p = (uc*)v;
  CHECK(p != nullptr, "no memory");
  CHECK((uintptr_t)p % align == 0, "a block is not aligned as requested");
  CHECK(psym_valid(p, n), "a block is smaller than requested");
  Live& l = live[nl++]; l = {p, n, sym<uc>("first"), sym<uc>("last"), cls};
  if (n > 0) { p[0] = l.a; if (n > 1) p[n - 1] = l.z; }
  for (int i = 0; i < nl - 1; i++) CHECK(p + n <= live[i].p || live[i].p + live[i].n <= p, "two live blocks overlap");
}
static void intact() { for (int i = 0; i < nl; i++) if (live[i].n > 0) { CHECK(live[i].p[0] == live[i].a, "a live block is overwritten"); if (live[i].n > 1) CHECK(live[i].p[live[i].n - 1] == live[i].z, "a live block is overwritten"); } }
static Live leave(int i) { Live l = live[i]; live[i] = live[--nl]; return l; }
// ---- p_malloc
static const size_t sizes[] = {0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 56, 63, 64, 65, 100, 112, 120, 127, 128, 129, 192, 200, 256, 500, 960, 1000, 1023, 1024, 1025, 4000, 4096, 130000, 131008, 131072, 200000, 262080, 262100, 262144, 262145, 300001};
static const size_t NS = sizeof(sizes) / sizeof(*sizes);
ENTRY(malloc_one) {
  size_t k = choose("size", 0, NS - 1), n = sizes[k]; size_t la = choose("align", 0, 13);
  void* p;
  if (la == 13) { p = parlay::p_malloc(n); la = 4; } else p = parlay::p_malloc(n, (size_t)1 << la);
  enter(p, n, (size_t)1 << la);
  if (n >= 1024) CHECK((uintptr_t)p % 64 == 0, "a large block is not aligned to a cache line");
  intact();
  auto st = parlay::internal::memory_usage();
  CHECK(st.first >= n, "less memory is reported in use than is in use");
  CHECK(st.second < (size_t)1 << 40, "less memory is reserved than used");
  parlay::p_free(leave(0).p);
  CHECK(parlay::internal::memory_usage().first == 0, "memory is reported in use when nothing is");
  // the memory is used again
  size_t reserve = parlay::internal::memory_usage().second;
  for (int i = 0; i < 3; i++) { void* q = parlay::p_malloc(n, (size_t)1 << la); parlay::p_free(q); }
  CHECK(parlay::internal::memory_usage().second == reserve, "freed memory is not used again");
  parlay::internal::memory_clear();
  CHECK(parlay::internal::memory_usage().first == 0, "memory is reported in use when nothing is");
  psym_cover("end");
}
// every size up to the largest pool
ENTRY(malloc_any) {
  size_t la = choose("align", 0, 10), n = sym<size_t>("size"); psym_assume(n <= (1 << 17) + 70);
  void* p = parlay::p_malloc(n, (size_t)1 << la);
  CHECK((uintptr_t)p % ((size_t)1 << la) == 0, "a block is not aligned as requested");
  CHECK(psym_valid(p, n), "a block is smaller than requested");
  CHECK(n < 1024 || (uintptr_t)p % 64 == 0, "a large block is not aligned to a cache line");
  size_t used = parlay::internal::memory_usage().first, reserve = parlay::internal::memory_usage().second;
  CHECK(used >= n, "less memory is reported in use than is in use");
  void* q = parlay::p_malloc(n, (size_t)1 << la);
  CHECK(q != p && (uintptr_t)q % ((size_t)1 << la) == 0 && psym_valid(q, n), "the second block");
  CHECK((uc*)q + n <= p || (uc*)p + n <= q, "two live blocks overlap");
  parlay::p_free(p);
  CHECK(parlay::internal::memory_usage().first == used, "memory in use after freeing one of two equal blocks");
  parlay::p_free(q);
  CHECK(parlay::internal::memory_usage().first == 0, "memory is reported in use when nothing is");
  (void)reserve;
  psym_cover("end");
}
template <typename T> static void anyCount() {
  parlay::allocator<T> al; size_t n = sym<size_t>("n"); psym_assume(n >= 1 && n <= (1 << 17) / sizeof(T));
  T* a = al.allocate(n);
  CHECK((uintptr_t)a % alignof(T) == 0, "a block is not aligned as requested");
  CHECK(psym_valid(a, n * sizeof(T)), "a block is smaller than requested");
  T* b = al.allocate(n);
  CHECK((uintptr_t)b % alignof(T) == 0 && psym_valid(b, n * sizeof(T)), "the second block");
  CHECK(a + n <= b || b + n <= a, "two live blocks overlap");
  CHECK(parlay::internal::memory_usage().first >= 2 * n * sizeof(T), "less memory is reported in use than is in use");
  al.deallocate(a, n); al.deallocate(b, n);
  CHECK(parlay::internal::memory_usage().first == 0, "memory is reported in use when nothing is");
  psym_cover("end");
}
static size_t pick(const size_t* t, int n, const char* nm) { return t[choose(nm, 0, n - 1)]; }
ENTRY(malloc_history) {   // sizes that share pools, lie next to each other, are large, and are beyond all pools
  static const size_t few[] = {8, 40, 112, 140000, 300000};
  size_t L = P("LEN", 5);
  for (size_t i = 0; i < L; i++) {
    size_t op = choose("op", 0, nl);
    if (op == 0) { size_t n = pick(few, 5, "size"); enter(parlay::p_malloc(n), n, 16); }
    else parlay::p_free(leave((int)op - 1).p);
    intact();
    size_t sum = 0; for (int j = 0; j < nl; j++) sum += live[j].n;
    auto st = parlay::internal::memory_usage();
    CHECK(st.first >= sum, "less memory is reported in use than is in use");
    CHECK(st.first < (size_t)1 << 40 && st.second < (size_t)1 << 40, "less memory is reserved than used");
  }
  while (nl) parlay::p_free(leave(nl - 1).p);
  CHECK(parlay::internal::memory_usage().first == 0, "memory is reported in use when nothing is");
  psym_cover("end");
}
// ---- the container allocator
template <size_t S, size_t A> struct alignas(A) Ob { uc b[S]; };
template <typename T> static void container() {
  parlay::allocator<T> al;
  static const size_t ns[] = {1, 2, 3, 5, 17, 1000}; size_t n = pick(ns, 6, "n"), m = pick(ns, 6, "m");
  T* a = al.allocate(n); enter(a, n * sizeof(T), alignof(T));
  T* b = al.allocate(m); enter(b, m * sizeof(T), alignof(T));
  intact();
  size_t st = parlay::internal::memory_usage().first;
  CHECK(st >= (n + m) * sizeof(T), "less memory is reported in use than is in use");
  al.deallocate(a, n); leave(0); intact();
  T* c = al.allocate(m); enter(c, m * sizeof(T), alignof(T)); intact();
  al.deallocate(c, m); al.deallocate(b, m);
  CHECK(parlay::internal::memory_usage().first == 0, "memory is reported in use when nothing is");
  psym_cover("end");
}
ENTRY(container_small) { switch (choose("type", 0, 5)) { case 0: container<char>(); break; case 1: container<Ob<12, 4>>(); break; case 2: container<Ob<24, 8>>(); break; case 3: container<Ob<16, 16>>(); break; case 4: container<Ob<48, 16>>(); break; case 5: container<Ob<40, 8>>(); } }
ENTRY(container_aligned) { switch (choose("type", 0, 4)) { case 0: container<Ob<64, 64>>(); break; case 1: container<Ob<128, 128>>(); break; case 2: container<Ob<256, 256>>(); break; case 3: container<Ob<512, 512>>(); break; case 4: container<Ob<64, 32>>(); } }
ENTRY(container_any) { switch (choose("type", 0, 5)) { case 0: anyCount<char>(); break; case 1: anyCount<Ob<12, 4>>(); break; case 2: anyCount<Ob<40, 8>>(); break; case 3: anyCount<Ob<48, 16>>(); break; case 4: anyCount<Ob<128, 128>>(); break; case 5: anyCount<Ob<256, 256>>(); } }
// ---- fixed-size allocation: any history
static void history(parlay::internal::block_allocator& al, size_t bs, size_t align, size_t L) {
  size_t most = 0;
  for (size_t i = 0; i < L; i++) {
    size_t op = choose("op", 0, nl);
    if (op == 0) enter(al.alloc(), bs, align); else al.free(leave((int)op - 1).p);
    intact();
    if ((size_t)nl > most) most = nl;
    CHECK(al.num_used_blocks() == (size_t)nl, "the number of used blocks is not the number of allocations minus frees");
    CHECK(al.num_allocated_blocks() >= (size_t)nl, "fewer blocks are reserved than used");
  }
}
ENTRY(blocks) {
  HeapBalance* hb = new HeapBalance; unsigned char* h0 = nullptr; (void)h0;
  size_t bs = choose("block size", 0, 2), ll = choose("list length", 1, P("LL", 3)); bs = bs == 0 ? 8 : bs == 1 ? 24 : 136;
  parlay::my_thread_id();
  size_t L = P("LEN", 7);
  {
    parlay::internal::block_allocator al(bs, 8, 0, ll, 1000);
    CHECK(al.get_block_size() >= bs, "the block size");
    history(al, bs, 8, L);
    size_t inuse = nl;
    if (choose("clear early", 0, 1)) { bool ok = al.clear(); CHECK(ok == (inuse == 0), "clear succeeds exactly when nothing is in use"); intact(); CHECK(al.num_used_blocks() == inuse, "clearing changes the number of used blocks"); }
    while (nl) al.free(leave(nl - 1).p);
    CHECK(al.num_used_blocks() == 0, "blocks are reported in use when none is");
    CHECK(al.clear(), "clear fails although nothing is in use");
    CHECK(al.num_allocated_blocks() == 0, "clear does not return everything");
    enter(al.alloc(), bs, 8); intact(); CHECK(al.num_used_blocks() == 1, "the allocator is not usable after clear"); al.free(leave(0).p);
  }
  psym_cover("end");
}
// long runs of allocations, then frees in either order: lists move to the shared pool and back
ENTRY(blocks_long) {
  size_t ll = choose("list length", 1, 3), k = choose("k", 1, P("K", 10)), order = choose("order", 0, 1);
  static void* p[16];
  {
    parlay::internal::block_allocator al(16, 8, 0, ll, 1000);
    size_t cap = 0;
    for (int round = 0; round < 3; round++) {
      for (size_t i = 0; i < k; i++) { p[i] = al.alloc(); *(size_t*)p[i] = i; ((size_t*)p[i])[1] = ~i; for (size_t j = 0; j < i; j++) CHECK(p[j] != p[i], "a live block is handed out again"); }
      for (size_t i = 0; i < k; i++) CHECK(*(size_t*)p[i] == i && ((size_t*)p[i])[1] == ~i, "a live block is overwritten");
      CHECK(al.num_used_blocks() == k, "the number of used blocks");
      if (round == 0) cap = al.num_allocated_blocks();
      CHECK(al.num_allocated_blocks() == cap, "freed blocks are not used again");
      for (size_t i = 0; i < k; i++) al.free(p[order ? i : k - 1 - i]);
      CHECK(al.num_used_blocks() == 0, "blocks are reported in use when none is");
    }
  }
  psym_cover("end");
}
// blocks that one worker leaves behind are available to the others
ENTRY(blocks_shared) {
  static parlay::internal::block_allocator* alp; static void* p[24]; static size_t k, order;
  size_t ll = choose("list length", 1, 3); k = choose("k", 1, P("K", 9)); order = choose("order", 0, 1);
  parlay::my_thread_id();
  parlay::internal::block_allocator al(16, 8, 0, ll, 1000); alp = &al;
  psym_quiet(true);
  psym_spawn([](void*) { for (size_t i = 0; i < k; i++) p[i] = alp->alloc(); }, nullptr);
  psym_join();
  CHECK(al.num_used_blocks() == k, "the number of used blocks");
  size_t cap = al.num_allocated_blocks();
  for (size_t i = 0; i < k; i++) al.free(p[order ? i : k - 1 - i]);       // by another thread than allocated them
  CHECK(al.num_used_blocks() == 0, "blocks are reported in use when none is");
  psym_spawn([](void*) { for (size_t i = 0; i < k; i++) { p[i] = alp->alloc(); for (size_t j = 0; j < i; j++) CHECK(p[j] != p[i], "a live block is handed out again"); } for (size_t i = 0; i < k; i++) alp->free(p[i]); }, nullptr);
  psym_join();
  // a worker keeps at most two lists to itself
  CHECK(al.num_allocated_blocks() <= cap + 2 * ll, "blocks freed by a worker are not available to the others");
  CHECK(al.num_used_blocks() == 0, "blocks are reported in use when none is");
  CHECK(al.clear() && al.num_allocated_blocks() == 0, "clear fails although nothing is in use");
  psym_cover("end");
}
// ---- allocation of single objects
template <typename T> static void single() {
  typedef parlay::type_allocator<T> TA; size_t L = P("LEN", 5);
  for (size_t i = 0; i < L; i++) {
    size_t op = choose("op", 0, nl);
    if (op == 0) enter(TA::alloc(), sizeof(T), alignof(T)); else TA::free((T*)leave((int)op - 1).p);
    intact();
    CHECK(TA::num_used_blocks() == (size_t)nl, "the number of used blocks is not the number of allocations minus frees");
    CHECK(TA::num_used_bytes() == nl * TA::block_size() && TA::block_size() >= sizeof(T), "the number of used bytes");
    CHECK(TA::num_allocated_blocks() >= (size_t)nl, "fewer blocks are reserved than used");
  }
  while (nl) TA::free((T*)leave(nl - 1).p);
  TA::finish(); CHECK(TA::num_allocated_blocks() == 0, "finish does not return everything");
  enter(TA::alloc(), sizeof(T), alignof(T)); TA::free((T*)leave(0).p);
  psym_cover("end");
}
ENTRY(single_objects) { switch (choose("type", 0, 7)) { case 0: single<char>(); break; case 1: single<Ob<12, 4>>(); break; case 2: single<Ob<24, 8>>(); break; case 3: single<Ob<16, 16>>(); break; case 4: single<Ob<64, 64>>(); break; case 5: single<Ob<128, 128>>(); break; case 6: single<Ob<256, 256>>(); break; case 7: single<Ob<700, 4>>(); } }
struct Made { Tracked t; unsigned k; Made(unsigned v, unsigned k_) : t(v), k(k_) {} };
ENTRY(create_destroy) {
  typedef parlay::type_allocator<Made> TA; unsigned v = sym<unsigned>("v"), w = sym<unsigned>("w");
  Made* a = TA::create(v, w); Made* b = TA::create(w, v);
  size_t h = psym_heap_live();
  CHECK(a->t.get() == v && a->k == w && b->t.get() == w && b->k == v, "objects are constructed from the arguments");
  TA::destroy(a); CHECK(psym_heap_live() == h - 2, "the object is destroyed"); CHECK(b->t.get() == w, "the other object stays");
  Made* c = TA::create(v, v); CHECK(c->t.get() == v && b->t.get() == w, "objects are constructed from the arguments");
  TA::destroy(b); TA::destroy(c);
  CHECK(TA::num_used_blocks() == 0, "blocks are reported in use when none is");
  psym_cover("end");
}
// ---- pools of chosen sizes
ENTRY(pools) {
  static const size_t few[] = {9, 16, 60, 65, 300, 500, 1024, 1100}; size_t L = P("LEN", 4);
  int big = 0;
  {
    parlay::internal::pool_allocator pool(std::vector<size_t>{16, 64, 320, 1024});     // two of them large, see LARGE_THRESHOLD
    for (size_t i = 0; i < L; i++) {
      size_t op = choose("op", 0, nl);
      if (op == 0) { size_t n = pick(few, 8, "size"); enter(pool.allocate(n), n, n >= 128 ? 128 : n >= 16 ? 16 : 8); }
      else { Live l = leave((int)op - 1); pool.deallocate(l.p, l.n); }
      intact();
      size_t sum = 0; for (int j = 0; j < nl; j++) sum += live[j].n;
      auto st = pool.stats();
      CHECK(st.first >= sum, "less memory is reported in use than is in use");
      CHECK(st.first < (size_t)1 << 40 && st.second < (size_t)1 << 40, "less memory is reserved than used");
    }
    while (nl) { Live l = leave(nl - 1); pool.deallocate(l.p, l.n); }
    CHECK(pool.stats().first == 0, "memory is reported in use when nothing is");
    size_t n = pick(few, 8, "size");
    void* q = pool.allocate(n); pool.deallocate(q, n); size_t reserve = pool.stats().second;
    void* r = pool.allocate(n); pool.deallocate(r, n); CHECK(pool.stats().second == reserve, "freed memory is not used again");
    pool.clear();
    auto st = pool.stats(); CHECK(st.first == 0 && st.second < (size_t)1 << 40, "the reserve after clearing");
    enter(pool.allocate(500), 500, 128); intact(); st = pool.stats(); CHECK(st.first >= 500 && st.second < (size_t)1 << 40, "accounting after clearing"); pool.deallocate(leave(0).p, 500);
  }
  (void)big;
  psym_cover("end");
}
// large blocks go back to the system when the pool is cleared
ENTRY(pools_large) {
  static const size_t few[] = {65, 300, 320, 500, 1024, 1100}; size_t L = P("LEN", 4); void* old[8]; size_t sz[8]; int no = 0;
  parlay::internal::pool_allocator pool(std::vector<size_t>{16, 320, 1024});
  for (size_t i = 0; i < L; i++) {
    size_t op = choose("op", 0, nl);
    if (op == 0) { size_t n = pick(few, 6, "size"); void* q = pool.allocate(n); enter(q, n, 128); old[no] = q; sz[no++] = n; }
    else { Live l = leave((int)op - 1); pool.deallocate(l.p, l.n); if (l.n > 1024) CHECK(!psym_valid(l.p, 1), "a block beyond the largest pool is returned when freed"); }
    intact();
  }
  size_t sum = 0; for (int j = 0; j < nl; j++) sum += live[j].n;
  pool.clear(); intact();
  auto st = pool.stats(); CHECK(st.first >= sum && st.second <= st.first, "the reserve after clearing");
  while (nl) { Live l = leave(nl - 1); pool.deallocate(l.p, l.n); }
  pool.clear();
  st = pool.stats(); CHECK(st.first == 0 && st.second == 0, "clear does not return everything");
  for (int i = 0; i < no; i++) CHECK(!psym_valid(old[i], 1), "clear does not return everything");
  void* q = pool.allocate(400); enter(q, 400, 128); intact(); pool.deallocate(leave(0).p, 400);
  psym_cover("end");
}
// ---- workers that allocate and free at the same time (every interleaving)
static parlay::internal::block_allocator* shared; static int nthr; static size_t script[4];
static std::atomic<size_t*> slot[4];
static size_t* take(size_t tag) { size_t* p = (size_t*)shared->alloc(); CHECK(p != nullptr, "no memory"); ((std::atomic<size_t>*)p)[1].store(tag, std::memory_order_relaxed); return p; }
static void give(size_t* p, size_t tag) { CHECK(((std::atomic<size_t>*)p)[1].load(std::memory_order_relaxed) == tag, "a live block was handed out again"); shared->free(p); }
static void blockWorker(void* a) {
  size_t me = (size_t)a, tag = 100 + me;
  psym_ready(nthr);
  switch (script[me]) {
    case 0: { size_t* p = take(tag); give(p, tag); break; }
    case 1: { size_t* p = take(tag); size_t* q = take(tag + 10); CHECK(p != q, "a live block was handed out again"); give(p, tag); give(q, tag + 10); break; }
    case 2: give(slot[me], 50 + me); break;                                             // from the main thread
    case 3: { size_t* q = slot[me]; size_t* p = take(tag); give(q, 50 + me); size_t* r = take(tag + 10); give(r, tag + 10); give(p, tag); break; }
    case 4: { give(slot[me], 50 + me); size_t* p = take(tag); give(p, tag); break; }
  }
  psym_ready(nthr);
}
static void workers(int T, size_t kinds) {
  psym_quiet(true); nthr = T;
  size_t ll = choose("list length", 1, P("LL", 2)), left = choose("free lists", 0, P("FREE", 1)), out = 0;
  parlay::my_thread_id();
  parlay::internal::block_allocator al(16, 8, 0, ll, 1000); shared = &al;
  for (int t = 0; t < T; t++) { script[t] = choose("script", 0, kinds - 1); }
  for (int t = 0; t < T; t++) if (script[t] >= 2) { slot[t] = take(50 + t); out++; }
  // lists in the shared pool: allocate and free so many that they spill
  { size_t* p[16]; size_t n = left ? (left + 2) * ll : 0; for (size_t i = 0; i < n; i++) p[i] = take(i); for (size_t i = 0; i < n; i++) give(p[i], i); }
  CHECK(al.num_used_blocks() == out, "the number of used blocks");
  for (int t = 0; t < T; t++) psym_spawn(blockWorker, (void*)(size_t)t);
  psym_join();
  CHECK(al.num_used_blocks() == 0, "a freed block is lost");
  // what is in the shared pool and in the list of this thread is whole
  size_t n = al.num_allocated_blocks(); size_t* p[32]; size_t k = n < 8 ? n : 8;
  for (size_t i = 0; i < k; i++) { p[i] = take(i); for (size_t j = 0; j < i; j++) CHECK(p[j] != p[i], "a live block is handed out again"); }
  CHECK(al.num_used_blocks() == k, "the number of used blocks");
  for (size_t i = 0; i < k; i++) give(p[i], i);
  CHECK(al.clear() && al.num_allocated_blocks() == 0, "clear fails although nothing is in use");
  psym_cover("end");
}
ENTRY(two_workers) { workers(2, 5); }
ENTRY(three_workers) { workers(3, 2); }
// a block goes from the worker that allocated it to another one that frees it
static void handOver(void* a) {
  size_t me = (size_t)a, tag = 100 + me;
  psym_ready(nthr);
  size_t* p = take(tag);
  size_t* q = slot[0].exchange(p, std::memory_order_acq_rel);
  if (q) { size_t t = ((std::atomic<size_t>*)q)[1].load(std::memory_order_relaxed); CHECK(t == 100 + (1 - me), "a live block was handed out again"); give(q, t); }
  size_t* r = take(tag + 10); give(r, tag + 10);
  psym_ready(nthr);
}
ENTRY(handed_over) {
  psym_quiet(true); nthr = 2;
  size_t ll = choose("list length", 1, P("LL", 2)); parlay::my_thread_id();
  parlay::internal::block_allocator al(16, 8, 0, ll, 1000); shared = &al; slot[0] = nullptr;
  for (int t = 0; t < 2; t++) psym_spawn(handOver, (void*)(size_t)t);
  psym_join();
  CHECK(al.num_used_blocks() == 1, "the number of used blocks");
  shared->free(slot[0].load());
  CHECK(al.num_used_blocks() == 0, "a freed block is lost");
  CHECK(al.clear() && al.num_allocated_blocks() == 0, "clear fails although nothing is in use");
  psym_cover("end");
}
