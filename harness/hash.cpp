// The phase-concurrent hash table: histories, hash placements, and every interleaving of one phase.
#include <parlay/hash_table.h>
#include "common.h"
typedef uint32_t u32;
static unsigned place[16];                        // where a key wants to be: any placement
static const u32 EMPTY = ~0u;
// reads of a cell are atomic (and so are scheduling points)
struct Cell {
  u32 v;
  Cell() : v(EMPTY) {}
  Cell(u32 x) : v(x) {}
  Cell(const Cell& o) : v(__atomic_load_n(&o.v, __ATOMIC_RELAXED)) {}
  Cell& operator=(const Cell& o) { __atomic_store_n(&v, __atomic_load_n(&o.v, __ATOMIC_RELAXED), __ATOMIC_RELAXED); return *this; }
  bool operator==(const Cell& o) const { return v == o.v; }
  bool operator!=(const Cell& o) const { return v != o.v; }
};
// key in the upper part, value in the lower part; MODE 0: the first value stays, 1: the larger one replaces, 2: values are added
template <typename E, int MODE> struct H {
  using eType = E; using kType = u32;
  static u32 raw(const E& e) { if constexpr (std::is_same_v<E, Cell>) return e.v; else return e; }
  eType empty() { return E(EMPTY); }
  kType getKey(eType e) { return raw(e) >> 16; }
  size_t hash(kType k) { return place[k]; }
  int cmp(kType a, kType b) { return a > b ? 1 : a == b ? 0 : -1; }
  bool replaceQ(eType n, eType o) { return MODE == 0 ? false : MODE == 1 ? (raw(n) & 0xffff) > (raw(o) & 0xffff) : true; }
  eType update(eType o, eType n) { return E((raw(o) & 0xffff0000u) | ((raw(o) + raw(n)) & 0xffff)); }
  bool cas(eType* p, eType o, eType n) { u32 x = raw(o); return __atomic_compare_exchange_n((u32*)p, &x, raw(n), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); }
};
static u32 el(u32 k, u32 val = 0) { return (k << 16) | val; }
static void placements(int K) { static const unsigned where[] = {98, 99, 0, 1}; int n = P("PL", 3); for (int k = 0; k < K; k++) place[k] = where[choose("place", 0, n - 1)]; }
struct Set { bool in[16] = {}; u32 val[16] = {}; int count(int K) { int c = 0; for (int k = 0; k < K; k++) c += in[k]; return c; } };
// the table holds exactly the set, in whatever way one asks
template <typename T, typename E> static void matches(T& t, Set& s, int K) {
  for (int k = 0; k < K; k++) {
    u32 e = H<E, 0>::raw(t.find(k));
    CHECK((e != EMPTY) == s.in[k], s.in[k] ? "a key in the table is not found" : "a key that is not in the table is found");
    if (s.in[k]) CHECK(e == el(k, s.val[k]), "the entry of a key has the wrong value");
    CHECK((t.findIndex(k) != (size_t)-1) == s.in[k], "findIndex disagrees with find");
  }
  CHECK(t.count() == (size_t)s.count(K), "the number of entries");
  auto es = t.entries(); CHECK(es.size() == (size_t)s.count(K), "an entry is duplicated or lost");
  bool seen[16] = {};
  for (auto& x : es) { u32 e = H<E, 0>::raw(x); u32 k = e >> 16; CHECK(k < (u32)K && s.in[k] && !seen[k], "an entry is duplicated or lost"); seen[k] = true; CHECK(e == el(k, s.val[k]), "the entry of a key has the wrong value"); }
  auto ix = t.get_index(); CHECK(ix.size() >= 100, "an index for every slot");
  for (int k = 0; k < K; k++) if (s.in[k]) { size_t i = ix[t.findIndex(k)]; CHECK(i < es.size() && (H<E, 0>::raw(es[i]) >> 16) == (u32)k, "get_index gives the position of an entry among the entries"); }
}
// the layout does not depend on the order of the operations
template <typename T, typename E, int M> static void canonical(T& t, Set& s, int K) {
  parlay::hashtable<H<E, M>> f(0, H<E, M>{});
  for (int k = 0; k < K; k++) if (s.in[k]) f.insert(E(el(k, s.val[k])));
  auto a = t.entries(); auto b = f.entries();
  CHECK(a.size() == b.size(), "the number of entries");
  for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i], "the layout of the table depends on its history");
  for (int k = 0; k < K; k++) CHECK(t.findIndex(k) == f.findIndex(k), "the layout of the table depends on its history");
}
static int other(int K, Set& s) { int left = 0; for (int k = 0; k < K; k++) left += !s.in[k]; if (!left) return (int)choose("key", 0, K - 1); int c = (int)choose("new key", 0, left - 1); for (int k = 0; k < K; k++) if (!s.in[k] && c-- == 0) return k; return 0; }
template <int M> static void histories() {
  bool perm = P("PERM", 0);
  int K = P("KEYS", 3); placements(K); Set s;
  parlay::hashtable<H<u32, M>> t(0, H<u32, M>{});
  for (size_t i = 0, n = P("INS", 4); i < n; i++) {
    int k = perm ? other(K, s) : (int)choose("key", 0, K - 1); u32 v = M ? sym<uint16_t>("value") : 0; if (M) psym_assume(v < 0x2000);
    bool fresh = !s.in[k], wins = M == 1 ? v > s.val[k] : M == 2;
    bool r = M == 2 ? t.update(el(k, v)) : t.insert(el(k, v));
    CHECK(r == (fresh || wins), "insert reports whether the entry went in");
    if (fresh) { s.in[k] = true; s.val[k] = v; } else if (wins) s.val[k] = M == 2 ? s.val[k] + v : v;
  }
  matches<decltype(t), u32>(t, s, K);
  for (size_t i = 0, n = P("DEL", 1); i < n; i++) { int k = (int)choose("deleted key", 0, K - 1); CHECK(t.deleteVal(k), "a deletion reports success"); s.in[k] = false; }
  matches<decltype(t), u32>(t, s, K);
  canonical<decltype(t), u32, M>(t, s, K);
  int k = 0; bool r = t.insert(el(k, 1)); if (!s.in[k]) { CHECK(r, "a deleted key can be inserted again"); s.in[k] = true; s.val[k] = 1; } else if (M == 1 && s.val[k] < 1) s.val[k] = 1; else if (M == 2) s.val[k] = 1;
  matches<decltype(t), u32>(t, s, K);
  psym_cover("end");
}
ENTRY(history) { histories<0>(); }
ENTRY(history_priority) { histories<1>(); }
ENTRY(history_update) { histories<2>(); }
// the numeric hash of the library, symbolic keys
ENTRY(numeric) {
  typedef int64_t T; size_t n = P("N", 3); T k[4], q = sym<T>("query"); psym_assume(q != -1);
  parlay::hashtable<parlay::hash_numeric<T>> t(n, parlay::hash_numeric<T>{});
  bool eq[4];
  for (size_t i = 0; i < n; i++) { k[i] = (T)choose("key", 0, 4); bool dup = false; for (size_t j = 0; j < i; j++) if (k[j] == k[i]) dup = true; eq[i] = dup; CHECK(t.insert(k[i]) == !dup, "insert reports whether the entry went in"); }
  size_t c = 0; for (size_t i = 0; i < n; i++) c += !eq[i];
  CHECK(t.count() == c && t.entries().size() == c, "the number of entries");
  for (size_t i = 0; i < n; i++) CHECK(t.find(k[i]) == k[i], "a key in the table is not found");
  t.deleteVal(k[0]); CHECK(t.find(k[0]) == -1, "a deleted key is found");
  for (size_t i = 1; i < n; i++) CHECK(t.find(k[i]) == (k[i] == k[0] ? -1 : k[i]), "a deletion affects another key");
  (void)q;
  psym_cover("end");
}
// ---- concurrent phases
template <int M> static parlay::hashtable<H<Cell, M>>* tab;
static u32 todo[8]; static int from[5], nthr; static bool res[8];
template <int M> static void inserter(void* a) { int me = (int)(size_t)a; psym_ready(nthr); for (int i = from[me]; i < from[me + 1]; i++) res[i] = M == 2 ? tab<M>->update(Cell(todo[i])) : tab<M>->insert(Cell(todo[i])); psym_ready(nthr); }
template <int M> static void deleter(void* a) { int me = (int)(size_t)a; psym_ready(nthr); for (int i = from[me]; i < from[me + 1]; i++) res[i] = tab<M>->deleteVal(todo[i] >> 16); psym_ready(nthr); }
static void divide(int counts) { nthr = 0; for (int c = counts; c; c /= 10) { from[nthr + 1] = from[nthr] + c % 10; nthr++; } }
template <int M> static void inserts(int counts, int initial, bool strict) {
  psym_quiet(true); divide(counts);
  int K = P("KEYS", 3); placements(K); Set s;
  parlay::hashtable<H<Cell, M>> t(0, H<Cell, M>{}); tab<M> = &t;
  for (int i = 0; i < initial; i++) { int k = (int)choose("initial key", 0, K - 1); if (!s.in[k]) { s.in[k] = true; s.val[k] = M ? sym<uint16_t>("value") & 0x3fff : 0; t.insert(Cell(el(k, s.val[k]))); } }
  Set was = s; int n = from[nthr];
  bool sym1 = P("counts", 0) == 11 || P("counts", 0) == 111; int least = 0;     // the threads are interchangeable
  for (int i = 0; i < n; i++) { int k = (int)choose("key", M == 0 && sym1 ? least : 0, K - 1); least = k; u32 v = M ? sym<uint16_t>("value") & 0x3fff : 0; todo[i] = el(k, v); if (!s.in[k]) { s.in[k] = true; s.val[k] = v; } else if (M == 1) { if (v > s.val[k]) s.val[k] = v; } else if (M == 2) s.val[k] += v; }
  for (int i = 0; i < nthr; i++) psym_spawn(inserter<M>, (void*)(size_t)i);
  psym_join();
  int ok = 0; for (int i = 0; i < n; i++) ok += res[i];
  if (M == 0) CHECK(ok == s.count(K) - was.count(K), "insertions report success as many times as there are new keys");
  if (M == 2) CHECK(ok == n, "updates report success");
  if (strict) for (int i = 0; i < n; i++) { int same = 0; for (int j = 0; j < n; j++) same += (todo[j] >> 16) == (todo[i] >> 16); if (same == 1 && !was.in[todo[i] >> 16]) CHECK(res[i], "the only insertion of a new key reports failure"); }
  matches<decltype(t), Cell>(t, s, K); canonical<decltype(t), Cell, M>(t, s, K);
  psym_cover("end");
}
template <int M> static void deletes(int counts, int initial) {
  psym_quiet(true); divide(counts);
  int K = P("KEYS", 3); placements(K); Set s;
  parlay::hashtable<H<Cell, M>> t(0, H<Cell, M>{}); tab<M> = &t;
  for (int k = 0; k < K; k++) if (k < initial) { s.in[k] = true; s.val[k] = 7 + k; t.insert(Cell(el(k, 7 + k))); }
  int n = from[nthr];
  bool sym1 = P("counts", 0) == 11 || P("counts", 0) == 111; int least = 0;
  for (int i = 0; i < n; i++) { int k = (int)choose("key", sym1 ? least : 0, K - 1); least = k; todo[i] = el(k); s.in[k] = false; }
  for (int i = 0; i < nthr; i++) psym_spawn(deleter<M>, (void*)(size_t)i);
  psym_join();
  matches<decltype(t), Cell>(t, s, K); canonical<decltype(t), Cell, M>(t, s, K);
  psym_cover("end");
}
ENTRY(insert_two) { inserts<0>(P("counts", 22), P("init", 1), false); }
ENTRY(insert_three) { inserts<0>(P("counts", 111), P("init", 1), false); }
ENTRY(insert_returns) { inserts<0>(P("counts", 11), 1, true); }
ENTRY(insert_priority) { inserts<1>(P("counts", 12), P("init", 1), false); }
ENTRY(update_two) { inserts<2>(P("counts", 12), P("init", 1), false); }
ENTRY(delete_two) { deletes<0>(P("counts", 12), P("init", 3)); }
ENTRY(delete_three) { deletes<0>(P("counts", 111), P("init", 3)); }
