// Native replay runtime: supplies the recorded input values to a harness compiled for real.
#include "../psym.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

static std::map<std::string, uint64_t>* inputs;
static std::map<std::string, long>* params;
static std::map<std::string, unsigned>* counts;
static std::mutex* mu;
static bool tracking = false;
static std::unordered_map<void*, size_t>* live;
static thread_local int inside = 0;
static int counting = 1;

struct Inside { Inside() { inside++; } ~Inside() { inside--; } };
static uint64_t input(const char* name) {
  Inside in;
  std::lock_guard<std::mutex> g(*mu);
  unsigned n = (*counts)[name]++;
  std::string nm = n ? std::string(name) + "#" + std::to_string(n) : name;
  for (auto& ch : nm) if (ch == ' ') ch = '_';       // as in the inputs file
  auto it = inputs->find(nm);
  return it == inputs->end() ? 0 : it->second;
}
extern "C" {
bool psym_engine(void) { return false; }
uint64_t psym_u64(const char* name, unsigned bits) { uint64_t v = input(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
static uint64_t inRange(const char* name, uint64_t lo, uint64_t hi) {
  if (lo > hi) { fprintf(stderr, "REPLAY: empty range\n"); _Exit(42); }
  uint64_t v = input(name);
  if (v < lo || v > hi) v = lo;
  return v;
}
uint64_t psym_range(const char* name, uint64_t lo, uint64_t hi) { return lo == hi ? lo : inRange(name, lo, hi); }
uint64_t psym_choose(const char* name, uint64_t lo, uint64_t hi) { return inRange(name, lo, hi); }
void psym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); _Exit(42); } }
void psym_assert_(bool c, const char* msg) { if (!c) { fprintf(stderr, "REPLAY: property violated: %s\n", msg); abort(); } }
void psym_cover(const char*) {}
bool psym_sat(bool c) { return c; }
int psym_catch(void (*f)(void*), void* arg) { try { f(arg); return 0; } catch (...) { return 1; } }
size_t psym_heap_live(void) { std::lock_guard<std::mutex> g(*mu); return live->size(); }
long psym_param(const char* name, long d) { Inside in; auto it = params->find(name); return it == params->end() ? d : it->second; }
void psym_escape(const void*) {}
void psym_fork_begin(void) {}
void psym_fork_mid(void) {}
void psym_fork_end(void) {}
void psym_symbolic(void* p, size_t n, const char* name) {
  Inside in;
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)input((std::string(name) + "[" + std::to_string(i) + "]").c_str());
}
// concurrency harnesses: real threads, in whatever order they run
static std::vector<std::thread>* spawned;
void psym_spawn(void (*f)(void*), void* a) { Inside in; if (!spawned) spawned = new std::vector<std::thread>; spawned->emplace_back([=] { f(a); }); }
void psym_join(void) { Inside in; if (spawned) { for (auto& t : *spawned) t.join(); spawned->clear(); } }
void psym_quiet(bool) {}
void psym_timeouts(bool) {}
void psym_ready(unsigned) {}
uint64_t psym_mark(int) { static std::atomic<uint64_t> t{1}; return t++; }
bool psym_valid(const void*, size_t) { return true; }
}
#ifndef PSYM_NATIVE_THREADS
static void note(void* p, size_t n) { if (!tracking || inside) return; inside++; { std::lock_guard<std::mutex> g(*mu); (*live)[p] = n; } inside--; }
static void unnote(void* p, size_t n, bool sized) {
  if (!tracking || inside || !p) return;
  inside++;
  {
    std::lock_guard<std::mutex> g(*mu);
    auto it = live->find(p);
    if (it != live->end()) {
      if (sized && it->second != n) { fprintf(stderr, "REPLAY: sized delete of %zu bytes on a block of %zu\n", n, it->second); abort(); }
      live->erase(it);
    }
  }
  inside--;
}
void* operator new(size_t n) { void* p = malloc(n); if (!p) abort(); note(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { void* p = nullptr; if (posix_memalign(&p, (size_t)a < 8 ? 8 : (size_t)a, n)) abort(); note(p, n); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { unnote(p, 0, false); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t n) noexcept { unnote(p, n, true); free(p); }
void operator delete[](void* p, size_t n) noexcept { operator delete(p, n); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { operator delete(p, n); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { operator delete(p, n); }
#endif

int main(int argc, char** argv) {
  inside = 1;
  inputs = new std::map<std::string, uint64_t>(); params = new std::map<std::string, long>(); counts = new std::map<std::string, unsigned>();
  mu = new std::mutex(); live = new std::unordered_map<void*, size_t>();
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  char nm[400]; unsigned long long v;
  while (fscanf(f, "%399s %llu", nm, &v) == 2) {
    if (!strncmp(nm, "param:", 6)) (*params)[nm + 6] = (long)v; else (*inputs)[nm] = v;
  }
  fclose(f);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  tracking = true; inside = 0;
  e();
  inside = 1;
  fprintf(stderr, "REPLAY: completed without a failure\n");
  _Exit(0);
}
