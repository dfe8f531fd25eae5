// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t psym_u64(const char* name, unsigned bits);                   // any value of the width
uint64_t psym_range(const char* name, uint64_t lo, uint64_t hi);      // any value in [lo,hi], stays symbolic
uint64_t psym_choose(const char* name, uint64_t lo, uint64_t hi);     // any value in [lo,hi], one path each
void psym_assume(bool c);
void psym_assert_(bool c, const char* msg);
void psym_cover(const char* what);
int psym_catch(void (*f)(void*), void* arg);                          // 1 if f threw
size_t psym_heap_live(void);                                          // number of live heap blocks
long psym_param(const char* name, long dflt);
bool psym_engine(void);
bool psym_sat(bool c);                                                // forks: lets the executor split on c
void psym_escape(const void* p);                                      // keeps captured variables in memory
void psym_fork_begin(void);
void psym_fork_mid(void);
void psym_fork_end(void);
void psym_symbolic(void* p, size_t n, const char* name);
bool psym_valid(const void* p, size_t n);                             // points into one live object
void psym_spawn(void (*f)(void*), void* arg);                         // concurrency harnesses
void psym_join(void);
void psym_quiet(bool on);                                             // one fixed order until all threads are ready
void psym_timeouts(bool on);                                           // time-limited sleeps may end by themselves
void psym_ready(unsigned n);                                          // first: start of the operations; second: their end
uint64_t psym_mark(int response);                                     // start (0) or end (1) of an operation; the time
}
#define psym_assert(c, msg) psym_assert_(static_cast<bool>(c), msg)
template <typename F> int psym_throws(F f) { return psym_catch([](void* p) { (*static_cast<F*>(p))(); }, &f); }
inline int psym_int(const char* n) { return (int)psym_u64(n, 32); }
