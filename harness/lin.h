// Linearizability of a recorded history: is there an order of the operations, respecting real time,
// in which a sequential model gives every operation the result it had?
#pragma once
#include "common.h"
struct Op { int kind; int arg; int res; unsigned long inv, ret; int thread; unsigned pay; };
// Model: struct with bool apply(const Op&) (false: the result does not fit); copied freely
template <typename Model> static bool linearizable(const Op* ops, int n, unsigned used, const Model& m) {
  if (used == (1u << n) - 1) return true;
  for (int i = 0; i < n; i++) {
    if (used >> i & 1) continue;
    bool first = true;
    for (int j = 0; j < n; j++) if (!(used >> j & 1) && (ops[j].thread == ops[i].thread ? j < i : ops[j].ret < ops[i].inv)) first = false;
    if (!first) continue;
    Model k = m;
    if (k.apply(ops[i]) && linearizable(ops, n, used | 1u << i, k)) return true;
  }
  return false;
}
