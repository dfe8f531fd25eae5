// Z3 back end. One long-lived incremental solver kept in step with the depth-first
// path prefix, plus a one-shot QF_BV fallback for queries that exceed a soft limit.
#pragma once
#include "expr.h"
#include "bdd.h"
#include <z3.h>
#include <vector>
#include <unordered_map>

enum SatRes { SAT, UNSAT, UNKNOWN };

struct Solver {
  Z3_context ctx;
  Z3_solver inc;
  std::vector<E> stack;              // constraints currently pushed, one scope each
  std::unordered_map<uint32_t, Z3_ast> cache;
  uint64_t nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nOneShot = 0;
  double solveTime = 0;
  unsigned softMs = 3000, hardMs = 60000;
  bool usesFp = false;
  uint64_t nOrder = 0;               // queries decided by the order procedure below
  const Model* hint = nullptr;       // a model of the path, if known
  // Decision procedure for comparison literals: returns SAT/UNSAT when decided, UNKNOWN otherwise.
  SatRes orderCheck(const std::vector<E>& path, E extra, Model* m);
  Bdd bdd;
  uint64_t nBdd = 0, nConfirmed = 0; // decided by diagrams; unsatisfiable verdicts z3 was asked to confirm
  unsigned confirmEvery = 0;
  SatRes bddCheck(const std::vector<E>& path, E extra, Model* m);
  const std::vector<uint32_t>& symsOf(E e);
  std::unordered_map<uint32_t, std::vector<uint32_t>> symCache;
  Solver();
  Z3_ast tr(E e);
  Z3_ast trBool(E e);
  // path /\ extra satisfiable?  model filled when SAT
  SatRes check(const std::vector<E>& path, E extra, Model* m);
  SatRes oneShot(const std::vector<E>& path, E extra, Model* m, unsigned ms);
  void getModel(Z3_model zm, Model* m, const std::vector<E>& path, E extra);
};
double nowSec();
