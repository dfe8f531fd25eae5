#include <sstream>
#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace llvm;

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static std::string dec(u128 v) { if (v == 0) return "0"; std::string r; while (v) { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } return r; }

static void writeOut(Executor& X) {
  FILE* f = X.opt.out.empty() ? stdout : fopen(X.opt.out.c_str(), "w");
  if (!f) { perror("out"); exit(3); }
  bool complete = !X.timedOut && !X.solverUnknown && X.nUnsupported == 0 && X.nTruncated == 0;
  fprintf(f, "{\"entry\":%s,\"complete\":%s,\"timed_out\":%s,\"solver_unknown\":%s,\n", js(X.opt.entry).c_str(), complete ? "true" : "false", X.timedOut ? "true" : "false", X.solverUnknown ? "true" : "false");
  fprintf(f, "\"paths\":%lu,\"completed\":%lu,\"assume_failed\":%lu,\"forks\":%lu,\"instructions\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,\"race_checks\":%lu,\"thrown\":%lu,\"normal_form_decided\":%lu,\"unsupported\":%lu,\"truncated\":%lu,\n",
          X.nPaths, X.nCompleted, X.nAssumeFail, X.nForks, X.nInstr, X.nAsserts, X.nAssertQueries, X.nRaceChecks, X.nThrown, X.nNormal, X.nUnsupported, X.nTruncated);
  fprintf(f, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"order_decided\":%lu,\"bdd_decided\":%lu,\"z3_confirmed\":%lu,\"solver_s\":%.2f,\"wall_s\":%.2f,\n", X.S.nQueries, X.S.nSat, X.S.nUnsat, X.S.nUnknown, X.S.nOrder, X.S.nBdd, X.S.nConfirmed, X.S.solveTime, nowSec() - X.t0);
  for (auto& kv : X.extra) fprintf(f, "%s:%s,\n", js(kv.first).c_str(), kv.second.c_str());
  fprintf(f, "\"unsupported_what\":[");
  bool first = true;
  for (auto& u : X.unsupportedWhat) { fprintf(f, "%s%s", first ? "" : ",", js(u).c_str()); first = false; }
  fprintf(f, "],\n\"covers\":{");
  first = true;
  for (auto& u : X.covers) { fprintf(f, "%s%s:%lu", first ? "" : ",", js(u.first).c_str(), u.second); first = false; }
  fprintf(f, "},\n\"functions\":[");
  first = true;
  for (auto& u : X.functions) {
    std::string d = llvm::demangle(u);
    // drop template arguments and parameters
    std::string o; int depth = 0;
    for (size_t i = 0; i < d.size(); i++) { char c = d[i]; if (c == '<') depth++; else if (c == '>') { if (depth) depth--; } else if (!depth) { if (c == '(') break; o += c; } }
    fprintf(f, "%s%s", first ? "" : ",", js(o).c_str()); first = false;
  }
  fprintf(f, "],\n\"samples\":[");
  first = true;
  for (auto& u : X.samples) {
    fprintf(f, "%s[", first ? "" : ",\n"); first = false; bool f2 = true;
    for (auto& i : u) { fprintf(f, "%s[%s,\"%s\"]", f2 ? "" : ",", js(i.first).c_str(), dec(i.second).c_str()); f2 = false; }
    fprintf(f, "]");
  }
  fprintf(f, "],\n\"violations\":[");
  first = true;
  for (auto& v : X.violations) {
    fprintf(f, "%s\n{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"inputs\":[", first ? "" : ",", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str());
    first = false; bool f2 = true;
    for (auto& i : v.inputs) { fprintf(f, "%s[%s,\"%s\"]", f2 ? "" : ",", js(i.first).c_str(), dec(i.second).c_str()); f2 = false; }
    fprintf(f, "],\"schedule\":[");
    f2 = true;
    for (auto t : v.schedule) { fprintf(f, "%s%d", f2 ? "" : ",", (int)t); f2 = false; }
    fprintf(f, "],\"trace\":[");
    f2 = true;
    for (auto& t : v.trace) { fprintf(f, "%s%s", f2 ? "" : ",\n", js(t).c_str()); f2 = false; }
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
}

// Every use of a thread-local variable goes through llvm.threadlocal.address.
static void threadLocals(llvm::Module& M) {
  using namespace llvm;
  std::vector<GlobalVariable*> G;
  for (auto& g : M.globals()) if (g.isThreadLocal()) G.push_back(&g);
  std::vector<Constant*> cs(G.begin(), G.end());
  convertUsersOfConstantsToInstructions(cs);
  for (auto* g : G) {
    auto* F = Intrinsic::getDeclaration(&M, Intrinsic::threadlocal_address, {g->getType()});
    std::vector<Use*> us;
    for (auto& u : g->uses()) if (auto* I = dyn_cast<Instruction>(u.getUser())) { auto* ii = dyn_cast<IntrinsicInst>(I); if (!ii || ii->getIntrinsicID() != Intrinsic::threadlocal_address) us.push_back(&u); }
    for (auto* u : us) {
      auto* I = cast<Instruction>(u->getUser());
      Instruction* at = I;
      if (auto* p = dyn_cast<PHINode>(I)) at = p->getIncomingBlock(*u)->getTerminator();
      u->set(CallInst::Create(F, {g}, "", at));
    }
  }
}
static int gargc, gConfirm = 0; static char** gargv;
static void* body(void*) {
  Options o;
  std::string bc;
  for (int i = 1; i < gargc; i++) {
    std::string a = gargv[i];
    auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
    const char* v;
    if ((v = val("--entry="))) o.entry = v;
    else if ((v = val("--out="))) o.out = v;
    else if ((v = val("--time="))) o.timeBudget = atof(v);
    else if ((v = val("--max-steps="))) o.maxSteps = strtoull(v, 0, 10);
    else if ((v = val("--max-ite="))) o.maxIteCands = strtoull(v, 0, 10);
    else if ((v = val("--max-viol="))) o.maxViolations = atoi(v);
    else if ((v = val("--kinds="))) { std::stringstream ss(v); std::string k; while (std::getline(ss, k, ',')) o.kinds.insert(k); }
    else if (a == "--race") o.race = true;
    else if (a == "--lenient-race") o.strictRace = false;
    else if (a == "--fork-select") o.forkSelect = true;
    else if ((v = val("--confirm-every="))) gConfirm = atoi(v);
    else if (a == "-v") o.verbose = true;
    else if ((v = val("--conc="))) o.conc = v;
    else if ((v = val("--preempt="))) o.preempt = atoi(v);
    else if ((v = val("--slack="))) o.slack = atoi(v);
    else if ((v = val("--max-visible="))) o.maxVisible = atoi(v);
    else if ((v = val("--spurious="))) o.spurious = atoi(v);
    else if (a == "--no-dpor") o.dpor = false;
    else if (a == "--reuse") o.reuse = true;
    else if (a == "--tight-align") o.tightAlign = true;
    else if ((v = val("--param="))) { const char* eq = strchr(v, '='); o.params[std::string(v, eq - v)] = atol(eq + 1); }
    else bc = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("psym", errs()); exit(3); }
  if (!o.conc.empty()) threadLocals(*M);
  Executor X(std::move(M), o);
  X.S.confirmEvery = gConfirm;
  if (!o.conc.empty()) X.runConc(); else X.run();
  writeOut(X);
  fflush(nullptr);
  _exit(0);
}
int main(int argc, char** argv) {
  gargc = argc; gargv = argv;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ul << 30);
  pthread_t t; pthread_create(&t, &at, body, nullptr); pthread_join(t, nullptr);
  return 0;
}
