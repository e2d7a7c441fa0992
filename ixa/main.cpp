// ixa: path-sensitive typestate dataflow over LLVM IR.
#include "monitors.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
using namespace ixa;
using namespace llvm;
int main(int argc, char **argv) {
  std::string cfg, bc, out, mons = "lock", rootPrefix = "root_", rootExact;
  int verbose = 0, cap = 24;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-v")
      verbose++;
    else if (a == "-o")
      out = argv[++i];
    else if (a == "-m")
      mons = argv[++i];
    else if (a == "-r")
      rootPrefix = argv[++i];
    else if (a == "-R")
      rootExact = argv[++i];
    else if (a == "-cfg")
      cfg = argv[++i];
    else if (a == "-cap")
      cap = atoi(argv[++i]);
    else
      bc = a;
  }
  LLVMContext C;
  SMDiagnostic D;
  auto M = parseIRFile(bc, D, C);
  if (!M) {
    D.print("ixa", errs());
    return 2;
  }
  Engine e;
  e.M = M.get();
  e.verbose = verbose;
  e.capJoin = cap;
  e.constFields = {"m_root_mutex", "m_stats", "root_mtx", "count", "node_type", "height", "lowkey", "highkey", "level", "key",
                   "num_buckets", "buckets", "link", "stats", "mem"};
  auto has = [&](const char *m) { return ("," + mons + ",").find(std::string(",") + m + ",") != std::string::npos; };
  auto opt = [&](const char *m) { return ("," + cfg + ",").find(std::string(",") + m + ",") != std::string::npos; };
  e.fineMem = opt("fine-mem");
  e.enumEnv = opt("enum-env");
  LockCfg lc;
  lc.rootNonNull = lc.linkNonNull = !opt("nullable-links");
  lc.nullLatch = lc.rootNonNull;
  if (has("lock"))
    e.mons.push_back(makeLockMon(&e, lc));
  MemCfg mc;
  mc.rootMutexProtects = opt("root-mutex");
  mc.retireNeedsDead = !opt("no-dead-mark");
  mc.epoch = has("epoch");
  mc.own = has("own");
  mc.retire = has("retire");
  mc.guard = has("guard");
  if (mc.epoch || mc.own || mc.retire || mc.guard)
    e.mons.push_back(makeMemMon(&e, mc));
  if (has("count"))
    e.mons.push_back(makeStatMon(&e));
  if (has("version"))
    e.mons.push_back(makeVerMon(&e));
  if (has("validate"))
    e.mons.push_back(makeOptMon(&e));
  if (has("epochmgr"))
    e.mons.push_back(makeEpoMon(&e));
  SoloCfg sc;
  sc.own = has("solo");
  sc.size = has("solosize");
  sc.cow = opt("cow");
  sc.nodePerKey = opt("node-per-key");
  if (sc.own || sc.size) {
    e.mons.push_back(makeSoloMon(&e, sc));
    e.concurrent = false;
    e.unroll = 1;
    e.constFields.erase("count");
  }
  if (has("migrate"))
    e.mons.push_back(makeMigMon(&e));
  if (has("slot"))
    e.mons.push_back(makeSlotMon(&e));
  e.init();
  json::Array roots;
  for (auto &F : *M) {
    if (F.isDeclaration() || !F.getName().starts_with(rootPrefix) || (!rootExact.empty() && F.getName() != rootExact))
      continue;
    auto t0 = std::chrono::steady_clock::now();
    uint64_t s0 = e.nStates;
    e.runRoot(&F);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (verbose)
      errs() << F.getName() << ": " << (e.nStates - s0) << " states " << dt << "s" << (e.overflow ? " OVERFLOW" : "") << "\n";
    roots.push_back(json::Object{{"root", F.getName().str()}, {"states", (int64_t)(e.nStates - s0)}, {"complete", !e.overflow}, {"returns", (int64_t)e.nReturns}, {"seconds", dt}});
    e.overflow = false;
  }
  json::Array vs;
  for (auto &[k, v] : e.viols) {
    json::Array st, tr;
    for (auto &x : v.stack)
      st.push_back(x);
    for (auto &x : v.trail)
      tr.push_back(x);
    vs.push_back(json::Object{{"prop", v.prop}, {"rule", v.rule}, {"function", v.fn}, {"file", v.file}, {"line", v.line}, {"root", v.root}, {"message", v.msg}, {"stack", std::move(st)}, {"trail", std::move(tr)}});
  }
  json::Object cnt;
  for (auto &[k, v] : e.counts) {
    json::Array a;
    for (auto &x : v)
      a.push_back(x);
    cnt[k] = std::move(a);
  }
  json::Array fns, op;
  for (auto &f : e.analysedFns)
    fns.push_back(f);
  for (auto &f : e.opaqueSeen)
    op.push_back(f);
  json::Object o{{"roots", std::move(roots)}, {"violations", std::move(vs)}, {"instances", std::move(cnt)}, {"functions", std::move(fns)}, {"opaque", std::move(op)},
                 {"stats", json::Object{{"states", (int64_t)e.nStates}, {"steps", (int64_t)e.nSteps}, {"joins", (int64_t)e.nJoins}, {"loops", (int64_t)e.nLoops}, {"widenings", (int64_t)e.nWiden}, {"max_states_at_point", (int64_t)e.maxStates}, {"symbols", (int64_t)P.symInfo.size()}}}};
  std::error_code ec;
  raw_fd_ostream os(out.empty() ? "-" : out, ec);
  os << formatv("{0:2}", json::Value(std::move(o))) << "\n";
  return 0;
}
