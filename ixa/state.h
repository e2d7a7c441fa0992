// Abstract state: value environment per inlined frame, a cell memory, known
// facts and monitor (typestate) tuples.
#pragma once
#include "expr.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <functional>
#include <memory>
#include <optional>

namespace ixa {
using llvm::BasicBlock;
using llvm::CallBase;
using llvm::Function;
using llvm::Instruction;
using llvm::Loop;
using llvm::Value;

struct ELess {
  bool operator()(E a, E b) const { return a->id < b->id; }
};
struct MemKey {
  E base, off;
  bool operator<(const MemKey &o) const {
    if (base->id != o.base->id)
      return base->id < o.base->id;
    return off->id < o.off->id;
  }
  bool operator==(const MemKey &o) const { return base == o.base && off == o.off; }
};
struct Cell {
  E val;
  uint32_t size;
  bool atomic = false;
  bool operator==(const Cell &o) const { return val == o.val && size == o.size && atomic == o.atomic; }
};

// Monitor tuple. sig = tag + strkey identify the typestate; args are abstract values.
struct Mon {
  std::string tag;
  std::vector<E> args;
  std::string note; // diagnostics only (source line where created)
  bool operator==(const Mon &o) const { return tag == o.tag && args == o.args; }
};

struct Frame {
  const Function *F = nullptr;
  const CallBase *call = nullptr;
  std::map<const Value *, E> env; // key order irrelevant (numbered for canon)
  std::vector<E> allocas;
};

struct Trace; // decision trail for reports
using TraceP = std::shared_ptr<const Trace>;
struct Trace {
  TraceP prev;
  const Instruction *inst;
  bool taken;
  ~Trace() {
    // unlink iteratively: trails can be long
    while (prev && prev.use_count() == 1) {
      TraceP n = const_cast<Trace *>(prev.get())->prev;
      const_cast<Trace *>(prev.get())->prev.reset();
      prev = n;
    }
  }
};

struct State {
  std::vector<Frame> frames;
  std::map<MemKey, Cell> mem;
  std::set<E, ELess> facts;
  std::vector<Mon> mons;
  TraceP trace;
  bool dead = false;

  Frame &top() { return frames.back(); }
  Mon *find(const std::string &tag) {
    for (auto &m : mons)
      if (m.tag == tag)
        return &m;
    return nullptr;
  }
  Mon *find(const std::string &tag, E a0) {
    for (auto &m : mons)
      if (m.tag == tag && !m.args.empty() && m.args[0] == a0)
        return &m;
    return nullptr;
  }
  Mon *find2(const std::string &tag, E a0, E a1) {
    for (auto &m : mons)
      if (m.tag == tag && m.args.size() > 1 && m.args[0] == a0 && m.args[1] == a1)
        return &m;
    return nullptr;
  }
  void erase(const std::string &tag, E a0 = nullptr) {
    std::vector<Mon> v;
    for (auto &m : mons)
      if (!(m.tag == tag && (!a0 || (!m.args.empty() && m.args[0] == a0))))
        v.push_back(m);
    mons = v;
  }
  void addMon(const std::string &tag, std::vector<E> a, const std::string &note = "") {
    for (auto &m : mons)
      if (m.tag == tag && m.args == a)
        return;
    mons.push_back({tag, std::move(a), note});
  }
  std::vector<Mon> all(const std::string &tag) const {
    std::vector<Mon> v;
    for (auto &m : mons)
      if (m.tag == tag)
        v.push_back(m);
    return v;
  }
};

struct FnInfo {
  std::unique_ptr<llvm::DominatorTree> DT;
  std::unique_ptr<llvm::LoopInfo> LI;
  std::map<const BasicBlock *, int> rpo;
  std::map<const BasicBlock *, std::set<const Value *>> liveIn;
  std::map<const Value *, int> num;
  std::string dem, strip; // demangled, template-stripped
  std::string method, cls;
};

struct Violation {
  std::string prop, rule, fn, file, root, msg;
  int line = 0;
  std::vector<std::string> stack, trail;
};

struct Engine;
struct Monitor {
  virtual ~Monitor() {}
  Engine *eng = nullptr;
  virtual void onStart(State &) {}
  // return true when the call was handled; push successor states in out.
  virtual bool onCall(State &, const CallBase *, const std::string &name,
                      std::vector<E> &args, std::vector<State> &out) { return false; }
  virtual void onEnter(State &, const CallBase *, const std::string &name, std::vector<E> &args) {}
  virtual void onRecursion(State &, const CallBase *, const std::string &name, std::vector<E> &args) {}
  virtual void onLeave(State &, const CallBase *, const std::string &name, E ret) {}
  virtual void onLoad(State &, const Instruction *, Addr, uint32_t size, bool atomic, E val) {}
  virtual void onStore(State &, const Instruction *, Addr, uint32_t size, bool atomic, E val, E old) {}
  virtual void onCopy(State &, const Instruction *, Addr dst, Addr src, int64_t len) {}
  virtual void onDiverge(State &, const Instruction *) {} // a loop whose states never settle; one of them
  virtual void onOpaqueArg(State &, const Instruction *, Addr) {} // memory handed to a function without a body
  virtual void onAlloc(State &, const Instruction *, E obj) {}
  virtual void onFree(State &, const Instruction *, E ptr) {}
  virtual void onPublish(State &, const Instruction *, E obj) {}
  virtual void onFence(State &, const Instruction *) {}
  virtual void onAssume(State &, const Instruction *, E pred) {}
  virtual void onReturn(State &, E ret, const std::string &root) {}
  virtual bool linked(State &, E obj) { return false; } // a new object known to be part of the structure
  virtual int stable(State &, E base, E off) { return -1; } // 1 stable, 0 not, -1 no opinion
};

struct Engine {
  llvm::Module *M = nullptr;
  std::map<const Function *, FnInfo> fns;
  std::vector<Monitor *> mons;
  std::map<std::string, Violation> viols;
  std::map<std::string, std::set<std::string>> counts; // prop -> instance labels
  std::set<std::string> analysedFns;
  std::set<std::string> opaqueSeen;
  uint64_t nReturns = 0, nStates = 0, nJoins = 0, nLoops = 0, nSteps = 0, nWiden = 0, maxStates = 0, nFacts = 0;
  bool overflow = false;
  int capJoin = 24;
  bool fineMem = false, enumEnv = false;
  uint64_t maxSteps = 60000000;
  std::string curRoot;
  bool concurrent = true;
  int unroll = 0; // how often a function may be entered again while it runs
  int verbose = 0;
  std::vector<std::string> opaquePrefixes;
  std::set<std::string> noInline;
  std::set<std::string> constFields;
  std::function<bool(State &, const CallBase *, const std::string &, const std::string &, std::vector<E> &, std::vector<State> &)> libModel;

  FnInfo &fi(const Function *F);
  E evalv(State &s, const Value *v);
  void setv(State &s, const Value *v, E e) { s.top().env[v] = e; }
  void runRoot(const Function *F);
  void runFunction(std::vector<State> in, const Function *F, std::vector<std::pair<State, E>> &out);
  using Edge = std::pair<const BasicBlock *, const BasicBlock *>;
  struct Out { State s; const BasicBlock *to; };
  void runRegion(const Function *F, Loop *L, std::vector<State> entry, std::vector<Out> &exits,
                 std::vector<State> &back, std::vector<std::pair<State, E>> &rets);
  void runLoop(const Function *F, Loop *L, std::vector<State> entry, std::vector<Out> &exits,
               std::vector<std::pair<State, E>> &rets);
  void execStates(std::vector<State> s, const BasicBlock *B, std::vector<Out> &outs, std::vector<std::pair<State, E>> &rets);
  bool heavy(const Function *F);
  std::map<const Function *, bool> heavyMemo;
  void mergeFine(std::vector<State> &v);
  void doCalls(std::vector<State> ss, const CallBase *CB, std::vector<State> &outs);
  void enterCall(State s, const CallBase *CB, std::vector<State> &outs, std::map<const Function *, std::vector<State>> &pending);
  void execFrom(State s, BasicBlock::const_iterator it, const BasicBlock *B, std::vector<Out> &outs,
                std::vector<std::pair<State, E>> &rets, const Instruction *stop = nullptr, std::vector<State> *stopped = nullptr);
  void branchTo(State &s, const BasicBlock *from, const BasicBlock *to);
  void doCall(State s, const CallBase *CB, std::vector<State> &outs);
  E load(State &s, const Instruction *I, E ptr, uint32_t size, bool atomic, bool quiet = false, const llvm::Type *T = nullptr);
  void store(State &s, const Instruction *I, E ptr, E v, uint32_t size, bool atomic, bool quiet = false);
  void copyMem(State &s, const Instruction *I, E dst, E src, E n, bool events = true);
  void killObj(State &s, E base);
  bool assume(State &s, const Instruction *I, E pred); // false if contradictory
  bool headerVsPayload(E base, E o1, E o2);
  bool nonNull(State &s, E a);
  E simplify(State &s, E pred); // one/zero/pred
  bool entailsGe0(State &s, E e);
  void substState(State &s, uint32_t sym, E by);
  E toPred(E e);
  void prune(State &s, const BasicBlock *at);
  void gc(State &s);
  std::vector<E> unreferenced(State &s, const std::vector<E> &objs);
  std::string canon(const State &s);
  std::string monSig(const State &s);
  std::string fineSig(const State &s);
  void reduce(std::vector<State> &v);
  bool joinable(const State &a, const State &b);
  State join(const State &a, const State &b, E k, bool affine, bool *changed = nullptr);
  bool privateObj(State &s, E base);
  void noteType(E ptr, const std::string &cls);
  std::vector<std::string> fieldPath(E base, E off);
  std::string fieldName(E base, E off);
  bool hasType(E base, const std::string &n);
  std::string where(const Instruction *I);
  void report(State &s, const Instruction *I, const std::string &prop, const std::string &rule, const std::string &msg);
  const Instruction *repoInst(State &s, const Instruction *I);
  std::string whereR(State &s, const Instruction *I);
  void count(State &s, const std::string &prop, const Instruction *I, const std::string &what);
  void count(const std::string &prop, const Instruction *I, const std::string &what);
  bool isOpaque(const Function *F);
  bool sub(const State &gen, const State &inst, uint32_t patMin);
  E freshLoad(const Instruction *I, E addr);
  std::set<std::string> fieldNames(E base, E off);
  void enumRange(State &s, E val, E base, E off);
  void init();
  void step(State &s, const Instruction &I);
  E binop(State &s, unsigned opc, E a, E b);
  E bit(E x, int i);
  void finish(State &s, const CallBase *CB, E ret, std::vector<State> &outs);
};
void markJoinSym(E e);
bool isJoinSym(E e);
void installModels(Engine &e);
// element address helpers of modelled containers
Addr memAddr(E p);
std::string stripTemplates(const std::string &d);
std::string demangled(const Function *F);
extern std::map<std::string, const llvm::DICompositeType *> diTypes;
} // namespace ixa
