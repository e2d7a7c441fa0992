// Ownership and size of the single-threaded maps: every node has one owner.
#include "monitors.h"
#include "llvm/Support/raw_ostream.h"
#include <cstring>
namespace ixa {
using std::string;
using std::vector;

struct SoloMon : Monitor {
  SoloCfg cfg;
  bool dtor = false;
  SoloMon(const SoloCfg &c) : cfg(c) {}
  static bool starts(const string &a, const char *b) { return a.compare(0, strlen(b), b) == 0; }
  bool sawFree = false, sawChild = false;
  void onEnter(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    if (!dtor || name.find("container-push") != 0)
      return;
    for (auto v : args) {
      if (v && v->isSym() && P.info(v).kind == S_ALLOCA)
        v = eng->load(s, CB, v, 8, false, true);
      if (existing(v) && !(P.info(v).loadAddr && !existing(memAddr(P.info(v).loadAddr).base)))
        sawChild = true;
    }
  }
  void onStart(State &s) override {
    sawFree = sawChild = false;
    const string &r = eng->curRoot;
    dtor = r.find("_dtor") != string::npos;
  }
  // ---- objects
  Mon *own(State &s, E o) {
    for (auto &m : s.mons)
      if (starts(m.tag, "SOWN/") && m.args[0] == o)
        return &m;
    return nullptr;
  }
  void dropOwn(State &s, E o) {
    vector<Mon> v;
    for (auto &m : s.mons)
      if (!(starts(m.tag, "SOWN/") && m.args[0] == o))
        v.push_back(m);
    s.mons = v;
  }
  bool linked(State &s, E o) override { return cfg.own && !dtor && !P.info(o).types.empty() && !own(s, o); }
  bool freed(State &s, E o) { return s.find("~freed", o); }
  // an object of the structure that was there before the operation
  bool existing(E b) {
    if (!b || !b->isSym())
      return false;
    auto k = P.info(b).kind;
    return k == S_LOAD || k == S_WIDEN;
  }
  bool fresh(E b) { return b && b->isSym() && P.info(b).kind == S_MALLOC; }
  bool self(E b) { return b && b->isSym() && P.info(b).kind == S_ARG; }
  void drop(State &s, const char *tag) { s.erase(tag); }
  // told apart by the calls that lead here
  static string site(const char *tag, State &s, const llvm::Instruction *R) {
    uintptr_t h = (uintptr_t)R;
    for (auto &f : s.frames)
      h = h * 31 + (uintptr_t)f.call;
    char b[40];
    snprintf(b, sizeof b, "%s%lx", tag, (unsigned long)h);
    return b;
  }
  void onAlloc(State &s, const llvm::Instruction *I, E obj) override {
    const llvm::Instruction *R = eng->repoInst(s, I);
    if (R && cfg.size)
      s.addMon("ALLOC", {});
    if (!cfg.own)
      return;
    if (!R || dtor)
      return;
    string b = site("SOWN/", s, R);
    int same = 0;
    for (auto &m : s.mons)
      same += m.tag == b;
    eng->count(s, "solo", I, "allocation");
    if (same > 2) {
      eng->report(s, I, "solo", "leak", "objects allocated here accumulate without being linked or freed");
      s.dead = true;
      return;
    }
    // the caller that is not the allocation helper tells more
    string at = eng->whereR(s, I);
    if (s.frames.size() > 2)
      for (size_t i = s.frames.size(); i-- > 1 && i + 5 > s.frames.size();)
        if (s.frames[i].call)
          at += " < " + eng->where(s.frames[i].call);
    s.addMon(b, {obj}, at);
  }
  void onPublish(State &s, const llvm::Instruction *I, E obj) override { dropOwn(s, obj); }
  void settleDup(State &s, E x) {
    vector<Mon> v;
    for (auto &m : s.mons)
      if (!(dup(m) && m.args[0] == x))
        v.push_back(m);
    s.mons = v;
  }
  void onFree(State &s, const llvm::Instruction *I, E p) override {
    if (!cfg.own || p->isConst(0))
      return;
    Addr a = splitAddr(p);
    if (!a.base || !a.base->isSym() || P.info(a.base).kind == S_ALLOCA)
      return;
    eng->count(s, "solo", I, "free");
    sawFree = sawFree || (existing(a.base) && !(P.info(a.base).loadAddr && self(memAddr(P.info(a.base).loadAddr).base)));
    if (freed(s, a.base)) {
      eng->report(s, I, "solo", "double-free", "node is freed twice");
      return;
    }
    settleDup(s, a.base);
    if (own(s, a.base))
      dropOwn(s, a.base);
    else {
      if (!s.find("GONE"))
        s.addMon("GONE", {}, eng->whereR(s, I));
      s.addMon("FREED1", {});
    }
    s.addMon("~freed", {a.base});
  }
  void access(State &s, const llvm::Instruction *I, E b, const char *what) {
    if (existing(b)) { // what is accessed is not null
      E z = eng->simplify(s, P.eq0(b));
      if (z->isConst() && z->c) {
        s.dead = true;
        return;
      }
      if (!z->isConst())
        s.facts.insert(P.ge0(P.addc(b, -1)));
    }
    if (cfg.own && b && b->isSym() && freed(s, b))
      eng->report(s, I, "solo", "use-after-free", string("node is accessed (") + what + ") after it was freed");
  }
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (a.base)
      access(s, I, a.base, "read");
  }
  static bool dup(const Mon &m) { return starts(m.tag, "DUP/"); }
  // content of node X goes into another node Y as well
  void moved(State &s, const llvm::Instruction *I, E y, E x) {
    if (dtor || !existing(x) || x == y)
      return;
    for (auto &m : s.mons)
      if (dup(m) && m.args[0] == x)
        return;
    s.addMon(site("DUP/", s, I), {x}, eng->whereR(s, I));
  }
  static bool ptrStore(const llvm::Instruction *I) {
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I))
      return S->getValueOperand()->getType()->isPointerTy();
    return false;
  }
  // the member that size() reads
  int64_t szOff = -2;
  int64_t sizeOffset() {
    if (szOff != -2)
      return szOff;
    szOff = -1;
    for (auto &F : *eng->M)
      if (!F.isDeclaration() && F.arg_size() && eng->fi(&F).method == "size" && eng->fi(&F).strip.find("indexes::") == 0)
        for (auto &B : F)
          for (auto &I : B)
            if (auto *L = llvm::dyn_cast<llvm::LoadInst>(&I)) {
              llvm::APInt o(64, 0);
              auto *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(eng->M->getDataLayout(), o, true);
              if (b == F.getArg(0))
                szOff = o.getSExtValue();
            }
    return szOff;
  }
  bool sizeField(Addr a) {
    if (!self(a.base) || !a.off->isConst())
      return false;
    return sizeOffset() >= 0 && a.off->c == sizeOffset();
  }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (!a.base)
      return;
    access(s, I, a.base, "write");
    if (cfg.size && sizeField(a) && val) {
      eng->count(s, "solosize", I, "change of the size");
      E d = old ? P.sub(val, old) : nullptr;
      int n = d && d->isConst() && d->c >= -2 && d->c <= 2 ? (int)d->c : 99;
      int v = value(s);
      set(s, n == 99 ? 99 : v + n, eng->whereR(s, I));
    }
    if (cfg.size && (existing(a.base) || (fresh(a.base) && !eng->privateObj(s, a.base))))
      s.addMon("TOUCH", {});
    if (!cfg.own || !a.base->isSym())
      return;
    if (val && val->isSym() && size == 8 && own(s, val) && fresh(a.base) && eng->privateObj(s, a.base))
      s.addMon("~in", {val, a.base});
    bool pt = ptrStore(I);
    // where the stored value came from
    E x = nullptr;
    bool payload = false;
    if (val && val->isSym() && P.info(val).loadAddr) {
      Addr f = memAddr(P.info(val).loadAddr);
      x = f.base;
      payload = f.off && !f.off->isConst();
    }
    if (existing(a.base)) {
      // X changes: what was copied out of it may have been taken out
      vector<Mon> v;
      for (auto &m : s.mons)
        if (!(dup(m) && m.args[0] == a.base))
          v.push_back(m);
      s.mons = v;
      s.addMon("CUT", {});
    }
    if (self(a.base) && pt)
      s.addMon("CUT", {});
    if (x && existing(x) && x != a.base && ((pt && (fresh(a.base) || existing(a.base) || self(a.base))) || (payload && fresh(a.base))))
      moved(s, I, a.base, x);
    if (pt && val && existing(val) && fresh(a.base))
      s.addMon("MOVED", {});
    // a link to a node is overwritten by one to a new node
    if (pt && fresh(val) && !dtor && (existing(a.base) || self(a.base))) {
      eng->count(s, "solo", I, "link to a new node");
      bool repl = false;
      if (old && !old->isConst()) {
        E z = eng->simplify(s, P.eq0(old));
        repl = z->isConst(0);
        if (!z->isConst() && old->isSym() && P.info(old).inst && P.info(old).inst->getFunction() == I->getFunction())
          repl = true;
      }
      if (cfg.cow && existing(a.base))
        repl = true;
      if (repl)
        s.addMon("REPL", {}, eng->whereR(s, I));
    }
  }
  void onCopy(State &s, const llvm::Instruction *I, Addr d, Addr sr, int64_t len) override {
    if (!cfg.own || !d.base || !sr.base)
      return;
    access(s, I, sr.base, "copy");
    access(s, I, d.base, "copy");
    if (existing(d.base) && d.base->isSym())
      s.addMon("CUT", {});
    // (a member copied as a whole is no content)
    if (len < 0 || (sr.off && !sr.off->isConst()))
      if (fresh(d.base))
        moved(s, I, d.base, sr.base);
  }
  void onRecursion(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    vector<Mon> v;
    for (auto &m : s.mons)
      if (!dup(m) && m.tag != "REPL" && m.tag != "GONE")
        v.push_back(m);
    s.mons = v;
    s.addMon("REC", {});
    for (auto it = s.mem.begin(); it != s.mem.end();)
      if (it->first.base->isSym() && P.info(it->first.base).kind != S_ALLOCA)
        it = s.mem.erase(it);
      else
        ++it;
  }
  // Data invariants: the child that is replaced is present; only inner nodes are
  // expanded; only underfull ones shrunk; a node just built has room for one more.
  void onLeave(State &s, const CallBase *CB, const string &name, E ret) override {
    if (!ret || !ret->isConst(0) || !CB || !CB->arg_size() || name.find("art::") == string::npos)
      return;
    auto p = name.rfind("::");
    string m = name.substr(p + 2);
    if (m == "update" || m == "expand" || m == "shrink")
      s.dead = true;
    if (m == "add") {
      Addr a = splitAddr(eng->evalv(s, CB->getArgOperand(0)));
      if (fresh(a.base))
        s.dead = true;
    }
  }
  // ---- size
  int value(State &s) {
    for (auto &m : s.mons)
      if (starts(m.tag, "SZ/"))
        return atoi(m.tag.c_str() + 3);
    return 0;
  }
  void set(State &s, int v, const string &at) {
    vector<Mon> w;
    for (auto &m : s.mons)
      if (!starts(m.tag, "SZ/"))
        w.push_back(m);
    s.mons = w;
    if (v)
      s.addMon("SZ/" + std::to_string(v), {}, at);
  }
  void checkSize(State &s, E ret, const string &root) {
    int want0, want1;
    auto is = [&](const char *n) { return root.size() > strlen(n) && root.compare(root.size() - strlen(n), string::npos, n) == 0; };
    if (is("_Insert"))
      want0 = 0, want1 = 1;
    else if (is("_Upsert"))
      want0 = 1, want1 = 0;
    else if (is("_Delete"))
      want0 = 0, want1 = -1;
    else if (is("_dtor"))
      return;
    else if (is("_index")) // an element is added exactly when a node changes
      want0 = want1 = s.find("TOUCH") || (value(s) == 1 && s.find("ALLOC")) ? 1 : 0;
    else
      want0 = want1 = 0;
    eng->count("solosize", nullptr, "return of " + root);
    int v = value(s);
    auto say = [&](int w) {
      if (v == w)
        return;
      string at;
      for (auto &m : s.mons)
        if (starts(m.tag, "SZ/"))
          at = " (at " + m.note + ")";
      eng->report(s, nullptr, "solosize", "wrong-size",
                  string("the operation ") + (v == 0 ? "does not change" : v == 99 ? "overwrites" : v > 0 ? "raises" : "lowers") + " the size" + at +
                      (w == 0 ? " although no element is added or removed" : w > 0 && is("_index") ? " although a new element was put into a node" : w > 0 ? " although it reports that an element was added" : " although it reports that an element was removed"));
    };
    if (want0 == want1) {
      say(want0);
      if (is("_size") && ret) {
        bool ok = false;
        if (ret->isSym() && P.info(ret).loadAddr)
          ok = sizeField(memAddr(P.info(ret).loadAddr));
        if (!ok)
          eng->report(s, nullptr, "solosize", "wrong-size", "size() returns something else than the number the operations keep");
      }
      return;
    }
    if (!ret)
      return;
    E p = eng->simplify(s, P.eq0(ret));
    if (!(p->isConst() && p->c)) {
      State t = s;
      if (p->isConst() || eng->assume(t, nullptr, P.notE(p)))
        say(want1);
    }
    if (!(p->isConst() && !p->c)) {
      State t = s;
      if (p->isConst() || eng->assume(t, nullptr, p))
        say(want0);
    }
  }
  void onReturn(State &s, E ret, const string &root) override {
    if (cfg.size)
      checkSize(s, ret, root);
    if (!cfg.own)
      return;
    eng->count("solo", nullptr, "return of " + root);
    bool rec = s.find("REC");
    if (dtor && !sawFree)
      eng->report(s, nullptr, "solo", "leak", "the destructor frees no node");
    else if (dtor && !sawChild)
      eng->report(s, nullptr, "solo", "leak", "the destructor never visits the children of a node");
    if (cfg.nodePerKey && !rec && ret && root.size() > 7 && root.compare(root.size() - 7, string::npos, "_Delete") == 0 && !s.find("FREED1")) {
      E p = eng->simplify(s, P.eq0(ret));
      State t = s;
      if (p->isConst() ? !p->c : eng->assume(t, nullptr, P.notE(p)))
        eng->report(s, nullptr, "solo", "leak", "the operation reports that an element was removed, but gives back no node");
    }
    for (auto &m : s.mons) {
      if (starts(m.tag, "SOWN/")) {
        bool in = false;
        for (auto &x : s.mons)
          in |= x.tag == "~in" && x.args[0] == m.args[0] && !own(s, x.args[1]) && !freed(s, x.args[1]);
        if (!in)
          eng->report(s, nullptr, "solo", "leak", "node allocated at " + m.note + " is neither linked into the map nor freed when the operation returns");
      }
      if (rec || dtor)
        continue;
      if (dup(m))
        eng->report(s, nullptr, "solo", "two-owners", "content moved to another node at " + m.note + " stays owned by the node it came from as well, which is neither freed nor emptied");
      if (m.tag == "REPL" && !s.find("FREED1") && !s.find("MOVED"))
        eng->report(s, nullptr, "solo", "leak", "the node replaced at " + m.note + " is never freed");
      if (m.tag == "GONE" && !s.find("CUT"))
        eng->report(s, nullptr, "solo", "dangling", "the node freed at " + m.note + " stays linked in the map");
    }
  }
};
Monitor *makeSoloMon(Engine *e, const SoloCfg &c) { return new SoloMon(c); }
} // namespace ixa
