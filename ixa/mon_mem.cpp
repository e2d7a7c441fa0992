// Memory-lifecycle typestate: epoch sections, ownership of allocated nodes,
// deferred reclamation, and the latch discipline of writes to shared memory.
#include "monitors.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <numeric>
namespace ixa {
using std::string;
using std::vector;

static bool starts(const string &s, const char *p) { return s.rfind(p, 0) == 0; }

struct MemMon : Monitor {
  MemCfg cfg;
  MemMon(const MemCfg &c) : cfg(c) {
    fEpoch = c.epoch;
    fOwn = c.own;
    fRetire = c.retire;
    fGuard = c.guard;
  }
  bool fEpoch = true, fOwn = true, fRetire = true, fGuard = true;
  bool exempt = false, exemptLock = false; // root runs in a quiescent context
  static constexpr const char *EM = "indexes::utils::EpochManager::";

  // ------------------------------------------------------------- epoch depth
  static int depth(State &s) {
    for (auto &m : s.mons)
      if (starts(m.tag, "EPOCH/"))
        return atoi(m.tag.c_str() + 6);
    return 0;
  }
  void setDepth(State &s, int d, const string &note) {
    vector<Mon> v;
    for (auto &m : s.mons)
      if (!starts(m.tag, "EPOCH/"))
        v.push_back(m);
    s.mons = v;
    if (d)
      s.addMon("EPOCH/" + std::to_string(d), {}, note);
  }
  void onStart(State &s) override {
    exempt = eng->curRoot.find("_dtor") != string::npos || eng->curRoot.find("_ctor") != string::npos ||
             eng->curRoot.find("_reclaim") != string::npos || eng->curRoot.find("_move") != string::npos;
  }
  bool mapMutexHeld(State &s) {
    if (!cfg.rootMutexProtects)
      return false;
    for (auto &m : s.mons)
      if (starts(m.tag, "LOCK/")) {
        Addr a = splitAddr(m.args[0]);
        if (a.base && a.base->isSym() && P.info(a.base).kind == S_ARG)
          return true;
      }
    return false;
  }
  void access(State &s, const llvm::Instruction *I, E base, const char *what) {
    if (!base || exempt)
      return;
    if (base->isOp("data") || base->isOp("elem"))
      return;
    if (!base->isSym())
      return;
    if (fEpoch && P.info(base).shared) {
      eng->count(s, "epoch", I, string("shared ") + what);
      if (depth(s) == 0 && !mapMutexHeld(s))
        eng->report(s, I, "epoch", "unguarded", string("memory reached through a shared link is accessed (") + what + ") outside an epoch section");
      else if (s.find("~stale", base))
        eng->report(s, I, "epoch", "stale", string("pointer obtained before this epoch section, or in an earlier one, is used (") + what + ") although it may be gone");
    }
    if (fOwn && s.find("~freed", base))
      eng->report(s, I, "own", "use-after-free", string("object is accessed (") + what + ") after it was freed");
  }
  void leaveEpoch(State &s, bool entering = false) {
    eng->gc(s);
    std::set<E, ELess> live;
    auto add = [&](E e) {
      for (auto x : e->syms) {
        E y = P.symExpr[x];
        if (P.info(y).shared && (P.info(y).kind == S_LOAD || P.info(y).kind == S_WIDEN) && (entering || !P.info(y).types.empty()))
          live.insert(y);
      }
    };
    for (auto &f : s.frames)
      for (auto &kv : f.env)
        add(kv.second);
    for (auto &kv : s.mem)
      if (kv.first.base->isSym() && P.info(kv.first.base).kind == S_ALLOCA)
        add(kv.second.val);
    for (auto y : live)
      s.addMon("~stale", {y});
  }

  // ------------------------------------------------------------- ownership
  static string siteTag(const llvm::Instruction *I) {
    char b[40];
    snprintf(b, sizeof b, "OWN/%p", (const void *)I);
    return b;
  }
  Mon *own(State &s, E o) {
    for (auto &m : s.mons)
      if (starts(m.tag, "OWN/") && m.args[0] == o)
        return &m;
    return nullptr;
  }
  void dropOwn(State &s, E o) {
    vector<Mon> v;
    for (auto &m : s.mons)
      if (!(starts(m.tag, "OWN/") && m.args[0] == o))
        v.push_back(m);
    s.mons = v;
  }
  // a new attempt begins: what the one before allocated and no longer refers to is lost
  bool lost(State &s, const llvm::Instruction *I) {
    vector<E> objs;
    for (auto &m : s.mons)
      if (starts(m.tag, "OWN/") && m.args[0]->isSym() && P.info(m.args[0]).kind == S_MALLOC)
        objs.push_back(m.args[0]);
    if (objs.empty())
      return false;
    bool r = false;
    for (auto o : eng->unreferenced(s, objs)) {
      Mon *m = own(s, o);
      if (!m)
        continue;
      eng->report(s, I, "own", "leak", "object allocated at " + m->note + " is neither linked into the structure nor freed when a new attempt begins");
      r = true;
    }
    return r;
  }
  void onAlloc(State &s, const llvm::Instruction *I, E obj) override {
    if (exempt || !fOwn)
      return;
    const llvm::Instruction *R = eng->repoInst(s, I);
    string site = eng->whereR(s, I);
    if (!R)
      return;
    int same = 0;
    string t = siteTag(R);
    for (auto &m : s.mons)
      same += m.tag == t;
    eng->count(s, "own", I, "allocation");
    if (same > 2) {
      eng->report(s, I, "own", "leak", "objects allocated here accumulate without being freed or handed over");
      s.dead = true;
      return;
    }
    s.addMon(t, {obj}, site);
  }
  void onPublish(State &s, const llvm::Instruction *I, E obj) override {
    dropOwn(s, obj);
    // and with it what was built below it and noted in a list
    for (auto &m : s.all("OWNV"))
      if (!s.find("~vpub", m.args[0]))
        s.addMon("~vpub", {m.args[0]});
    s.erase("OWNV");
  }
  void onFree(State &s, const llvm::Instruction *I, E p) override {
    if (exempt || !fOwn || p->isConst(0))
      return;
    Addr a = splitAddr(p);
    if (!a.base || !a.base->isSym())
      return;
    eng->count(s, "own", I, "free");
    if (getenv("IXA_OWN")) { llvm::errs() << "free " << P.str(p) << " at " << eng->whereR(s, I) << (P.info(a.base).loadAddr ? " from " + P.str(P.info(a.base).loadAddr) : "") << "\n"; for (auto &kv : s.mem) if (kv.second.val == a.base) llvm::errs() << "   in " << P.str(kv.first.base) << "+" << P.str(kv.first.off) << "\n"; }
    for (auto &m : s.mons)
      if (starts(m.tag, "LOCK/") || m.tag == "LOCKV") {
        Addr l = splitAddr(m.args[0]);
        if (l.base == a.base) {
          eng->report(s, I, "own", "freed-while-latched", "object is freed while its own latch is held by this operation (latched at " + m.note + ")");
          break;
        }
      }
    bool noted = false;
    if (E V = nullptr, off = nullptr; fromList(s, a.base, V, off)) {
      noted = true;
      settle(s, a.base);
      if (s.find("~vpub", V)) {
        eng->report(s, I, "own", "freed-while-reachable", "object noted in a list is freed although it has been linked into the structure since");
        return;
      }
    }
    if (s.find("~freed", a.base)) {
      eng->report(s, I, "own", "double-free", "object is freed twice");
      return;
    }
    auto k = P.info(a.base).kind;
    if (own(s, a.base)) {
      dropOwn(s, a.base);
      s.addMon("~freed", {a.base});
      return;
    }
    // an entry of a list of nodes that this operation met on its way
    bool met = false;
    if (!noted && k == S_LOAD)
      for (auto &kv : s.mem)
        met = met || (kv.first.base->isOp("elem") && kv.second.val == a.base);
    if (met || (k == S_MALLOC && s.find("~pub", a.base)) || ((k == S_LOAD || k == S_WIDEN) && P.info(a.base).shared))
      eng->report(s, I, "own", "freed-while-reachable", "object that other operations may still be using is freed directly instead of being retired");
    else
      s.addMon("~freed", {a.base});
  }

  // ------------------------------------------------------------- retire
  void markDead(State &s, E obj, const string &at) {
    if (!fRetire)
      return;
    for (auto &m : s.mons)
      if (m.tag == "PEND" && m.args[1] == obj) {
        E V = m.args[0];
        m.tag = "DPUSH";
        m.args = {V};
        dedupe(s);
        return;
      }
    int n = 0;
    for (auto &m : s.mons)
      n += m.tag == "DEAD";
    if (n >= 4) {
      s.erase("DEAD");
      s.addMon("DEADMANY", {}, at);
    }
    if (!s.find("DEADMANY"))
      s.addMon("DEAD", {obj}, at);
  }
  static void dedupe(State &s) {
    vector<Mon> v;
    for (auto &m : s.mons) {
      bool d = false;
      for (auto &x : v)
        d |= x == m;
      if (!d)
        v.push_back(m);
    }
    s.mons = v;
  }
  void retireOne(State &s, const CallBase *CB, E obj) {
    Addr a = splitAddr(obj);
    eng->count(s, "retire", CB, "retire");
    if (!a.base)
      return;
    if (own(s, a.base))
      dropOwn(s, a.base);
    if (!fRetire)
      return;
    if (getenv("IXA_RET")) {
      llvm::errs() << "retire " << P.str(obj) << " at " << eng->whereR(s, CB) << ":";
      for (auto &m : s.mons) {
        llvm::errs() << " " << m.tag;
        for (auto x : m.args)
          llvm::errs() << " " << P.str(x);
      }
      llvm::errs() << "\n";
    }
    if (!s.find("UNLINK"))
      eng->report(s, CB, "retire", "before-unlink", "object is handed to reclamation although no link to it has been overwritten yet on this path");
    for (auto &m : s.mons)
      if (m.tag == "RETD" && m.args[0] == obj) {
        eng->report(s, CB, "retire", "double", "object is handed to reclamation twice");
        return;
      }
    if (s.find("~freed", a.base))
      eng->report(s, CB, "retire", "freed", "object is handed to reclamation after it was freed");
    if (own(s, a.base))
      dropOwn(s, a.base);
    if (cfg.retireNeedsDead) {
      if (s.find("DEAD", a.base))
        s.erase("DEAD", a.base);
      else if (s.find("DEADMANY"))
        ;
      else
        eng->report(s, CB, "retire", "not-marked", "object is handed to reclamation without being marked deleted: operations waiting for its latch would still use it");
    }
    int n = 0;
    for (auto &m : s.mons)
      n += m.tag == "RETD";
    if (n < 3)
      s.addMon("RETD", {obj});
  }
  bool onCall(State &s, const CallBase *CB, const string &name, vector<E> &args, vector<State> &out) override {
    if (!starts(name, EM))
      return false;
    string m = name.substr(strlen(EM));
    if (m == "enter_epoch") {
      eng->count(s, "epoch", CB, "enter");
      int d = depth(s);
      if (fOwn && lost(s, CB))
        return true;
      if (!fEpoch) {
        s.erase("UNLINK");
        s.erase("RETD");
        out.push_back(std::move(s));
        return true;
      }
      if (d == 0 && !exempt && !mapMutexHeld(s))
        leaveEpoch(s, true); // what was found outside may already be gone
      if (d < 6)
        setDepth(s, d + 1, eng->whereR(s, CB));
      else {
        eng->report(s, CB, "epoch", "unbalanced", "epoch sections accumulate without being left");
        return true;
      }
      out.push_back(std::move(s));
      return true;
    }
    if (m == "exit_epoch") {
      eng->count(s, "epoch", CB, "exit");
      if (!fEpoch) {
        s.erase("UNLINK");
        s.erase("RETD");
        out.push_back(std::move(s));
        return true;
      }
      int d = depth(s);
      if (d == 0) {
        if (!exempt)
          eng->report(s, CB, "epoch", "unbalanced", "an epoch section is left that was not entered");
        return true;
      }
      for (auto &x : s.mons)
        if (d == 1 && (starts(x.tag, "LOCK/") || x.tag == "LOCKV" || x.tag == "BAG")) {
          Addr l = x.args.empty() ? Addr{} : splitAddr(x.args[0]);
          if (x.tag == "BAG" || (l.base && l.base->isSym() && P.info(l.base).shared))
            eng->report(s, CB, "epoch", "latched-exit", "the epoch section ends while a latch inside protected memory (taken at " + x.note + ") is still held");
        }
      setDepth(s, d - 1, "");
      if (d == 1)
        leaveEpoch(s);
      out.push_back(std::move(s));
      return true;
    }
    if (m == "retire_in_new_epoch" || m == "retire_in_current_epoch" || m == "retire") {
      unsigned oi = 2;
      if (m == "retire" || args.size() == 4) { // span: pointer, length
        E p = args.size() > 3 ? args[2] : nullptr, n = args.size() > 3 ? args[3] : nullptr;
        if (p && n) {
          Addr a = splitAddr(p);
          E V = a.base && a.base->isOp("data") ? a.base->args[0] : nullptr;
          if (!fRetire)
            ;
          else if (V) {
            eng->count(s, "retire", CB, "retire of a node list");
            if (!s.find("UNLINK"))
              eng->report(s, CB, "retire", "before-unlink", "objects are handed to reclamation although no link to them has been overwritten yet on this path");
            for (auto &x : s.all("PEND"))
              if (x.args[0] == V)
                eng->report(s, CB, "retire", "not-marked", "object is handed to reclamation without being marked deleted: operations waiting for its latch would still use it");
            s.erase("PEND", V);
            s.erase("DPUSH", V);
            s.erase("DEADMANY");
          } else if (n->isConst(1)) {
            auto it = s.mem.find({memAddr(p).base, memAddr(p).off});
            if (it != s.mem.end())
              retireOne(s, CB, it->second.val);
          }
        }
      } else if (args.size() > oi)
        retireOne(s, CB, args[oi]);
      out.push_back(std::move(s));
      return true;
    }
    if (m == "switch_epoch" || m == "now" || m == "my_epoch" || m == "do_reclaim" || m == "reclaim_all" || m == "set_reclamation_threshold") {
      if (m == "switch_epoch")
        eng->count(s, "retire", CB, "epoch switch");
      E r = CB->getType()->isVoidTy() ? P.zero : P.sym(S_CALL, CB);
      eng->finish(s, CB, r, out);
      return true;
    }
    return false;
  }
  void onEnter(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    if (name == "before-lock" || name == "before-unlock") {
      E a = name == "before-lock" && args.size() == 2 ? args[1] : args[0];
      Addr ad = splitAddr(a);
      access(s, CB, ad.base, "latch");
      if (name == "before-unlock") {
        s.erase("~raw");
        s.erase("~shown");
      }
    } else if (name == "container-push") {
      E V = args[0];
      Addr el = memAddr(args[1]);
      // ownership moves into the container; node lists to be retired are tracked
      for (auto &kv : std::map<MemKey, Cell>(s.mem))
        if (kv.first.base == el.base && kv.second.size == 8) {
          E v = kv.second.val;
          if (v->isSym() && own(s, v)) {
            dropOwn(s, v);
            if (V->isSym() && P.info(V).kind == S_ALLOCA && args[2]->isConst()) { // a local list answers for what it was given
              E off = P.cst(P.sub(kv.first.off, el.off)->isConst() ? P.sub(kv.first.off, el.off)->c : 0);
              if (!s.find2("OWNV", V, off))
                s.addMon("OWNV", {V, off}, eng->whereR(s, CB));
              s.addMon("~inv", {v, V, off});
            }
          }
          if (fRetire && cfg.retireNeedsDead && args[2]->isConst(8) && v->isSym() && P.info(v).kind != S_MALLOC && CB && isNodeList(CB)) {
            if (s.find("DEAD", v)) {
              s.erase("DEAD", v);
              s.addMon("DPUSH", {V}, eng->whereR(s, CB));
            } else if (!s.find("DEADMANY"))
              s.addMon("PEND", {V, v}, eng->whereR(s, CB));
          }
        }
    } else if (name == "container-destroy") {
      if (s.find("DPUSH", args[0]))
        eng->report(s, CB, "retire", "dropped", "nodes unlinked and marked deleted are dropped without being handed to reclamation");
      s.erase("PEND", args[0]);
      s.erase("DPUSH", args[0]);
      for (auto &m : s.all("OWNV"))
        if (m.args[0] == args[0])
          eng->report(s, CB, "own", "leak", "objects put into a list at " + m.note + " are neither linked into the structure nor freed when the list ends");
      s.erase("OWNV", args[0]);
      s.erase("~vpub", args[0]);
    }
  }
  // the place of a pointer read from an element of a local list
  static bool fromList(State &s, E p, E &V, E &off) {
    if (!p->isSym())
      return false;
    if (Mon *m = s.find("~inv", p)) {
      V = m->args[1];
      off = m->args[2];
      return true;
    }
    if (!P.info(p).loadAddr)
      return false;
    E a = P.info(p).loadAddr;
    if (a->isOp("data")) {
      V = a->args[0];
      off = P.zero;
      return true;
    }
    if (a->k != K_LIN)
      return false;
    for (auto &t : a->terms)
      if (t.second == 1 && t.first->isOp("data") && t.first->args[1]->isConst() && t.first->args[1]->c > 0) {
        V = t.first->args[0];
        off = P.cst(a->c % t.first->args[1]->c);
        return true;
      }
    return false;
  }
  void settle(State &s, E p) {
    E V, off;
    if (!fromList(s, p, V, off))
      return;
    vector<Mon> v;
    for (auto &m : s.mons)
      if (!(m.tag == "OWNV" && m.args[0] == V && m.args[1] == off))
        v.push_back(m);
    s.mons = v;
  }
  void onAssume(State &s, const llvm::Instruction *I, E p) override {
    if (fOwn && p->isOp("eq0"))
      settle(s, p->args[0]);
  }
  bool isNodeList(const CallBase *CB) {
    string d = demangled(CB->getCalledFunction());
    return d.find("small_vector<") != string::npos || d.find("vector<") != string::npos;
  }

  // ------------------------------------------------------------- memory events
  void onOpaqueArg(State &s, const llvm::Instruction *I, Addr a) override { access(s, I, a.base, "read"); }
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (a.base)
      access(s, I, a.base, "read");
  }
  // index of an element of the table H owning the array pointer `base`
  bool tableIndex(E base, E off, const char *field, E &H, E &idx) {
    if (!base || !base->isSym() || !P.info(base).loadAddr)
      return false;
    Addr o = memAddr(P.info(base).loadAddr);
    if (!o.base || !eng->fieldNames(o.base, o.off).count(field))
      return false;
    H = o.base;
    idx = off;
    return true;
  }
  bool bucketLatched(State &s, E base, E off) {
    E H, o;
    if (!tableIndex(base, off, "buckets", H, o) && !tableIndex(base, off, "link", H, o))
      return false;
    E i = indexOf(o);
    for (auto &m : s.mons)
      if (starts(m.tag, "LOCK/")) {
        Addr l = splitAddr(m.args[0]);
        E H2, o2;
        if (l.base && tableIndex(l.base, l.off, "link", H2, o2) && H2 == H && indexOf(o2) == i)
          return true;
      }
    return false;
  }
  static bool isStats(Engine *eng, E base) {
    if (!base->isSym() || !P.info(base).loadAddr)
      return false;
    Addr o = memAddr(P.info(base).loadAddr);
    if (!o.base)
      return false;
    auto fn = eng->fieldNames(o.base, o.off);
    return fn.count("m_stats") || fn.count("stats") || fn.count("count");
  }
  // an entry of a table is built before the release store that makes it visible
  void inPlace(State &s, const llvm::Instruction *I, Addr a) {
    E H, o;
    if (!tableIndex(a.base, a.off, "buckets", H, o))
      return;
    if (o->k != K_LIN && !o->isConst())
      return;
    E entry = P.addc(o, -o->c);
    auto at = [&](const char *tag) {
      for (auto &m : s.all(tag))
        if (m.args[0] == a.base && m.args[1] == entry)
          return true;
      return false;
    };
    auto drop = [&](const char *tag) {
      vector<Mon> v;
      for (auto &m : s.mons)
        if (!(m.tag == tag && m.args[0] == a.base && m.args[1] == entry))
          v.push_back(m);
      s.mons = v;
    };
    if (!I->isAtomic()) {
      eng->count(s, "publish", I, "entry built in place");
      if (at("~shown"))
        eng->report(s, I, "publish", "late", "an entry is written after the store that made it visible: readers may see it half built");
      else if (!at("~raw"))
        s.addMon("~raw", {a.base, entry});
      return;
    }
    bool rel = true;
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I))
      rel = llvm::isReleaseOrStronger(S->getOrdering());
    else if (auto *R = llvm::dyn_cast<llvm::AtomicRMWInst>(I))
      rel = llvm::isReleaseOrStronger(R->getOrdering());
    if (!rel && at("~raw"))
      eng->report(s, I, "publish", "not-release", "an entry just built is made visible without release ordering: readers may see it half built");
    drop("~raw");
    if (rel && !at("~shown"))
      s.addMon("~shown", {a.base, entry});
  }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (!a.base)
      return;
    access(s, I, a.base, "write");
    // ownership through a private parent
    if (val && val->isSym() && size == 8 && own(s, val) && a.base->isSym() && P.info(a.base).kind == S_MALLOC && eng->privateObj(s, a.base))
      s.addMon("~in", {val, a.base});
    if (eng->privateObj(s, a.base) || exempt)
      return;
    if (a.base->isSym() && P.info(a.base).kind == S_GLOBAL)
      return;
    auto fn = eng->fieldNames(a.base, a.off);
    bool inUpdate = false;
    for (auto &f : s.frames)
      inUpdate |= eng->fi(f.F).method == "update";
    if (fOwn && inUpdate && fn.count("version") && atomic && val && !eng->bit(val, 63)->isConst(1)) {
      // the version bump that ends update(): the key being updated is present in
      // the node (data invariant), so its link was overwritten.
      vector<Mon> v;
      for (auto &m : s.mons)
        if (!starts(m.tag, "OWN/") && m.tag != "~in")
          v.push_back(m);
      s.mons = v;
    }
    bool isState = fn.count("state") || fn.count("version") || fn.count("m_root_state");
    if (isState && val && atomic && size == 8) {
      E b = eng->bit(val, 63);
      if (b->isConst(1) && a.base->isSym()) {
        eng->count(s, "retire", I, "deleted mark");
        markDead(s, a.base, eng->whereR(s, I));
      } else if (fRetire && fn.count("version")) // version bump of a node whose links changed
        s.addMon("UNLINK", {});
    }
    if (atomic && size == 8 && !isState && !isStats(eng, a.base) && !fn.count("m_height") && !fn.count("num_values"))
      if (fRetire)
        s.addMon("UNLINK", {});
    if (!fGuard)
      return;
    // publication must be a release store
    if (val && size == 8 && val->isSym() && P.info(val).kind == S_MALLOC && (eng->privateObj(s, val) || s.find("~pub", val))) {
      eng->count(s, "publish", I, "publication");
      bool rel = !I->isAtomic() && holdsObj(s, a.base, a.off); // plain write into a latched node: published by its version window
      if (rel)
        ;
      else if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I))
        rel = S->isAtomic() && (S->getOrdering() == llvm::AtomicOrdering::Release || S->getOrdering() == llvm::AtomicOrdering::SequentiallyConsistent);
      else if (auto *R = llvm::dyn_cast<llvm::AtomicRMWInst>(I))
        rel = llvm::isReleaseOrStronger(R->getOrdering());
      else if (auto *X = llvm::dyn_cast<llvm::AtomicCmpXchgInst>(I))
        rel = llvm::isReleaseOrStronger(X->getSuccessOrdering());
      if (!rel)
        eng->report(s, I, "publish", "not-release", "a freshly built object is linked into shared memory without release ordering: readers may see it uninitialised");
    }
    if (a.base->isSym())
      inPlace(s, I, a);
    // latch discipline
    if (isStats(eng, a.base))
      return;
    eng->count(s, "guard", I, "shared write");
    bool ok = holdsObj(s, a.base, a.off) || bucketLatched(s, a.base, a.off);
    if (!ok) {
      string f;
      for (auto &x : fn)
        f += (f.empty() ? "" : "/") + x;
      if (f.empty()) {
        E H, o;
        if (tableIndex(a.base, a.off, "link", H, o))
          f = "bucket link";
        else if (tableIndex(a.base, a.off, "buckets", H, o))
          f = "bucket contents";
      }
      if (eng->verbose > 1) {
        llvm::errs() << "unlatched write base " << P.str(a.base) << " off " << P.str(a.off) << " locks:";
        for (auto &m : s.mons) {
          llvm::errs() << " " << m.tag;
          for (auto x : m.args)
            llvm::errs() << " " << P.str(x);
        }
        llvm::errs() << "\n";
      }
      eng->report(s, I, "guard", "unlatched-write", "shared memory" + (f.empty() ? "" : " (" + f + ")") + " is modified without holding the latch that guards it");
    }
  }
  // Data invariant of the node kinds: a node this operation has just built from
  // a fuller or smaller one has room for one more child.
  void onLeave(State &s, const CallBase *CB, const string &name, E ret) override {
    if (!fOwn || !ret || !ret->isConst(0) || !CB || CB->arg_size() < 2)
      return;
    if (name.size() > 5 && name.compare(name.size() - 5, 5, "::add") == 0 && name.find("art::") != string::npos) {
      Addr a = splitAddr(eng->evalv(s, CB->getArgOperand(0)));
      if (a.base && a.base->isSym() && P.info(a.base).kind == S_MALLOC)
        s.dead = true;
    }
  }
  void onReturn(State &s, E ret, const string &root) override {
    if (fEpoch)
      eng->count("epoch", nullptr, "return of " + root);
    if (fOwn)
      eng->count("own", nullptr, "return of " + root);
    int d = depth(s);
    if (d)
      for (auto &m : s.mons)
        if (starts(m.tag, "EPOCH/"))
          eng->report(s, nullptr, "epoch", "unbalanced", "epoch section entered at " + m.note + " is never left");
    for (auto &m : s.mons) {
      if (starts(m.tag, "OWN/")) {
        // ownership handed to an object that is still owned or published
        bool in = false;
        for (auto &x : s.mons)
          in |= x.tag == "~in" && x.args[0] == m.args[0] && !own(s, x.args[1]) && !s.find("~freed", x.args[1]);
        if (!in)
          eng->report(s, nullptr, "own", "leak", "object allocated at " + m.note + " is neither linked into the structure nor freed when the operation returns");
      }
      if (m.tag == "DEAD" && cfg.retireNeedsDead)
        eng->report(s, nullptr, "retire", "never-retired", "object marked deleted at " + m.note + " is never handed to reclamation");
    }
  }
};
Monitor *makeMemMon(Engine *e, const MemCfg &c) { return new MemMon(c); }
} // namespace ixa
