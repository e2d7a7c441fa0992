// Version discipline of tree nodes: what optimistic readers rely on. Contents of
// a reachable node change only inside its locked window (B+Tree), and no latch is
// released before the version has moved on.
#include "monitors.h"
#include "llvm/Support/raw_ostream.h"
namespace ixa {
using std::string;
using std::vector;

struct VerMon : Monitor {
  bool exempt = false, btree = false;
  void onStart(State &s) override {
    const string &r = eng->curRoot;
    btree = r.find("root_bt") == 0;
    exempt = r.find("_dtor") != string::npos || r.find("_ctor") != string::npos || r.find("_move") != string::npos || r.find("_reclaim") != string::npos;
  }
  static bool any(const std::set<string> &f, std::initializer_list<const char *> l) {
    for (auto x : l)
      if (f.count(x))
        return true;
    return false;
  }
  bool isState(const std::set<string> &f) { return any(f, {"state", "m_root_state", "version"}); }
  // current state word of the node, when known
  E stateOf(State &s, E base) {
    for (auto it = s.mem.lower_bound({base, P.zero}); it != s.mem.end(); ++it) {
      if (it->first.base != base)
        continue;
      if (it->second.size == 8 && isState(eng->fieldNames(base, it->first.off)))
        return it->second.val;
    }
    for (auto &kv : s.mem)
      if (kv.first.base == base && kv.second.size == 8 && isState(eng->fieldNames(base, kv.first.off)))
        return kv.second.val;
    return nullptr;
  }
  // the version part was counted up by one
  static bool bumped(E v) {
    if (v->k == K_LIN)
      return v->c == 1 && v->terms.size() == 1 && v->terms[0].second == 1;
    if (v->k == K_OP && (v->op == "or" || v->op == "and" || v->op == "lowbits"))
      for (auto x : v->args)
        if (bumped(x))
          return true;
    return false;
  }
  static bool uses(E v, E old) {
    if (v == old)
      return true;
    for (auto x : old->syms)
      if (!usesSym(v, x))
        return false;
    return !old->syms.empty();
  }
  bool isBucketOrStats(E base) {
    if (!base->isSym() || !P.info(base).loadAddr)
      return false;
    Addr o = memAddr(P.info(base).loadAddr);
    if (!o.base)
      return false;
    return any(eng->fieldNames(o.base, o.off), {"m_stats", "stats", "count", "buckets", "link"});
  }
  // payload of a slot not yet in use: its place is derived from the fill mark
  bool freshPayload(State &s, Addr a) {
    for (auto x : a.off->syms) {
      E y = P.symExpr[x];
      if (!P.info(y).loadAddr)
        continue;
      Addr o = memAddr(P.info(y).loadAddr);
      if (o.base == a.base && o.off && o.off->isConst() && eng->fieldNames(o.base, o.off).count("last_value_offset"))
        return true;
    }
    return false;
  }
  // 0: not content, 1: content of a node, 2: root link
  int content(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, const std::set<string> &fn) {
    if (!btree)
      return any(fn, {"keys", "children", "num_children", "num_deleted", "freemap"}) && (atomic || !fn.count("value")) ? 1 : 0;
    if (fn.count("m_root"))
      return 2;
    if (any(fn, {"logical_pagesize", "next_slot_offset", "max_slot_offset", "last_value_offset", "num_dead_values", "m_height", "mutex"}))
      return 0;
    if (fn.count("num_values"))
      return 1;
    if (a.off->isConst())
      return fn.empty() && atomic ? 1 : 0;
    if (atomic)
      return 1;
    return freshPayload(s, a) ? 0 : 1;
  }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (!a.base || exempt || !a.base->isSym() || eng->privateObj(s, a.base))
      return;
    auto k = P.info(a.base).kind;
    if (k == S_GLOBAL || k == S_ALLOCA || isBucketOrStats(a.base))
      return;
    auto fn = eng->fieldNames(a.base, a.off);
    if (isState(fn) && size == 8) {
      stateStore(s, I, a, val, old, fn);
      return;
    }
    int c = content(s, I, a, size, atomic, fn);
    if (!c) {
      if (btree && !a.off->isConst() && !atomic && !s.find("VRAW", a.base)) {
        eng->count(s, "publish", I, "entry built in place");
        s.addMon("VRAW", {a.base}, eng->whereR(s, I));
      }
      return;
    }
    eng->count(s, "version", I, c == 2 ? "root link change" : "node content change");
    E st = stateOf(s, a.base);
    if (btree) {
      if (!st || !eng->bit(st, 62)->isConst(1)) {
        if (getenv("IXA_VER"))
          llvm::errs() << "outside: " << eng->whereR(s, I) << " base " << P.str(a.base) << " off " << P.str(a.off) << " state " << (st ? P.str(st) : "?") << "\n";
        eng->report(s, I, "version", "outside-window", string(c == 2 ? "the root link" : "the contents of a node") +
                                                         " can be reached by readers and changed while the state does not say so: a reader may use what it read half changed");
      }
    }
    if (st && eng->bit(st, 63)->isConst(1) && (btree || eng->bit(st, 5)->isConst(1)))
      eng->report(s, I, "version", "dead-change", "a node already marked deleted is changed: the change is lost");
    s.addMon("VMOD", {a.base}, eng->whereR(s, I));
  }
  void stateStore(State &s, const llvm::Instruction *I, Addr a, E val, E old, const std::set<string> &fn) {
    eng->count(s, "version", I, "state change");
    bool rel = true;
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I))
      rel = S->isAtomic() && llvm::isReleaseOrStronger(S->getOrdering());
    else if (auto *R = llvm::dyn_cast<llvm::AtomicRMWInst>(I))
      rel = llvm::isReleaseOrStronger(R->getOrdering());
    if (!rel)
      eng->report(s, I, "version", "not-release", "the state of a node is published without release ordering: a reader may see it before the change it announces");
    if (!val)
      return;
    if (!old)
      old = stateOf(s, a.base);
    bool dead = eng->bit(val, 63)->isConst(1);
    if (getenv("IXA_VER"))
      llvm::errs() << "state " << eng->whereR(s, I) << " := " << P.str(val) << " old " << (old ? P.str(old) : "?") << "\n";
    if (old && eng->bit(old, 63)->isConst(1) && (btree || eng->bit(old, 5)->isConst(1)) && !dead)
      eng->report(s, I, "version", "revived", "the deleted mark of a node is taken back");
    if (dead) {
      s.erase("VMOD", a.base);
      return;
    }
    bool derived = old && uses(val, old);
    bool bump = bumped(val);
    if (old && old->isConst() && val->isConst()) {
      const uint64_t low = btree ? (1ull << 62) - 1 : ~0ull;
      bump = ((uint64_t)val->c & low) == ((uint64_t)old->c & low) + 1;
      derived = bump || ((uint64_t)val->c & low) == ((uint64_t)old->c & low);
    }
    if (!derived)
      eng->report(s, I, "version", "not-derived", "the state of a node is overwritten by a value that is not derived from its current one: versions may repeat");
    if (bump) {
      s.erase("VMOD", a.base);
      s.erase("VRAW", a.base);
    }
    if (btree && !eng->bit(val, 62)->isConst(1) && s.find("VMOD", a.base))
      eng->report(s, I, "version", "no-bump", "the window of a change is closed without a new version (changed at " + s.find("VMOD", a.base)->note + ")");
  }
  void closing(State &s, const CallBase *CB, E obj) {
    if (Mon *m = s.find("VRAW", obj)) {
      eng->report(s, CB, "publish", "late", "an entry of a node is built (at " + m->note + ") after the node was published with it, or without being published: readers may see it half built");
      s.erase("VRAW", obj);
    }
    if (Mon *m = s.find("VMOD", obj)) {
      eng->report(s, CB, "version", "no-bump", "the latch of a node is released although its version has not moved since it was changed at " + m->note);
      s.erase("VMOD", obj);
    }
    if (btree)
      if (E st = stateOf(s, obj))
        if (eng->bit(st, 62)->isConst(1))
          eng->report(s, CB, "version", "left-locked", "the latch of a node is released while its state still says that a change is going on: readers wait for ever");
  }
  E guarded(E lockAddr) {
    Addr l = splitAddr(lockAddr);
    if (l.base && l.off->isConst(0) && l.base->isSym() && P.info(l.base).loadAddr) {
      Addr o = memAddr(P.info(l.base).loadAddr);
      if (o.base && any(eng->fieldNames(o.base, o.off), {"m_root_mutex", "root_mtx"}))
        return o.base;
    }
    return l.base;
  }
  void onEnter(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    if (exempt)
      return;
    if (name == "before-unlock") {
      if (E o = guarded(args[0])) {
        eng->count(s, "version", CB, "latch released");
        closing(s, CB, o);
      }
    } else if (name == "container-destroy" || name == "std::vector::clear") {
      for (auto &b : s.all("LOCKV"))
        if (b.args[1] == args[0])
          closing(s, CB, guarded(b.args[0]));
    }
  }
  void onReturn(State &s, E ret, const string &root) override {
    eng->count("version", nullptr, "return of " + root);
    for (auto &m : s.all("VMOD"))
      eng->report(s, nullptr, "version", "no-bump", "the operation returns although the version of a node has not moved since it was changed at " + m.note);
  }
};
Monitor *makeVerMon(Engine *e) { return new VerMon(); }
} // namespace ixa
