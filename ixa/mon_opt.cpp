// Optimistic operation: nothing read without a latch may decide a result or a
// change unless it was validated afterwards.
#include "monitors.h"
#include "llvm/Support/raw_ostream.h"
namespace ixa {
using std::string;
using std::vector;
string fieldOfType(const string &type, E off);

struct OptMon : Monitor {
  bool exempt = false, btree = false, art = false, ht = false;
  void onStart(State &s) override {
    const string &r = eng->curRoot;
    btree = r.find("root_bt") == 0;
    art = r.find("root_art") == 0;
    ht = r.find("root_ht") == 0;
    exempt = r.find("_dtor") != string::npos || r.find("_ctor") != string::npos || r.find("_move") != string::npos || r.find("_reclaim") != string::npos;
  }
  static bool any(const std::set<string> &f, std::initializer_list<const char *> l) {
    for (auto x : l)
      if (f.count(x))
        return true;
    return false;
  }
  bool isMap(E b) { return b->isSym() && P.info(b).kind == S_ARG; }
  static bool isState(const std::set<string> &f) { return any(f, {"state", "m_root_state", "version"}); }
  bool other(E base) {
    if (!base->isSym() || !P.info(base).loadAddr)
      return false;
    Addr o = memAddr(P.info(base).loadAddr);
    return o.base && any(eng->fieldNames(o.base, o.off), {"m_stats", "stats", "count", "m_root_mutex", "root_mtx"});
  }
  bool shared(State &s, E b) {
    if (!b || !b->isSym() || eng->privateObj(s, b))
      return false;
    auto k = P.info(b).kind;
    return k != S_ALLOCA && k != S_GLOBAL && k != S_UNDEF;
  }
  bool inDestroy(State &s) {
    for (auto &f : s.frames) {
      auto &n = eng->fi(f.F).strip;
      auto p = n.rfind("::");
      string l = p == string::npos ? n : n.substr(p + 2);
      if (l.rfind("~inherited_node_t", 0) == 0 || l == "free")
        return true;
    }
    return false;
  }
  // does the field decide where a search goes or what it finds?
  bool content(const std::set<string> &fn, Addr a) {
    if (any(fn, {"logical_pagesize", "next_slot_offset", "max_slot_offset", "last_value_offset", "num_dead_values", "m_height", "height", "mutex", "node_type",
                 "lowkey", "highkey", "m_root_mutex", "m_stats", "m_gc"}))
      return false;
    if (isMap(a.base))
      return fn.count("m_root") > 0;
    return true;
  }
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (exempt || !a.base || !shared(s, a.base))
      return;
    if (ht || art) {
      valueRead(s, I, a, atomic);
      if (ht)
        return;
    }
    if (other(a.base))
      return;
    auto fn = eng->fieldNames(a.base, a.off);
    bool latched = holdsObj(s, a.base, a.off);
    bool done = s.find("OPTDONE");
    if (btree && !done && !latched && a.base->isSym() && P.info(a.base).loadAddr) {
      Addr o = memAddr(P.info(a.base).loadAddr);
      if (o.base && !isMap(o.base) && s.find("UNV", o.base) && s.find("~node", o.base) && !inDestroy(s)) {
        eng->report(s, I, "validate", "unvalidated-link", "a node is looked into although the link to it was read without a latch (" + s.find("UNV", o.base)->note + ") and not validated yet");
        s.dead = true;
        return;
      }
    }
    if (isState(fn) && size == 8 && val) {
      if (btree)
        s.addMon("~node", {a.base});
      if (done) {
        if (latched)
          s.addMon("~cur", {a.base, val});
        return;
      }
      if (btree && isMap(a.base) && fn.count("m_root_state")) {
        bool below = latched;
        for (auto &m : s.mons)
          below |= m.tag == "UNV" && m.args[0] != a.base;
        if (below) { // a new descent begins
          s.erase("UNV");
          s.erase("~post");
        }
      }
      s.addMon(s.find("UNV", a.base) ? "~post" : "~pre", {a.base, val});
      if (latched) {
        s.addMon("~cur", {a.base, val});
        s.addMon("~lpre", {a.base, val}); // the flag is never left set when the latch is released (C04)
      }
      return;
    }
    if (art) {
      if (fn.count("root") && isMap(a.base) && val && latched)
        s.addMon("~cur", {a.base, val});
      return;
    }
    if (btree && latched && content(fn, a) && !s.find("~crd", a.base))
      s.addMon("~crd", {a.base});
    if (done || latched || !content(fn, a) || inDestroy(s))
      return;
    if (P.info(a.base).kind == S_WIDEN && !s.find("~node", a.base))
      return; // a reference into a payload, not a node found by a descent
    if (getenv("IXA_OPT"))
      llvm::errs() << "UNL " << P.str(a.base) << " " << eng->whereR(s, I) << "\n";
    eng->count(s, "validate", I, "unlatched read");
    vector<Mon> k;
    for (auto &m : s.mons)
      if (!(m.tag == "~post" && m.args[0] == a.base))
        k.push_back(m);
      else if (isMap(a.base)) // a single word: read again, the state read before it counts
        k.push_back({"~pre", m.args, m.note});
    s.mons = k;
    if (!s.find("UNV", a.base))
      s.addMon("UNV", {a.base}, eng->whereR(s, I));
  }
  void onCopy(State &s, const llvm::Instruction *I, Addr d, Addr a, int64_t len) override {}
  void valueRead(State &s, const llvm::Instruction *I, Addr a, bool atomic) {
    if (atomic)
      return;
    E H, o;
    if (ht) {
      if (!tableElem(eng, a.base, a.off, "buckets", H, o) || fieldOfType("HashBucket", a.off) != "key_value")
        return;
      eng->count(s, "validate", I, "value read");
      if (!bucketLatch(eng, s, H, o))
        eng->report(s, I, "validate", "value-unlatched", "a value is read from the shared table without the latch that guards it although values are overwritten in place");
    } else {
      auto fn = eng->fieldNames(a.base, a.off);
      if (!fn.count("value"))
        return;
      eng->count(s, "validate", I, "value read");
      if (!holdsObj(s, a.base))
        eng->report(s, I, "validate", "value-unlatched", "a value is read from a shared leaf without its latch although values are overwritten in place");
    }
  }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (exempt || ht || !a.base || !shared(s, a.base) || other(a.base))
      return;
    auto fn = eng->fieldNames(a.base, a.off);
    if (isState(fn)) {
      if (!val || size != 8 || !holdsObj(s, a.base))
        return;
      bool dead = eng->bit(val, 63)->isConst(1) && (btree || eng->bit(val, 5)->isConst(1));
      if (dead && !isMap(a.base)) {
        unchecked(s, I);
        if (!btree && !s.find("~val", a.base))
          eng->report(s, I, "validate", "unvalidated-delete", "a node is given up without checking, under its latch, that it is still what the operation found (and copied) before");
      }
      return;
    }
    if (btree && any(fn, {"logical_pagesize", "next_slot_offset", "max_slot_offset", "last_value_offset", "num_dead_values", "m_height", "mutex"}))
      return;
    if (isMap(a.base) && !any(fn, {"m_root", "root"}))
      return;
    eng->count(s, "validate", I, "change");
    if (!holdsObj(s, a.base))
      return; // C03
    unchecked(s, I);
    if (btree && !s.find("OPTCHG"))
      s.addMon("OPTCHG", {});
    if (getenv("IXA_OPT") && !s.find("~val", a.base))
      llvm::errs() << "unvalidated " << eng->whereR(s, I) << " base " << P.str(a.base) << "\n";
    if (!s.find("~val", a.base))
      eng->report(s, I, "validate", "unvalidated-change", string(isMap(a.base) ? "the root link" : "a node") +
                                                              " is changed without checking, under its latch, that it is still what the operation found before");
    settled(s, I, a.base);
  }
  void unchecked(State &s, const llvm::Instruction *I) {
    for (auto &m : s.all("UNCHK")) {
      eng->report(s, I, "validate", "unvalidated-latch", "a change is made although a node latched for it (at " + m.note + ") was not compared with what was found before");
      s.erase("UNCHK", m.args[0]);
    }
  }
  void onAssume(State &s, const llvm::Instruction *I, E p) override {
    if (exempt || ht || !p->isOp("eq0"))
      return;
    E d = p->args[0];
    if (btree)
      for (auto &m : s.all("~pre"))
        if (eng->bit(m.args[1], 62) == d && !s.find2("~lpre", m.args[0], m.args[1]))
          s.addMon("~lpre", {m.args[0], m.args[1]});
    E x = nullptr, y = nullptr;
    if (d->isSym()) {
      x = d;
      y = P.zero;
    } else if (d->k == K_LIN && d->terms.size() == 2 && d->c == 0 && d->terms[0].second == -d->terms[1].second) {
      x = d->terms[0].first;
      y = d->terms[1].first;
    } else if (d->k == K_LIN && d->terms.size() == 1) {
      x = d->terms[0].first;
      y = P.cst(d->terms[0].second == 1 ? -d->c : d->c);
    } else
      return;
    if (getenv("IXA_OPT")) {
      llvm::errs() << "CMP " << P.str(x) << " " << P.str(y) << " at " << (I ? eng->whereR(s, I) : string("-"));
      for (auto &m : s.mons)
        if (m.tag == "UNV" || m.tag == "~post" || m.tag == "~pre" || m.tag == "~cur" || m.tag == "UNCHK") {
          llvm::errs() << " " << m.tag;
          for (auto a : m.args) llvm::errs() << "," << P.str(a);
        }
      llvm::errs() << "\n";
    }
    match(s, I, x, y);
    match(s, I, y, x);
  }
  // the operation starts working on what it found
  void settled(State &s, const llvm::Instruction *I, E node) {
    if (!btree || s.find("OPTDONE"))
      return;
    for (auto &m : s.all("UNV"))
      if (m.args[0] != node)
        eng->report(s, I, "validate", "unvalidated-read", "a node is latched and taken for the right one on the strength of an unlatched read (" + m.note + ") that was not validated");
    for (auto t : {"UNV", "~pre", "~post", "~lpre"})
      s.erase(t);
    s.addMon("OPTDONE", {});
  }
  void match(State &s, const llvm::Instruction *I, E now, E before) {
    for (auto &m : s.all("~post"))
      if (m.args[1] == now) {
        bool isPost = false;
        for (auto &q : s.mons)
          isPost |= q.tag == "~post" && q.args[0] == m.args[0] && q.args[1] == before;
        if (isPost && before != now)
          continue;
        bool locked = btree && !before->isConst() && !lockedKnownClear(s, before) && s.find2("~pre", m.args[0], before) && !s.find2("~lpre", m.args[0], before);
        if (locked && !lockedKnownClear(s, now))
          continue;
        s.erase("UNV", m.args[0]);
      }
    for (auto &m : s.all("~cur"))
      if (m.args[1] == now && !s.find2("~cur", m.args[0], before))
{
        s.addMon("~val", {m.args[0]});
        s.erase("UNCHK", m.args[0]);
        settled(s, I, m.args[0]);
      }
  }
  bool lockedKnownClear(State &s, E v) {
    E b = eng->bit(v, 62);
    if (b->isConst())
      return b->isConst(0);
    E q = eng->simplify(s, P.eq0(b));
    return q->isConst() && q->c;
  }
  void onEnter(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    if (exempt || ht)
      return;
    if (name == "after-lock") {
      E L = args.size() == 2 ? args[1] : args[0];
      E o = guarded(L);
      if (!o)
        return;
      forgetObj(s, o); // what was compared under an earlier latch no longer counts
      // reached through a link of a latched node, or not yet visible to others
      if (eng->privateObj(s, o))
        s.addMon("~val", {o});
      for (auto &m : s.all("~live"))
        if (m.args[0] == o && holdsObj(s, m.args[1])) {
          s.addMon("~val", {o});
          settled(s, CB, o);
          return;
        }
      if (btree && !isMap(o) && !eng->privateObj(s, o) && s.find("OPTDONE"))
        s.addMon("UNCHK", {o}, eng->whereR(s, CB));
    } else if (name == "after-unlock") {
      bool used = false; // was anything decided on what was found under this latch?
      if (E o = guarded(args[0])) {
        used = s.find("~crd", o);
        s.erase("~crd", o);
        forgetObj(s, o);
      }
      if (btree && !used && !s.find("OPTCHG")) {
        bool latched = false;
        for (auto &m : s.mons)
          latched |= m.tag.compare(0, 5, "LOCK/") == 0 || m.tag == "LOCKV" || m.tag == "BAG";
        if (!latched)
          s.erase("OPTDONE");
      }
    } else if (name == "container-destroy" || name == "std::vector::clear") {
      s.erase("UNCHK");
      for (auto &b : s.all("LOCKV"))
        if (b.args[1] == args[0])
          if (E o = guarded(b.args[0]))
            forgetObj(s, o);
    }
  }
  static void forgetObj(State &s, E o) {
    s.erase("~val", o);
    s.erase("~cur", o);
    s.erase("UNCHK", o);
  }
  E guarded(E lockAddr) {
    Addr l = splitAddr(lockAddr);
    if (l.base && l.off->isConst(0) && l.base->isSym() && P.info(l.base).loadAddr) {
      Addr o = memAddr(P.info(l.base).loadAddr);
      if (o.base && any(eng->fieldNames(o.base, o.off), {"m_root_mutex", "root_mtx"}))
        return o.base;
    }
    return l.base;
  }
  bool onCall(State &s, const CallBase *CB, const string &name, vector<E> &args, vector<State> &out) override {
    if (name == "indexes::utils::EpochManager::enter_epoch") {
      s.erase("UNV");
      s.erase("~post");
      s.erase("~pre");
      s.erase("~lpre");
      s.erase("OPTDONE");
      s.erase("OPTCHG");
    }
    if (name.rfind("indexes::utils::EpochManager::", 0) || !CB->getType()->isVoidTy())
      return false;
    out.push_back(std::move(s));
    return true;
  }
  void onReturn(State &s, E ret, const string &root) override {
    eng->count("validate", nullptr, "return of " + root);
    for (auto &m : s.all("UNV"))
      eng->report(s, nullptr, "validate", "unvalidated-result", "the operation returns a result that depends on an unlatched read (" + m.note + ") that was not validated");
  }
};
Monitor *makeOptMon(Engine *e) { return new OptMon(); }
} // namespace ixa
