// Latch typestate: every latch acquired by an operation is released exactly once,
// never re-acquired while held, never released when not held.
#include "monitors.h"
#include <numeric>
#include "llvm/Support/raw_ostream.h"
namespace ixa {
using std::string;
using std::vector;

static bool isLockTag(const string &t) { return t.compare(0, 5, "LOCK/") == 0; }
struct LockMon : Monitor {
  LockCfg cfg;
  LockMon(const LockCfg &c) : cfg(c) {}
  static bool isMutex(const string &n, string &m) {
    static const string c = "sync_prim::mutex::Mutex::";
    if (n.rfind(c, 0) == 0) {
      m = n.substr(c.size());
      return true;
    }
    return false;
  }
  void forget(State &s, E lockAddr) {
    Addr a = splitAddr(lockAddr);
    if (!a.base)
      return;
    dropMutable(s, a.base);
    if (a.base->isSym() && P.info(a.base).kind == S_LOAD && P.info(a.base).loadAddr) {
      Addr o = memAddr(P.info(a.base).loadAddr);
      if (o.base && a.off->isConst(0))
        dropMutable(s, o.base);
    }
  }
  void dropMutable(State &s, E base) {
    if (eng->privateObj(s, base))
      return;
    for (auto it = s.mem.begin(); it != s.mem.end();) {
      if (it->first.base == base) {
        bool keep = false;
        if (!it->second.atomic) {
          auto fn = eng->fieldNames(base, it->first.off);
          for (auto &f : fn)
            keep |= eng->constFields.count(f) > 0;
        }
        if (!keep) {
          it = s.mem.erase(it);
          continue;
        }
      }
      ++it;
    }
  }
  int stable(State &s, E base, E off) override { return holdsObj(s, base, off) ? 1 : 0; }

  bool onCall(State &s, const CallBase *CB, const string &name, vector<E> &args, vector<State> &out) override {
    string m;
    if (isMutex(name, m)) {
      E a = args.empty() ? P.zero : args[0];
      if (m == "Mutex" || m == "~Mutex") {
        out.push_back(std::move(s));
        return true;
      }
      Addr ad = splitAddr(a);
      if (m == "lock" || m == "try_lock") {
        if (!ad.base) {
          if (!cfg.nullLatch)
            return true; // dereference of null: not a path of this rule
          eng->report(s, CB, "lock", "null-latch", "latch of a null object is acquired");
        }
        eng->count(s, "lock", CB, "acquire");
        if (m == "try_lock") {
          State f = s;
          eng->setv(f, CB, P.zero);
          out.push_back(std::move(f));
        } else if (held(s, a)) {
          eng->report(s, CB, "lock", "self-deadlock", "latch already held by this operation is acquired again");
          return true;
        }
        if (m == "lock")
          orderEdges(s, CB, a);
        for (auto *mo : eng->mons)
          mo->onEnter(s, CB, "before-lock", args);
        forget(s, a);
        if (ad.base && ad.base->isSym() && P.info(ad.base).kind != S_ALLOCA && P.info(ad.base).kind != S_GLOBAL)
          s.facts.insert(P.ge0(P.addc(ad.base, -1)));
        s.addMon(ad.off && ad.off->isConst(0) ? "LOCK/p" : "LOCK/n", {a}, eng->whereR(s, CB));
        for (auto *mo : eng->mons)
          mo->onEnter(s, CB, "after-lock", args);
        if (!CB->getType()->isVoidTy())
          eng->setv(s, CB, P.one);
        if (manyHeld(s)) {
          eng->gc(s);
          if (piledUp(s, CB))
            return true;
        }
        out.push_back(std::move(s));
        return true;
      }
      if (m == "unlock") {
        eng->count(s, "lock", CB, "release");
        if (!ad.base) {
          if (!cfg.nullLatch)
            return true;
          if (eng->verbose > 1) llvm::errs() << "null unlock " << P.str(a) << "\n";
          eng->report(s, CB, "lock", "null-latch", "latch of a null object is released");
          return true;
        }
        for (auto *mo : eng->mons)
          mo->onEnter(s, CB, "before-unlock", args);
        if (s.find("LOCK/n", a))
          s.erase("LOCK/n", a);
        else if (s.find("LOCK/p", a))
          s.erase("LOCK/p", a);
        else if (!removeFromBag(s, a)) {
          if (eng->verbose > 1) {
            llvm::errs() << "unlock-not-held " << P.str(a) << " held:";
            for (auto &m : s.mons) {
              llvm::errs() << " " << m.tag << "(";
              for (auto x : m.args) llvm::errs() << P.str(x) << ",";
              llvm::errs() << ")";
            }
            Addr q = splitAddr(a);
            if (q.base->isSym()) { llvm::errs() << " types:"; for (auto &t : P.info(q.base).types) llvm::errs() << t << ";"; if (P.info(q.base).loadAddr) { Addr o = memAddr(P.info(q.base).loadAddr); llvm::errs() << " from " << P.str(P.info(q.base).loadAddr) << " fields "; for (auto &f : eng->fieldNames(o.base, o.off)) llvm::errs() << f << "/"; for (auto &kv : s.mem) if (kv.first.base == o.base) llvm::errs() << "\n   cell " << P.str(kv.first.off) << "=" << P.str(kv.second.val) << (kv.second.atomic ? "A":""); for (auto &t : P.info(o.base).types) llvm::errs() << t << ";";} }
            llvm::errs() << "\n";
          }
          eng->report(s, CB, "lock", "unlock-not-held", "latch that is not held is released");
          return true;
        }
        forget(s, a);
        dropLive(s);
        for (auto *mo : eng->mons)
          mo->onEnter(s, CB, "after-unlock", args);
        out.push_back(std::move(s));
        return true;
      }
      if (m == "is_locked") {
        eng->finish(s, CB, P.notE(P.eq0(P.sym(S_CALL, CB))), out);
        return true;
      }
    }
    // a container of scoped locks
    if ((name == "std::vector::emplace_back" || name == "std::deque::emplace_back" || name == "boost::container::vector::emplace_back") &&
        args.size() == 2 && demangled(CB->getCalledFunction()).find("unique_lock<sync_prim") < 40) {
      E vec = args[0], a = args[1];
      eng->count(s, "lock", CB, "acquire (container)");
      if (held(s, a)) {
        eng->report(s, CB, "lock", "self-deadlock", "latch already held by this operation is acquired again");
        return true;
      }
      orderEdges(s, CB, a);
      for (auto *mo : eng->mons)
        mo->onEnter(s, CB, "before-lock", args);
      forget(s, a);
      Addr ad = splitAddr(a);
      if (!ad.base) {
        if (cfg.nullLatch)
          eng->report(s, CB, "lock", "null-latch", "latch of a null object is acquired");
        return true;
      }
      if (ad.base->isSym() && P.info(ad.base).kind != S_ALLOCA && P.info(ad.base).kind != S_GLOBAL)
        s.facts.insert(P.ge0(P.addc(ad.base, -1)));
      intoVec(s, CB, vec, a);
      for (auto *mo : eng->mons)
        mo->onEnter(s, CB, "after-lock", args);
      eng->finish(s, CB, P.op("data", {vec, P.cst(16)}), out);
      return true;
    }
    return false;
  }
  // the latch is from now on released with the container
  void intoVec(State &s, const CallBase *CB, E vec, E a) {
    Addr ad = splitAddr(a);
    E S, idx;
    if (ad.base && elemOf(s, ad.base, S, idx)) {
      if (Mon *b = s.find2("BAG", vec, S)) {
        if (b->args[3] == idx)
          b->args[3] = P.addc(idx, 1);
        else
          s.addMon("LOCKV", {a, vec});
      } else
        s.addMon("BAG", {vec, S, idx, P.addc(idx, 1), ad.off}, eng->whereR(s, CB));
    } else {
      if (getenv("IXA_BAG")) { llvm::errs() << "LOCKV " << P.str(a); for (auto &kv : s.mem) if (kv.second.val == ad.base) llvm::errs() << " in " << P.str(kv.first.base) << "+" << P.str(kv.first.off); llvm::errs() << "\n"; }
      s.addMon("LOCKV", {a, vec});
    }
  }
  // ---- lock order -------------------------------------------------------
  string lockClass(E addr) {
    Addr a = splitAddr(addr);
    if (!a.base)
      return "?";
    auto names = [&](E b, E o) {
      string r;
      for (auto &f : eng->fieldNames(b, o))
        r += (r.empty() ? "" : "/") + f;
      return r;
    };
    if (a.off->isConst(0) && a.base->isSym() && P.info(a.base).loadAddr) {
      Addr o = memAddr(P.info(a.base).loadAddr);
      string n = o.base ? names(o.base, o.off) : "";
      if (!n.empty())
        return "root:" + n;
    }
    if (a.base->isSym() && P.info(a.base).kind == S_ARG)
      return "root:" + names(a.base, a.off);
    return "node";
  }
  static bool loadedFrom(E child, E parent) {
    if (!child->isSym() || !P.info(child).loadAddr)
      return false;
    Addr o = memAddr(P.info(child).loadAddr);
    return o.base == parent;
  }
  void orderEdges(State &s, const CallBase *CB, E addr) {
    Addr a = splitAddr(addr);
    string ca = lockClass(addr);
    if (a.base && eng->privateObj(s, a.base))
      return;
    for (auto &m : s.mons) {
      E h = nullptr;
      if (isLockTag(m.tag) || m.tag == "LOCKV")
        h = m.args[0];
      else if (m.tag == "BAG") {
        E S, idx;
        string rel = "bag";
        if (ca == "node" && a.base && elemOf(s, a.base, S, idx) && S == m.args[1]) {
          if (eng->entailsGe0(s, P.sub(idx, m.args[3])))
            rel = "down";
          else if (eng->entailsGe0(s, P.addc(P.sub(m.args[2], idx), -1)))
            rel = "up";
        }
        eng->counts["order-edge"].insert("node>" + ca + "|" + (ca == "node" ? rel : "") + "|" + eng->whereR(s, CB) + " held since " + m.note);
        eng->count(s, "order", CB, "acquire while holding");
        continue;
      } else
        continue;
      Addr b = splitAddr(h);
      if (b.base && eng->privateObj(s, b.base))
        continue;
      string cb = lockClass(h), rel = "";
      if (ca == "node" && cb == "node") {
        rel = "?";
        if (s.find2("~par", a.base, b.base) || loadedFrom(a.base, b.base))
          rel = "down";
        else if (s.find2("~par", b.base, a.base) || loadedFrom(b.base, a.base))
          rel = "up";
        else if (E S1 = nullptr, i1 = nullptr, S2 = nullptr, i2 = nullptr; elemOf(s, a.base, S1, i1) && elemOf(s, b.base, S2, i2) && S1 == S2) {
          // both from the descent record: later entries are descendants
          if (eng->entailsGe0(s, P.addc(P.sub(i1, i2), -1)))
            rel = "down";
          else if (eng->entailsGe0(s, P.addc(P.sub(i2, i1), -1)))
            rel = "up";
        }
      }
      eng->counts["order-edge"].insert(cb + ">" + ca + "|" + rel + "|" + eng->whereR(s, CB) + " held since " + m.note);
      eng->count(s, "order", CB, "acquire while holding");
    }
  }
  void onDiverge(State &s, const llvm::Instruction *I) override { piledUp(s, I); }
  // latches piling up round after round although nothing remembers them
  bool piledUp(State &s, const llvm::Instruction *I) {
    std::map<string, int> n;
    bool r = false;
    for (auto &m : s.mons)
      if (isLockTag(m.tag)) {
        Addr a = splitAddr(m.args[0]);
        bool known = !a.base;
        for (auto &kv : s.mem)
          known |= kv.second.val == a.base && (kv.first.base->isOp("elem") || eng->privateObj(s, kv.first.base));
        for (auto &f : s.frames)
          for (auto &kv : f.env)
            known |= kv.second == a.base;
        if (!known)
          n[m.note]++;
      }
    for (auto &x : n)
      if (x.second >= 4) {
        eng->report(s, I, "lock", "held-at-return", "latches acquired at " + x.first + " pile up in a loop: they are neither released nor remembered");
        r = true;
      }
    return r;
  }
  static bool manyHeld(State &s) {
    std::map<string, int> n;
    for (auto &m : s.mons)
      if (isLockTag(m.tag) && ++n[m.note] >= 5)
        return true;
    return false;
  }
  bool removeFromBag(State &s, E a) { return false; }
  // a scoped latch kept in a list forgets what it holds
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (cfg.rootNonNull && size == 8 && atomic && a.base && a.off->isConst() && val && eng->fieldNames(a.base, a.off).count("m_root")) {
      eng->count(s, "lock", I, "root link store");
      if (val->isConst(0) || !eng->entailsGe0(s, P.addc(val, -1)))
        if (val->isConst(0))
          eng->report(s, I, "lock", "root-cleared", "root link is reset to null although readers rely on it never becoming null again");
    }
    // a child reached through a new link lies below the node that holds the link
    if (val && val->isSym() && size == 8 && a.base && a.base->isSym() && val != a.base && P.info(val).kind == S_MALLOC &&
        !P.info(val).types.empty() && !s.find2("~par", val, a.base) && P.info(a.base).kind != S_ALLOCA && P.info(a.base).kind != S_ARG)
      s.addMon("~par", {val, a.base});
    if (!a.base || !a.base->isOp("elem") || size != 8 || !val || !val->isConst(0) || eng->fi(s.top().F).method != "release")
      return;
    for (auto &m : s.mons)
      if ((m.tag == "LOCKV" && m.args[1] == a.base->args[0]) || (m.tag == "BAG" && m.args[0] == a.base->args[0])) {
        eng->report(s, I, "lock", "held-at-return", "a latch kept in a list (taken at " + m.note + ") is forgotten without being released");
        return;
      }
  }
  void onEnter(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    if (name == "container-push" && args.size() == 4 && demangled(CB->getCalledFunction()).find("unique_lock<sync_prim") < 40) {
      E a = eng->load(s, CB, args[3], 8, false, true);
      if (a && (s.find("LOCK/n", a) || s.find("LOCK/p", a))) {
        s.erase("LOCK/n", a);
        s.erase("LOCK/p", a);
        intoVec(s, CB, args[0], a);
      }
      eng->store(s, CB, args[3], P.zero, 8, false, true);
      eng->store(s, CB, P.addc(args[3], 8), P.zero, 1, false, true);
    }
    if (name == "container-destroy" || name == "std::vector::clear") {
      E vec = args[0];
      bool any = false;
      for (auto &b : s.all("BAG"))
        if (b.args[0] == vec) {
          any = true;
          // contents of all covered objects become unstable
        }
      for (auto &b : s.all("LOCKV"))
        if (b.args[1] == vec) {
          any = true;
          forget(s, b.args[0]);
        }
      if (any) {
        s.erase("BAG", vec);
        vector<Mon> v;
        for (auto &m : s.mons)
          if (!(m.tag == "LOCKV" && m.args[1] == vec))
            v.push_back(m);
        s.mons = v;
        dropLive(s);
        // drop atomics of everything that is no longer protected
        for (auto it = s.mem.begin(); it != s.mem.end();)
          if (it->second.atomic && !eng->privateObj(s, it->first.base) && !holdsObj(s, it->first.base))
            it = s.mem.erase(it);
          else
            ++it;
      }
    }
  }
  // Structural axioms of the tree (listed in the evidence): a link read from a
  // latched live node is a live node; the root link read under the root latch
  // after an optimistic failure is non-null; the root state is never "deleted".
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (size != 8 || !atomic || !a.base || !val || !val->isSym() || eng->privateObj(s, a.base))
      return;
    E owner = a.base;
    bool root = false, link = false;
    if (a.off->isConst()) {
      auto fn = eng->fieldNames(a.base, a.off);
      root = fn.count("m_root") || fn.count("root");
      if (fn.count("m_root_state") || fn.count("state"))
        s.addMon("~snap", {val, owner});
      link = fn.count("children") > 0;
    } else
      link = true;
    if (!(root || link))
      return;
    bool h = holdsObj(s, owner);
    if (link)
      s.addMon("~par", {val, owner});
    if (root && s.find("~rootnn", owner))
      s.facts.insert(P.ge0(P.addc(val, -1)));
    if (h) {
      if (root ? cfg.rootNonNull : cfg.linkNonNull)
        s.facts.insert(P.ge0(P.addc(val, -1)));
      s.addMon("~live", {val, owner});
    } else if (link && cfg.linkNonNull)
      s.addMon("~lnk", {val, owner});
  }
  static bool snapOf(State &s, E x, E &b) {
    for (auto &m : s.mons)
      if (m.tag == "~snap" && m.args[0] == x) {
        b = m.args[1];
        return true;
      }
    return false;
  }
  void onAssume(State &s, const llvm::Instruction *I, E p) override {
    if (p->isOp("not") && p->args[0]->isOp("eq0") && p->args[0]->args[0]->isOp("bit") && p->args[0]->args[0]->args[1]->isConst(63)) {
      E x = p->args[0]->args[0]->args[0];
      if (x->isSym() && P.info(x).loadAddr) {
        Addr a = memAddr(P.info(x).loadAddr);
        if (!a.base)
          return;
        auto fn = eng->fieldNames(a.base, a.off);
        if (fn.count("m_root_state") || s.find("~live", a.base)) {
          s.dead = true;
          return;
        }
      }
    }
    if (p->isOp("not") && p->args[0]->isOp("eq0") && p->args[0]->args[0]->isSym()) {
      E x = p->args[0]->args[0];
      if (P.info(x).loadAddr) {
        Addr a = memAddr(P.info(x).loadAddr);
        if (a.base && cfg.rootNonNull && eng->fieldNames(a.base, a.off).count("m_root"))
          s.addMon("~rootnn", {a.base});
      }
    }
    if (p->isOp("eq0") && p->args[0]->k == K_LIN && p->args[0]->c == 0 && p->args[0]->terms.size() == 2) {
      E x = p->args[0]->terms[0].first, y = p->args[0]->terms[1].first, bx, by;
      if (p->args[0]->terms[0].second == -p->args[0]->terms[1].second && snapOf(s, x, bx) && snapOf(s, y, by) && bx == by) {
        for (auto &m : s.all("~lnk"))
          if (m.args[1] == bx) {
            if (m.args[0]->isConst(0)) {
              s.dead = true;
              return;
            }
            s.facts.insert(P.ge0(P.addc(m.args[0], -1)));
          }
      }
    }
  }
  void dropLive(State &s) {
    std::vector<Mon> v;
    for (auto &m : s.mons)
      if (m.tag != "~live" || holdsObj(s, m.args[1]))
        v.push_back(m);
    s.mons = v;
  }
  void onRecursion(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    for (auto &m : s.mons)
      if (isLockTag(m.tag) || m.tag == "BAG" || m.tag == "LOCKV") {
        eng->report(s, CB, "lock", "recursion", "the operation calls itself while still holding the latch acquired at " + m.note);
        return;
      }
  }
  void onReturn(State &s, E ret, const string &root) override {
    eng->count("lock", nullptr, "return of " + root);
    for (auto &m : s.mons)
      if (isLockTag(m.tag) || m.tag == "BAG" || m.tag == "LOCKV")
        eng->report(s, nullptr, "lock", "held-at-return", "latch acquired at " + m.note + " is still held when the operation returns");
  }
};

bool elemOf(State &s, E p, E &S, E &idx) {
  for (auto &kv : s.mem)
    if (kv.first.base->isOp("elem") && kv.second.val == p && kv.second.size == 8) {
      S = kv.first.base->args[0];
      idx = kv.first.base->args[1];
      return true;
    }
  return false;
}
bool inBag(Engine *eng, State &s, E base) {
  for (auto &kv : s.mem)
    if (kv.first.base->isOp("elem") && kv.second.val == base && kv.second.size == 8)
      for (auto &b : s.mons)
        if (b.tag == "BAG" && b.args[1] == kv.first.base->args[0]) {
          E i = kv.first.base->args[1];
          if (eng->entailsGe0(s, P.sub(i, b.args[2])) && eng->entailsGe0(s, P.addc(P.sub(b.args[3], i), -1)))
            return true;
        }
  return false;
}
static Engine *gEng;
bool held(State &s, E addr) {
  if (s.find("LOCK/n", addr) || s.find("LOCK/p", addr))
    return true;
  for (auto &m : s.mons)
    if (m.tag == "LOCKV" && m.args[0] == addr)
      return true;
  Addr a = splitAddr(addr);
  return a.base && inBag(gEng, s, a.base);
}
// primitive part of the index i of off = i*S + c
E indexOf(E off) {
  if (off->isConst())
    return nullptr;
  if (off->k != K_LIN)
    return off;
  vector<std::pair<E, int64_t>> q;
  for (auto &t : off->terms)
    if (!(t.first->isSym() && P.info(t.first).name == "fld")) // offset of a field inside the element
      q.push_back(t);
  if (q.empty())
    return nullptr;
  if (q.size() == 1)
    return q[0].first;
  int64_t g = 0;
  for (auto &t : q)
    g = std::gcd(g, (int64_t)std::llabs(t.second));
  for (auto &t : q)
    t.second /= g;
  return P.lin(0, q);
}
bool holdsObj(State &s, E base, E off) {
  if (!base)
    return false;
  for (auto &m : s.mons)
    if (isLockTag(m.tag) || m.tag == "LOCKV") {
      Addr a = splitAddr(m.args[0]);
      if (a.base == base && (!off || a.off->isConst() || indexOf(a.off) == indexOf(off)))
        return true; // a latch in an array guards only its own element
      if (a.base && a.off->isConst(0) && a.base->isSym() && P.info(a.base).loadAddr) {
        Addr o = memAddr(P.info(a.base).loadAddr);
        if (o.base == base)
          return true;
      }
    }
  return inBag(gEng, s, base);
}
Monitor *makeLockMon(Engine *e, const LockCfg &c) {
  gEng = e;
  return new LockMon(c);
}
} // namespace ixa
