// Epoch protocol: what EpochManager publishes, with which tag it retires, and
// when it may hand an object to its reclaimer.
//   ~cov{a,lo,hi}  a is not above the published epoch of any of the slots [lo,hi), each read once
//   REC{V,lo,hi}   objects of the retire list V handed to their reclaimers and still in the list
//   PSH{next,end}  objects of the argument array still to be put on the retire list
#include "monitors.h"
#include "llvm/Support/raw_ostream.h"
namespace ixa {
using std::string;
using std::vector;

struct EpoMon : Monitor {
  E self = nullptr, tid = nullptr, objs = nullptr, nobj = nullptr, nest0 = nullptr, slots = nullptr;
  string root;
  bool is(const char *r) { return root.find(r) != string::npos; }
  void onStart(State &s) override {
    root = eng->curRoot;
    auto *F = s.top().F;
    auto arg = [&](unsigned i) { return i < F->arg_size() ? s.top().env[F->getArg(i)] : nullptr; };
    self = arg(0);
    tid = P.sym(S_ARG);
    P.info(tid).name = "thread_id";
    s.facts.insert(P.ge0(tid));
    nest0 = P.sym(S_ARG);
    P.info(nest0).name = "nesting";
    s.facts.insert(P.ge0(nest0));
    objs = nobj = nullptr;
    s.addMon("~cov", {P.cst(-1), P.zero, P.zero});
    if (is("_retire_")) {
      objs = arg(2);
      nobj = arg(3);
      s.facts.insert(P.ge0(nobj));
      s.addMon("PSH", {objs, P.add(objs, nobj, 8)});
    } else if (is("_retire1_"))
      nobj = arg(2);
    eng->count(s, "epochmgr", &*F->getEntryBlock().begin(), "operation " + root);
  }
  // slot of the per-thread epochs: element of a vector member
  bool slot(Addr a, E &idx) {
    if (!a.base || !a.base->isOp("elem"))
      return false;
    Addr v = splitAddr(a.base->args[0]);
    if (v.base != self)
      return false;
    idx = a.base->args[1];
    return true;
  }
  E slotVec(Addr a) { return a.base->args[0]; }
  bool epochWord(Addr a, uint32_t size, bool atomic) { return atomic && size == 8; }
  bool globalWord(Addr a, uint32_t size, bool atomic) { return a.base == self && atomic && size == 8; }
  bool leq(State &s, E a, E b) {
    if (a == b)
      return true;
    for (E p : {P.ge0(P.sub(b, a)), P.notE(P.op("ult", {b, a})), P.op("ult", {a, b})}) {
      E r = eng->simplify(s, p);
      if (r->isConst() && r->c)
        return true;
    }
    return false;
  }
  bool geq0(State &s, E e) {
    E r = eng->simplify(s, P.ge0(e));
    return r->isConst() && r->c;
  }
  bool lt(State &s, E a, E b) {
    for (E p : {P.ge0(P.addc(P.sub(b, a), -1)), P.op("ult", {a, b})}) {
      E r = eng->simplify(s, p);
      if (r->isConst() && r->c)
        return true;
    }
    return false;
  }
  int stable(State &s, E base, E off) override {
    E i;
    if (slot({base, off}, i) && i == tid)
      return 1; // written by this thread only
    return -1;
  }
  static bool acquires(const llvm::Instruction *I) {
    using llvm::AtomicOrdering;
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I))
      return llvm::isAcquireOrStronger(L->getOrdering());
    return true;
  }
  static bool releases(const llvm::Instruction *I) {
    if (auto *L = llvm::dyn_cast<llvm::StoreInst>(I))
      return llvm::isReleaseOrStronger(L->getOrdering());
    return true;
  }
  static bool seqCst(const llvm::Instruction *I) {
    if (auto *L = llvm::dyn_cast<llvm::StoreInst>(I))
      return L->getOrdering() == llvm::AtomicOrdering::SequentiallyConsistent;
    if (auto *R = llvm::dyn_cast<llvm::AtomicRMWInst>(I))
      return R->getOrdering() == llvm::AtomicOrdering::SequentiallyConsistent;
    return false;
  }
  bool onCall(State &s, const llvm::CallBase *CB, const string &name, vector<E> &args, vector<State> &out) override {
    if (name == "sync_prim::ThreadRegistry::ThreadID") {
      eng->finish(s, CB, tid, out);
      return true;
    }
    if (name == "sync_prim::ThreadRegistry::MaxThreadID") {
      E n = P.sym(S_CALL, CB);
      s.facts.insert(P.ge0(n));
      for (auto &m : s.all("~cov"))
        if (covers(s, m))
          s.addMon("~covall", {m.args[0]});
      s.erase("~maxtid");
      s.addMon("~maxtid", {n});
      eng->finish(s, CB, n, out);
      return true;
    }
    if (name == "std::function::operator()" && !args.empty())
      reclaimed(s, CB, args[0]);
    return false;
  }
  void reclaimed(State &s, const llvm::CallBase *CB, E fn) {
    Addr a = memAddr(fn);
    E p = nullptr, V = nullptr;
    if (a.base && a.base->isOp("elem")) {
      V = a.base->args[0];
      p = a.base->args[1];
    }
    eng->count(s, "epochmgr", CB, "reclaimer call");
    if (!V || !listOk(s, CB, V))
      return eng->report(s, CB, "epochmgr", "reclaim-source", "a reclaimer is called for something that is not on a retire list");
    bool ok = false;
    for (auto &c : s.mem)
      if (c.first.base == a.base && c.second.size == 8)
        for (auto &m : s.mons)
          if ((m.tag == "~covall" || (m.tag == "~cov" && covers(s, m))) && lt(s, c.second.val, m.args[0]))
            ok = true;
    if (!ok)
      eng->report(s, CB, "epochmgr", "reclaim-early", "an object is reclaimed without comparing the epoch it was retired in with the smallest epoch of all threads inside a section, each slot read once");
    Mon *r = s.find("REC", V);
    if (!r)
      s.addMon("REC", {V, p, P.addc(p, 1)}, eng->whereR(s, CB));
    else if (r->args[2] == p)
      r->args[2] = P.addc(p, 1);
    else
      eng->report(s, CB, "epochmgr", "reclaim-twice", "an object is reclaimed again, or objects between reclaimed ones stay on the list");
  }
  bool listOk(State &s, const llvm::Instruction *I, E V) {
    Addr l = memAddr(V);
    if (!l.base || !l.base->isOp("elem") || splitAddr(l.base->args[0]).base != self)
      return false;
    if (l.base->args[1] != tid && !is("_all"))
      eng->report(s, I, "epochmgr", "foreign-list", "the retire list of another thread is used");
    return true;
  }
  bool covers(State &s, const Mon &m) {
    if (!m.args[1]->isConst(0))
      return false;
    for (auto &x : s.mons)
      if ((x.tag == "~maxtid" && geq0(s, P.addc(P.sub(m.args[2], x.args[0]), -1))) ||
          (x.tag == "~vsize" && x.args[0] == slots && geq0(s, P.sub(m.args[2], x.args[1]))))
        return true;
    return false;
  }
  void cover(State &s, E v, E i, E V, E a, bool below) {
    slots = V;
    // below: a is not above the epoch v of slot i
    vector<Mon> add;
    E ni = P.addc(i, 1);
    if (below)
      add.push_back({"~cov", {a, i, ni}});
    for (auto &m : s.mons)
      if (m.tag == "~cov" && m.args[2] == i) {
        if (m.args[0] == a)
          add.push_back({"~cov", {below ? a : v, m.args[1], ni}});
      }
    if (!add.empty()) { // superseded bounds
      vector<Mon> k;
      for (auto &m : s.mons)
        if (!(m.tag == "~cov" && m.args[2] == i))
          k.push_back(m);
      s.mons = k;
    }
    for (auto &m : add)
      s.addMon(m.tag, m.args);
  }
  void onAssume(State &s, const llvm::Instruction *I, E p) override {
    bool neg = p->isOp("not");
    E q = neg ? p->args[0] : p;
    for (auto &m : s.all("~slot")) {
      E v = m.args[0], i = m.args[1], V = m.args[2];
      E a = nullptr;
      bool below = false;
      if (q->isOp("ult")) {
        if (q->args[0] == v) // v < a
          a = q->args[1], below = neg;
        else if (q->args[1] == v) // a < v
          a = q->args[0], below = !neg;
      } else if (q->isOp("ge0") || q->isOp("eq0")) {
        // b - c + k >= 0 with one of them v
        E d = q->args[0];
        int64_t cv = 0;
        E rest = P.zero;
        if (d->k == K_LIN) {
          for (auto &t : d->terms)
            if (t.first == v)
              cv = t.second;
            else
              rest = P.add(rest, t.first, t.second);
          if (cv == 1 || cv == -1) {
            a = P.scale(rest, -cv); // v*cv + rest + c >= 0
            if (q->isOp("eq0")) {
              if (neg || d->c)
                continue;
              below = true;
            } else if (!neg)
              below = cv > 0 ? d->c <= 0 : false;
            else
              below = cv > 0 ? false : d->c >= -1;
            bool above = q->isOp("eq0") || (!neg ? (cv < 0 && d->c <= 0) : (cv > 0 && d->c >= -1));
            if (!below && !above)
              continue;
          } else
            a = nullptr;
        }
      }
      if (a)
        cover(s, v, i, V, a, below);
    }
  }
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (!val)
      return;
    E i;
    if (globalWord(a, size, atomic)) {
      s.addMon("~glob", {val});
      s.addMon("~cov", {val, P.zero, P.zero}); // bounds no slot yet
      return;
    }
    if (slot(a, i)) {
      if (!epochWord(a, size, atomic)) {
        if (!atomic && i == tid && !s.find("~nestread") && !s.find("NEST"))
          s.addMon("~nestread", {val});
        return;
      }
      eng->count(s, "epochmgr", I, "epoch slot read");
      if (!acquires(I))
        return;
      E V = slots = slotVec(a), ni = P.addc(i, 1);
      vector<Mon> add{{"~cov", {val, i, ni}}};
      for (auto &m : s.mons)
        if (m.tag == "~cov" && m.args[2] == i && leq(s, m.args[0], val))
          add.push_back({"~cov", {m.args[0], m.args[1], ni}});
      s.erase("~slot");
      s.addMon("~slot", {val, i, V});
      for (auto &m : add)
        s.addMon(m.tag, m.args);
    }
  }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (!val || !a.base)
      return;
    E i;
    if (globalWord(a, size, atomic)) {
      eng->count(s, "epochmgr", I, "global epoch change");
      bool adv = false;
      if (llvm::isa<llvm::AtomicRMWInst>(I))
        for (auto &m : s.all("~glob"))
          adv |= val == P.addc(m.args[0], 1);
      if (!adv)
        eng->report(s, I, "epochmgr", "global-epoch", "the global epoch is changed other than by one atomic increment");
      s.addMon("ADV", {});
      return;
    }
    if (!slot(a, i))
      return;
    if (i != tid)
      return eng->report(s, I, "epochmgr", "foreign-slot", "the epoch slot of another thread is written");
    if (!epochWord(a, size, atomic)) {
      s.erase("NEST");
      s.addMon("NEST", {val});
      return;
    }
    eng->count(s, "epochmgr", I, "epoch slot write");
    if (!releases(I))
      eng->report(s, I, "epochmgr", "slot-order", "an epoch slot is written without release ordering");
    if (val->isConst(-1)) {
      s.erase("SLOT/busy");
      s.erase("SLOT/fence");
      s.addMon("SLOT/idle", {});
      if (!is("_exit"))
        eng->report(s, I, "epochmgr", "slot-idle", "a section is ended by an operation that is not exit_epoch");
      return;
    }
    bool g = false;
    for (auto &m : s.all("~glob"))
      g |= m.args[0] == val;
    if (!g)
      eng->report(s, I, "epochmgr", "slot-value", "the epoch published for a section is not the global epoch read on this path");
    if (!is("_enter"))
      eng->report(s, I, "epochmgr", "slot-busy", "a section is begun by an operation that is not enter_epoch");
    s.erase("SLOT/idle");
    s.addMon("SLOT/busy", {});
    if (seqCst(I))
      s.addMon("SLOT/fence", {});
    else
      s.erase("SLOT/fence");
  }
  void onFence(State &s, const llvm::Instruction *I) override {
    if (llvm::cast<llvm::FenceInst>(I)->getOrdering() == llvm::AtomicOrdering::SequentiallyConsistent && s.find("SLOT/busy"))
      s.addMon("SLOT/fence", {});
  }
  void onEnter(State &s, const llvm::CallBase *CB, const string &name, vector<E> &args) override {
    if (name == "container-begin") {
      if (!isList(args[0]))
        return;
      kept(s, args[0]);
      if (!s.find("REC", args[0]))
        s.addMon("REC", {args[0], P.zero, P.zero});
    } else if (name == "container-push") {
      if (isList(args[0]))
        pushed(s, CB, args);
    } else if (name == "container-pop-front") {
      if (!isList(args[0]))
        return;
      auto *r = s.find("REC", args[0]);
      if (!r || !r->args[1]->isConst(0) || r->args[2] == P.zero)
        return eng->report(s, CB, "epochmgr", "dropped", "an object leaves its retire list without having been reclaimed");
      r->args[2] = P.addc(r->args[2], -1);
    } else if (name == "container-erase") {
      if (!isList(args[0]))
        return;
      Addr b = memAddr(args[1]), e = memAddr(args[2]);
      E lo = b.base && b.base->isOp("elem") ? b.base->args[1] : nullptr, hi = e.base && e.base->isOp("elem") ? e.base->args[1] : nullptr;
      auto *r = s.find("REC", args[0]);
      if (lo && lo == hi)
        return;
      if (!r || !lo || !hi || r->args[1] != lo || !geq0(s, P.sub(r->args[2], hi)))
        return eng->report(s, CB, "epochmgr", "dropped", "an object leaves its retire list without having been reclaimed");
      if (!geq0(s, P.sub(hi, r->args[2])))
        return; // the rest is still to go
      r->args[2] = r->args[1];
    }
  }
  bool isList(E V) {
    Addr l = memAddr(V);
    return l.base && l.base->isOp("elem") && splitAddr(l.base->args[0]).base == self;
  }
  void pushed(State &s, const llvm::CallBase *CB, vector<E> &args) {
    eng->count(s, "epochmgr", CB, "object retired");
    listOk(s, CB, args[0]);
    vector<E> vals;
    if (args.size() == 4) { // moved or copied in
      Addr a = memAddr(args[1]);
      for (auto &c : s.mem)
        if (c.first.base == a.base && c.second.size == 8)
          vals.push_back(c.second.val);
    } else
      for (size_t i = 3; i < args.size(); i++) {
        Addr a = memAddr(args[i]);
        auto it = a.base ? s.mem.find({a.base, a.off}) : s.mem.end();
        if (it != s.mem.end() && it->second.size == 8)
          vals.push_back(it->second.val);
      }
    bool tag = false;
    for (auto v : vals)
      for (auto &m : s.all("~glob"))
        tag |= geq0(s, P.sub(v, m.args[0]));
    if (!tag)
      eng->report(s, CB, "epochmgr", "retire-tag", "an object is retired with an epoch that is not the global epoch read by this operation, or later");
    if (objs) {
      auto *m = s.find("PSH");
      bool ok = false;
      for (auto v : vals)
        if (m && v->isSym() && P.info(v).loadAddr == m->args[0])
          ok = true;
      if (!ok)
        return eng->report(s, CB, "epochmgr", "retire-object", "objects are not put on the retire list one after the other");
      m->args[0] = P.addc(m->args[0], 8);
    } else {
      bool ok = false;
      for (auto v : vals)
        ok |= v == nobj;
      if (!ok || s.find("PSH1"))
        return eng->report(s, CB, "epochmgr", "retire-object", "the object is not put on the retire list exactly once");
      s.addMon("PSH1", {});
    }
  }
  // the lists other than V are done with
  void kept(State &s, E V) {
    for (auto &r : s.all("REC"))
      if (r.args[0] != V) {
        if (r.args[1] != r.args[2] && !zero(s, P.sub(r.args[2], r.args[1])))
          bad(s, "reclaim-kept", "reclaimed objects stay on the retire list");
        s.erase("REC", r.args[0]);
      }
  }
  bool zero(State &s, E v) {
    E r = eng->simplify(s, P.eq0(v));
    return r->isConst() && r->c;
  }
  bool nonZero(State &s, E v) {
    E r = eng->simplify(s, P.eq0(v));
    return r->isConst() && !r->c;
  }
  void bad(State &s, const char *rule, const string &msg) { eng->report(s, nullptr, "epochmgr", rule, msg); }
  void onReturn(State &s, E ret, const string &) override {
    kept(s, nullptr);
    auto *n = s.find("NEST");
    bool busy = s.find("SLOT/busy"), idle = s.find("SLOT/idle");
    if (is("_enter")) {
      E o = entryNest(s, n ? n->args[0] : nullptr, -1);
      if (!o)
        bad(s, "nesting", "enter_epoch does not raise the nesting level by one");
      else if (busy ? !zero(s, o) : !nonZero(s, o))
        bad(s, "enter", busy ? "a nested enter_epoch replaces the epoch of the outer section" : "enter_epoch returns without having published an epoch for an outermost section");
      if (busy && !s.find("SLOT/fence"))
        bad(s, "enter-fence", "enter_epoch publishes the epoch without a sequentially consistent store or fence behind it, so reads of the section may pass it");
    } else if (is("_exit")) {
      E o = entryNest(s, n ? n->args[0] : nullptr, 1);
      if (!o)
        bad(s, "nesting", "exit_epoch does not lower the nesting level by one");
      else if (idle ? !zero(s, P.addc(o, -1)) : !nonZero(s, P.addc(o, -1)))
        bad(s, "exit", idle ? "exit_epoch of a nested section ends the outer one" : "exit_epoch of the outermost section leaves its epoch published");
    } else if (n)
      bad(s, "nesting", "the nesting level is changed by another operation");
    if (is("_retire") || is("_switch")) {
      bool adv = s.find("ADV");
      bool want = is("_new") || is("_switch");
      if (adv != want)
        bad(s, "advance", want ? "no new epoch is started" : "a new epoch is started");
      if (objs) {
        auto *m = s.find("PSH");
        if (!m || !geq0(s, P.sub(m->args[0], m->args[1])))
          bad(s, "retire-object", "an object given to retire is not put on the retire list");
      } else if (is("_retire1_") && !s.find("PSH1"))
        bad(s, "retire-object", "the object given to retire is not put on the retire list");
      if (is("_switch")) {
        bool g = false;
        for (auto &m : s.all("~glob"))
          g |= ret == m.args[0];
        if (!g)
          bad(s, "advance", "switch_epoch does not return the epoch it ended");
      }
    } else if (s.find("ADV"))
      bad(s, "advance", "a new epoch is started");
  }
  // the level at entry, if v is it minus d
  E entryNest(State &s, E v, int d) {
    if (!v)
      return nullptr;
    E o = P.addc(v, d);
    for (auto &m : s.all("~nestread"))
      if (m.args[0] == o)
        return o;
    return nullptr;
  }
};
Monitor *makeEpoMon(Engine *e) {
  auto *m = new EpoMon;
  m->eng = e;
  return m;
}
} // namespace ixa
