// Element counters: an operation changes the number of elements exactly when it
// reports that it did.
#include "monitors.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Support/raw_ostream.h"
namespace ixa {
using std::string;
using std::vector;
std::string fieldOfType(const std::string &type, E off);

struct StatMon : Monitor {
  // +1: element added, -1: element removed, 0: not an element counter
  int counter(State &s, E base, E off) {
    if (!base || !base->isSym() || !P.info(base).loadAddr)
      return 0;
    Addr o = memAddr(P.info(base).loadAddr);
    if (!o.base)
      return 0;
    auto fn = eng->fieldNames(o.base, o.off);
    if (fn.count("m_stats"))
      return fieldOfType("btree_stats_t", off) == "num_elements" ? 2 : 0;
    if (fn.count("count")) {
      string f = fieldOfType("values_count_t", off);
      return f == "num_inserts" ? 1 : f == "num_deletes" ? -1 : 0;
    }
    if (fn.count("stats")) {
      string f = fieldOfType("HashTablePerThreadStats", off);
      return f == "num_values" ? 1 : f == "num_tomb_stones" ? -1 : 0;
    }
    return 0;
  }
  E tid = nullptr; // the running thread
  static int value(State &s) {
    for (auto &m : s.mons)
      if (m.tag.rfind("CNT/", 0) == 0)
        return atoi(m.tag.c_str() + 4);
    return 0;
  }
  static void set(State &s, int v, const string &at) {
    vector<Mon> k;
    for (auto &m : s.mons)
      if (m.tag.rfind("CNT/", 0) != 0)
        k.push_back(m);
    s.mons = k;
    if (v)
      s.addMon("CNT/" + std::to_string(v), {}, at);
  }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (size != 8 || !val || !a.base || eng->privateObj(s, a.base))
      return;
    int c = counter(s, a.base, a.off);
    if (!c)
      return;
    eng->count(s, "count", I, "element counter change");
    int d = 0;
    if (val->k == K_LIN && val->terms.size() == 1 && val->terms[0].second == 1 && (val->c == 1 || val->c == -1)) {
      E l = val->terms[0].first;
      if (l->isSym() && P.info(l).loadAddr) {
        Addr x = memAddr(P.info(l).loadAddr);
        if (x.base == a.base && x.off == a.off)
          d = val->c;
      }
    }
    if (!d || (c != 2 && d != 1)) {
      eng->report(s, I, "count", "not-by-one", "an element counter is changed by something other than one step");
      return;
    }
    // a counter read and written back in two steps must be the thread's own
    if (llvm::isa<llvm::StoreInst>(I) && !(c != 2 && tid && same(s, P.addc(a.off, -fieldOffset(a.off)), P.scale(tid, stride))))
      eng->report(s, I, "count", "shared-counter", "an element counter that other threads may change is read and written back in two steps: their change is lost");
    int v = value(s) + (c == 2 ? d : c);
    if (v > 2 || v < -2) {
      eng->report(s, I, "count", "repeated", "an element counter is changed again and again by one operation");
      s.dead = true;
      return;
    }
    set(s, v, eng->whereR(s, I));
  }
  // ------------------------------------------------- what size() adds up
  // ~sum/S{S,lo+,lo-}: S = added counters below lo+ less the removed ones below lo-
  // ~sum/P{S,lo}, ~sum/N{S,lo}: the same for the added and the removed ones alone
  // ~of{T}: all of them belong to T;  ~cnt{S}: the value of a single counter
  static constexpr int64_t stride = 128, threads = 1024; // as in stubs/sync_prim/ThreadRegistry.h
  bool sizing() const { return eng->curRoot.size() > 5 && eng->curRoot.compare(eng->curRoot.size() - 5, 5, "_size") == 0; }
  bool same(State &s, E a, E b) {
    if (a == b)
      return true;
    E r = eng->simplify(s, P.eq0(P.sub(a, b)));
    return r->isConst() && r->c;
  }
  struct Sum;
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (size != 8 || !sizing() || !a.base || !val)
      return;
    int c = counter(s, a.base, a.off);
    if (!c)
      return;
    eng->count(s, "count", I, "element counter read by size()");
    if (c == 2) {
      s.addMon("~cnt", {val});
      return;
    }
    Addr o = memAddr(P.info(a.base).loadAddr);
    E T = o.base;
    E at = a.off;
    int64_t f = fieldOffset(at);
    at = P.addc(at, -f);
    if (Mon *of = s.find("~of"); of && of->args[0] != T) { // counters of two tables do not add up
      for (auto n : {"~sum/Si", "~sum/Pi", "~sum/Ni", "~sum/Sb", "~sum/Pb", "~sum/Nb"})
        for (auto d : {"", "d"})
          s.erase(string(n) + d);
      return;
    }
    if (!s.find("~of"))
      s.addMon("~of", {T});
    for (auto &m : s.mons) {
      Sum k = sum(m);
      int lo = k.kind == 'S' ? (c > 0 ? 1 : 2) : k.kind == (c > 0 ? 'P' : 'N') ? 1 : 0;
      if (!lo || !same(s, P.scale(k.down ? P.addc(m.args[lo], -k.unit) : m.args[lo], stride / k.unit), at))
        continue;
      m.args[0] = k.kind == 'S' && c < 0 ? P.sub(m.args[0], val) : P.add(m.args[0], val);
      m.args[lo] = P.addc(m.args[lo], k.down ? -k.unit : k.unit);
    }
  }
  // positions are kept both as an index and as an offset: which one a loop steps through is not known
  struct Sum {
    char kind;
    int64_t unit;
    bool down; // counted from the last one: those at and above the position
  };
  static Sum sum(const Mon &m) {
    if (m.tag.compare(0, 5, "~sum/"))
      return {0, 1, false};
    return {m.tag[5], m.tag[6] == 'i' ? 1 : stride, m.tag.size() > 7};
  }
  void onStart(State &s) override {
    if (!sizing())
      return;
    for (auto u : {"i", "b"}) {
      s.addMon(string("~sum/S") + u, {P.zero, P.zero, P.zero});
      s.addMon(string("~sum/P") + u, {P.zero, P.zero});
      s.addMon(string("~sum/N") + u, {P.zero, P.zero});
      E top = P.cst(threads * (u[0] == 'i' ? 1 : stride));
      s.addMon(string("~sum/S") + u + "d", {P.zero, top, top});
      s.addMon(string("~sum/P") + u + "d", {P.zero, top});
      s.addMon(string("~sum/N") + u + "d", {P.zero, top});
    }
  }
  // a counter sits at a multiple of the stride plus this
  static int64_t fieldOffset(E off) { return ((off->c % stride) + stride) % stride; }
  bool all(State &s, E hi, Sum k) {
    E r = eng->simplify(s, P.ge0(k.down ? P.scale(hi, -1) : P.addc(hi, -k.unit * threads)));
    return r->isConst() && r->c;
  }
  void checkSize(State &s, E ret) {
    for (auto &m : s.mons) {
      if (m.tag == "~cnt" && m.args[0] == ret)
        return;
      Sum k = sum(m);
      if (k.kind == 'S' && all(s, m.args[1], k) && all(s, m.args[2], k) && same(s, ret, m.args[0]))
        return;
      if (k.kind == 'P' && all(s, m.args[1], k))
        for (auto &n : s.mons)
          if (sum(n).kind == 'N' && all(s, n.args[1], sum(n)) && same(s, ret, P.sub(m.args[0], n.args[0])))
            return;
    }
    eng->report(s, nullptr, "count", "wrong-size", "size() returns something else than the added less the removed elements of all threads");
  }
  bool onCall(State &s, const CallBase *CB, const string &name, vector<E> &args, vector<State> &out) override {
    if (name == "sync_prim::ThreadRegistry::ThreadID") {
      if (!tid) {
        tid = P.sym(S_CALL, CB);
        P.info(tid).callee = name;
      }
      s.facts.insert(P.ge0(tid));
      eng->finish(s, CB, tid, out);
      return true;
    }
    // a new attempt on a table found again: the counters of the table that was replaced no longer count
    if (name == "indexes::utils::EpochManager::enter_epoch" && eng->curRoot.find("root_ht_") == 0)
      set(s, 0, "");
    return false;
  }
  // the operation starts over by calling itself: nothing may have been counted
  // before, and the rest is decided for the inner call
  void onRecursion(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    auto p = name.rfind("::");
    string m = p == string::npos ? name : name.substr(p + 2);
    if (eng->curRoot.size() <= m.size() || eng->curRoot.compare(eng->curRoot.size() - m.size(), string::npos, m) != 0)
      return;
    if (value(s))
      eng->report(s, CB, "count", "wrong-count", "the operation starts over although it has already changed the number of elements");
    set(s, 0, "");
    s.addMon("CNTREC", {});
  }
  void onReturn(State &s, E ret, const string &root) override {
    int want0, want1; // change when the operation returns false / true
    auto is = [&](const char *n) { return root.size() > strlen(n) && root.compare(root.size() - strlen(n), string::npos, n) == 0; };
    if (is("_Insert")) {
      want0 = 0;
      want1 = 1;
    } else if (is("_Upsert")) {
      want0 = 1;
      want1 = 0;
    } else if (is("_Delete")) {
      want0 = 0;
      want1 = -1;
    } else if (is("_dtor") || is("_ctor") || is("_move") || is("_reclaim"))
      return;
    else
      want0 = want1 = 0;
    eng->count("count", nullptr, "return of " + root);
    if (sizing() && ret) {
      if (getenv("IXA_SIZE")) {
        llvm::errs() << "ret " << P.str(ret) << "\n";
        for (auto &m : s.mons) {
          llvm::errs() << "  " << m.tag;
          for (auto a : m.args)
            llvm::errs() << " " << P.str(a);
          llvm::errs() << "\n";
        }
      }
      checkSize(s, ret);
    }
    int v = value(s);
    string got = v == 0 ? "does not change" : v > 0 ? "raises" : "lowers";
    auto say = [&](bool r, int w) {
      if (v == w)
        return;
      string at;
      for (auto &m : s.mons)
        if (m.tag.rfind("CNT/", 0) == 0)
          at = " (at " + m.note + ")";
      if (want0 == want1)
        eng->report(s, nullptr, "count", "wrong-count", "the operation " + got + " the number of elements" + at + ", which it must not");
      else
        eng->report(s, nullptr, "count", "wrong-count", "the operation " + got + " the number of elements" + at + " on a path on which it reports that " +
                                               (w == 0 ? "no element was added or removed" : w > 0 ? "an element was added" : "an element was removed"));
    };
    if (s.find("CNTREC")) {
      if (v)
        eng->report(s, nullptr, "count", "wrong-count", "the operation changes the number of elements after starting over");
      return;
    }
    if (want0 == want1) {
      say(false, want0);
      return;
    }
    E p = eng->simplify(s, P.eq0(ret));
    if (!(p->isConst() && p->c)) {
      State t = s;
      if (p->isConst() || eng->assume(t, nullptr, P.notE(p)))
        say(true, want1);
    }
    if (!(p->isConst() && !p->c)) {
      State t = s;
      if (p->isConst() || eng->assume(t, nullptr, p))
        say(false, want0);
    }
  }
};
Monitor *makeStatMon(Engine *e) { return new StatMon(); }
} // namespace ixa
