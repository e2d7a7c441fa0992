// Table migration protocol of the hash map: a bucket of the table changes only
// while it is known that its entries have not been copied to a successor, and
// the migrator copies each bucket under its latch, behind its raised flag.
#include "monitors.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Support/raw_ostream.h"
namespace ixa {
using std::string;
using std::vector;

// element of the array that member `field` of a table points to
bool tableElem(Engine *eng, E base, E off, const char *field, E &H, E &idx) {
  if (!base || !base->isSym() || !P.info(base).loadAddr)
    return false;
  Addr o = memAddr(P.info(base).loadAddr);
  if (!o.base || !eng->fieldNames(o.base, o.off).count(field))
    return false;
  H = o.base;
  idx = off;
  return true;
}
// the latch this operation holds for that bucket
E bucketLatch(Engine *eng, State &s, E H, E off) {
  E i = indexOf(off);
  for (auto &m : s.mons)
    if (m.tag.compare(0, 5, "LOCK/") == 0) {
      Addr l = splitAddr(m.args[0]);
      E H2, o2;
      if (l.base && tableElem(eng, l.base, l.off, "link", H2, o2) && H2 == H && indexOf(o2) == i)
        return m.args[0];
    }
  return nullptr;
}
struct MigMon : Monitor {
  bool exempt = false;
  void onStart(State &s) override {
    const string &r = eng->curRoot;
    exempt = r.find("_dtor") != string::npos || r.find("_ctor") != string::npos || r.find("_move") != string::npos || r.find("_reclaim") != string::npos;
  }
  bool isZero(State &s, E v) {
    if (v->isConst())
      return v->isConst(0);
    E p = eng->simplify(s, P.eq0(v));
    if (p->isConst() && p->c)
      return true;
    p = eng->simplify(s, P.eq0(eng->bit(v, 0)));
    return p->isConst() && p->c;
  }
  bool mapField(E base, E off, const char *f) {
    return base && base->isSym() && P.info(base).kind == S_ARG && eng->fieldNames(base, off).count(f);
  }
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (!a.base || exempt || !val)
      return;
    bool flag = mapField(a.base, a.off, "is_migration_in_progress"), tab = mapField(a.base, a.off, "ht");
    if (tab && I && llvm::isa<llvm::LoadInst>(I) && val->isSym() && !s.find("~seen", val)) {
      s.erase("~seen");
      s.erase("~seenlo");
      s.erase("~allseen");
      s.erase("~nb");
      s.addMon("~seen", {val, P.zero});
    }
    // the slots from lo on are none at first
    if (s.find("~seen", a.base) && eng->fieldNames(a.base, a.off).count("num_buckets")) {
      if (!s.find("~nb", a.base) || (s.find("MIG/on") && !s.find2("~nb", a.base, val)))
        s.addMon("~nb", {a.base, val});
      if (!s.find("~seenlo", a.base))
        s.addMon("~seenlo", {a.base, val});
    }
    if (flag || tab) {
      for (auto &m : s.all("LOCK/n"))
        s.addMon(flag ? "~mflag" : "~mtab", {m.args[0], val});
      for (auto &m : s.all("LOCK/p"))
        s.addMon(flag ? "~mflag" : "~mtab", {m.args[0], val});
      return;
    }
    // what the migrator copies, or leaves out, is decided under the latch
    E H, o;
    if (s.find("MIG/on") && tableElem(eng, a.base, a.off, "buckets", H, o) && H->isSym() && P.info(H).shared && !eng->privateObj(s, H)) {
      eng->count(s, "migrate", I, "bucket read by the migration");
      if (!bucketLatch(eng, s, H, o))
        eng->report(s, I, "migrate", "read-unlatched", "a bucket of the table being migrated is read without holding its latch: a change being made to it is lost");
    }
  }
  void onEnter(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    if (name == "after-lock" || name == "after-unlock") {
      E L = name == "after-lock" && args.size() == 2 ? args[1] : args[0];
      s.erase("~mflag", L);
      s.erase("~mtab", L);
      if (name == "after-unlock" && s.find("MIG/on"))
        handled(s, L);
      s.erase("~mcopied", L);
    }
  }
  bool yes(State &s, E p) {
    E r = eng->simplify(s, p);
    return r->isConst() && r->c;
  }
  // which element of the array a latch at that offset belongs to
  static E position(E o) {
    if (o->isConst())
      return o->c >= 0 && o->c < 24 ? P.zero : nullptr; // the first element; its size is not less
    int64_t g = 0;
    vector<std::pair<E, int64_t>> q;
    if (o->k == K_LIN) {
      for (auto &t : o->terms)
        if (!(t.first->isSym() && P.info(t.first).name == "fld"))
          q.push_back(t);
    } else
      q.push_back({o, 1});
    for (auto &t : q)
      g = std::__gcd(g, std::abs(t.second));
    if (!g)
      return nullptr;
    int64_t c = o->k == K_LIN ? o->c : 0;
    for (auto &t : q)
      t.second /= g;
    return P.lin(c >= 0 ? c / g : -((-c + g - 1) / g), q);
  }
  // the latch L is given back: its slot was left out as empty, or copied
  void handled(State &s, E L) {
    Addr l = splitAddr(L);
    E H, o;
    if (!l.base || !tableElem(eng, l.base, l.off, "link", H, o) || !(s.find("~bgone", L) || s.find("~mcopied", L)))
      return;
    E i = position(o);
    if (!i)
      return;
    for (auto &m : s.mons)
      if (m.tag == "~seen" && m.args[0] == H && yes(s, P.eq0(P.sub(m.args[1], i))))
        m.args[1] = P.addc(m.args[1], 1);
      else if (m.tag == "~seenlo" && m.args[0] == H && yes(s, P.eq0(P.addc(P.sub(m.args[1], i), -1))))
        m.args[1] = P.addc(m.args[1], -1);
  }
  // known as soon as a scan ends, however many slots there are
  void onAssume(State &s, const llvm::Instruction *I, E p) override {
    if (exempt)
      return;
    for (auto &m : s.all("~nb")) {
      E n = m.args[1];
      bool done = p == P.eq0(n);
      for (auto &k : s.all("~seen"))
        if (k.args[0] == m.args[0]) {
          E hi = k.args[1], d = P.sub(hi, n);
          done |= p == P.notE(P.op("ult", {hi, n})) || p == P.ge0(d) || p == P.eq0(d) || p == P.eq0(P.scale(d, -1));
        }
      for (auto &k : s.all("~seenlo"))
        if (k.args[0] == m.args[0]) {
          E lo = k.args[1];
          done |= p == P.eq0(lo) || p == P.ge0(P.scale(lo, -1)) || p == P.notE(P.op("ult", {P.zero, lo}));
        }
      if (done && !s.find("~allseen", m.args[0]))
        s.addMon("~allseen", {m.args[0]});
    }
  }
  bool allSeen(State &s) {
    if (s.find("~allseen"))
      return true;
    for (auto &m : s.all("~nb")) {
      for (auto &k : s.all("~seen"))
        if (k.args[0] == m.args[0] && (yes(s, P.eq0(P.sub(k.args[1], m.args[1]))) || yes(s, P.ge0(P.sub(k.args[1], m.args[1]))) || yes(s, P.notE(P.op("ult", {k.args[1], m.args[1]})))))
          return true;
      for (auto &k : s.all("~seenlo"))
        if (k.args[0] == m.args[0] && (yes(s, P.eq0(k.args[1])) || yes(s, P.ge0(P.scale(k.args[1], -1)))))
          return true;
    }
    return false;
  }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (!a.base || exempt)
      return;
    if (mapField(a.base, a.off, "is_migration_in_progress")) {
      eng->count(s, "migrate", I, "migration flag");
      if (val && val->isConst(0)) {
        if (!s.find("MIG/on") && !s.find("MIG/done"))
          eng->report(s, I, "migrate", "flag", "the migration flag is cleared by an operation that did not raise it");
        else if (!s.find("MIG/done"))
          eng->report(s, I, "migrate", "early-clear", "the migration flag is cleared before the new table has replaced the old one: changes made to the old table until then are lost");
        s.erase("MIG/on");
        s.erase("MIG/done");
      } else {
        s.erase("MIG/done");
        s.addMon("MIG/on", {}, eng->whereR(s, I));
      }
      return;
    }
    if (mapField(a.base, a.off, "ht")) {
      eng->count(s, "migrate", I, "table replaced");
      if (!s.find("MIG/on") && !s.find("MIG/done"))
        eng->report(s, I, "migrate", "replaced-unflagged", "the table is replaced while the migration flag is not raised: other operations keep changing the old table");
      else {
        if (!allSeen(s))
          eng->report(s, I, "migrate", "left-behind", "the table is replaced on a path on which not every slot of the old one was either found empty or copied, under its latch: its entry is lost");
        s.erase("~seen");
        s.erase("~seenlo");
        s.erase("~nb");
        s.erase("~allseen");
        string n = s.find("MIG/on") ? s.find("MIG/on")->note : "";
        s.erase("MIG/on");
        s.addMon("MIG/done", {}, n);
      }
      return;
    }
    E H, o;
    if (val && val->isSym() && P.info(val).loadAddr)
      copied(s, I, a, memAddr(P.info(val).loadAddr));
    if (eng->privateObj(s, a.base))
      return;
    bool bucket = tableElem(eng, a.base, a.off, "buckets", H, o), lnk = !bucket && tableElem(eng, a.base, a.off, "link", H, o);
    if (!bucket && !lnk)
      return;
    eng->count(s, "migrate", I, bucket ? "bucket changed" : "chain changed");
    if (s.find("MIG/on")) {
      eng->report(s, I, "migrate", "own-migration", "the table being migrated is changed by the migrating operation");
      return;
    }
    E L = bucketLatch(eng, s, H, o);
    if (!L)
      return; // C03
    bool f = false, t = false;
    for (auto &m : s.mons) {
      if (m.tag == "~mflag" && m.args[0] == L)
        f |= isZero(s, m.args[1]);
      if (m.tag == "~mtab" && m.args[0] == L) {
        E p = eng->simplify(s, P.eq0(P.sub(m.args[1], H)));
        t |= p->isConst() && p->c;
      }
    }
    if (!f || !t)
      eng->report(s, I, "migrate", "unchecked", string("a bucket of the table is changed without checking, under its latch, that ") +
                                                    (!f ? "no migration is in progress" : "the table has not been replaced") + ": the change may be lost");
  }
  void onCopy(State &s, const llvm::Instruction *I, Addr dst, Addr src, int64_t len) override { copied(s, I, dst, src); }
  // entries copied out of the shared table
  void copied(State &s, const llvm::Instruction *I, Addr dst, Addr src) {
    E H, o;
    if (exempt || !dst.base || !src.base || !dst.base->isSym() || P.info(dst.base).kind == S_ALLOCA || !eng->privateObj(s, dst.base))
      return;
    if (!tableElem(eng, src.base, src.off, "buckets", H, o) || !H->isSym() || !P.info(H).shared || eng->privateObj(s, H))
      return;
    eng->count(s, "migrate", I, "entry copied");
    if (!s.find("MIG/on"))
      eng->report(s, I, "migrate", "copy-unflagged", "an entry is copied out of the shared table while the migration flag is not raised: a change made to it afterwards is lost");
    else if (!bucketLatch(eng, s, H, o))
      eng->report(s, I, "migrate", "copy-unlatched", "an entry is copied out of the shared table without holding the latch of its bucket: a change being made to it is lost");
    else {
      E L = bucketLatch(eng, s, H, o);
      if (!s.find("~bthere", L))
        eng->report(s, I, "migrate", "copy-removed", "an entry is copied to the new table without finding, under its latch, that it is still there: a removed entry comes back");
      if (!s.find("~mcopied", L))
        s.addMon("~mcopied", {L});
    }
  }
  void onReturn(State &s, E ret, const string &root) override {
    eng->count("migrate", nullptr, "return of " + root);
    for (auto &m : s.mons)
      if (m.tag.rfind("MIG/", 0) == 0)
        eng->report(s, nullptr, "migrate", "flag-left", "the migration flag raised at " + m.note + " is still raised when the operation returns: every later change waits for ever");
  }
};
// What a slot of the hash table holds is decided under its latch: a slot is
// filled only when it is free there, its entry changed or removed only when it
// is still there, and a chain extended only at its end by an operation that has
// looked at the entry there.
//  ~bh{L,v}: hash word of the slot guarded by the held latch L
//  ~bl{L,addr,v}: link word guarded by it;  ~bcmp{L}: the entry there was compared
struct SlotMon : Monitor {
  bool exempt = false;
  void onStart(State &s) override {
    const string &r = eng->curRoot;
    exempt = r.find("_dtor") != string::npos || r.find("_ctor") != string::npos || r.find("_move") != string::npos || r.find("_reclaim") != string::npos;
  }
  bool yes(State &s, E p) {
    E r = eng->simplify(s, p);
    return r->isConst() && r->c;
  }
  bool free(State &s, E v) { return yes(s, P.eq0(P.addc(v, 1))); }
  bool there(State &s, E v) {
    return yes(s, P.op("ult", {v, P.cst(-2)})) || (yes(s, P.notE(P.eq0(P.addc(v, 1)))) && yes(s, P.notE(P.eq0(P.addc(v, 2)))));
  }
  void onLoad(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val) override {
    if (!a.base || exempt || !val || !atomic || eng->privateObj(s, a.base))
      return;
    E H, o;
    bool b = tableElem(eng, a.base, a.off, "buckets", H, o);
    if (!b && !tableElem(eng, a.base, a.off, "link", H, o))
      return;
    E L = bucketLatch(eng, s, H, o);
    if (!L)
      return;
    if (b)
      s.addMon("~bh", {L, val});
    else
      s.addMon("~bl", {L, P.add(a.base, a.off), val});
  }
  void onEnter(State &s, const CallBase *CB, const string &name, vector<E> &args) override {
    if (name == "after-lock" || name == "after-unlock") {
      E L = name == "after-lock" && args.size() == 2 ? args[1] : args[0];
      for (auto t : {"~bh", "~bl", "~bcmp", "~bthere", "~bgone"})
        s.erase(t, L);
    }
  }
  void onAssume(State &s, const llvm::Instruction *I, E p) override {
    bool neg = p->isOp("not");
    if (neg)
      p = p->args[0];
    for (auto &m : s.all("~bh")) {
      E v = m.args[1];
      bool in = false;
      if (p->isOp("ult") && !neg)
        in = p->args[0] == v && p->args[1]->isConst() && (uint64_t)p->args[1]->c <= (uint64_t)-2;
      else if (p->isOp("ult"))
        in = p->args[1] == v && p->args[0]->isConst() && (uint64_t)p->args[0]->c < (uint64_t)-2;
      else if (p->isOp("eq0") && !neg && v->isSym() && usesSym(p, v->c)) {
        E d = P.add(p->args[0], v), e = P.sub(v, p->args[0]); // v = other
        for (E x : {d, e})
          in |= !usesSym(x, v->c) && there(s, x);
      }
      bool out = false;
      if (p->isOp("ult") && neg)
        out = p->args[0] == v && p->args[1]->isConst(-2);
      else if (p->isOp("ult"))
        out = p->args[1] == v && p->args[0]->isConst(-3);
      else if (p->isOp("eq0") && !neg)
        for (int k : {1, 2})
          out |= p == P.eq0(P.addc(v, k));
      if (out && !s.find("~bgone", m.args[0]))
        s.addMon("~bgone", {m.args[0]});
      if (in && !s.find("~bthere", m.args[0]))
        s.addMon("~bthere", {m.args[0]});
    }
    if (!p->isOp("eq0") || p->syms.size() < 2)
      return;
    for (auto &m : s.all("~bh"))
      if (m.args[1]->isSym() && usesSym(p, m.args[1]->c) && !s.find("~bcmp", m.args[0]))
        s.addMon("~bcmp", {m.args[0]});
  }
  void say(State &s, const llvm::Instruction *I, const char *rule, const string &msg) {
    eng->report(s, I, "slot", rule, msg);
  }
  void content(State &s, const llvm::Instruction *I, Addr a) {
    E H, o;
    if (exempt || !a.base || eng->privateObj(s, a.base) || !tableElem(eng, a.base, a.off, "buckets", H, o))
      return;
    E L = bucketLatch(eng, s, H, o);
    if (!L)
      return; // C03
    eng->count(s, "slot", I, "entry written");
    if (s.find("~bthere", L))
      return;
    for (auto &m : s.all("~bh"))
      if (m.args[0] == L && (free(s, m.args[1]) || there(s, m.args[1])))
        return;
    say(s, I, "entry", "the entry in a slot is written without finding, under the latch of the slot, that the slot is free or that its entry is still there");
  }
  void onCopy(State &s, const llvm::Instruction *I, Addr dst, Addr src, int64_t len) override { content(s, I, dst); }
  void onStore(State &s, const llvm::Instruction *I, Addr a, uint32_t size, bool atomic, E val, E old) override {
    if (!atomic)
      return content(s, I, a);
    if (!a.base || exempt || !val || eng->privateObj(s, a.base))
      return;
    E H, o;
    bool b = tableElem(eng, a.base, a.off, "buckets", H, o);
    if (!b && !tableElem(eng, a.base, a.off, "link", H, o))
      return;
    E L = bucketLatch(eng, s, H, o);
    if (!L)
      return; // C03
    eng->count(s, "slot", I, b ? "slot filled or emptied" : "chain extended");
    bool ok = false;
    if (b) {
      bool gone = val->isConst(-2);
      ok = gone && s.find("~bthere", L);
      for (auto &m : s.all("~bh"))
        if (m.args[0] == L)
          ok |= gone ? there(s, m.args[1]) : free(s, m.args[1]);
      if (!ok)
        say(s, I, gone ? "removed" : "filled", gone ? "an entry is removed without finding, under the latch of its slot, that it is still there: an entry removed by another operation is removed again" : "a slot is filled without finding, under its latch, that it is free: the entry in it is lost");
      // what is there from now on
      for (auto &m : s.all("~bh"))
        if (m.args[0] == L)
          s.erase("~bh", L);
      s.erase("~bthere", L);
      if (gone)
        return;
      s.addMon("~bcmp", {L}); // an own entry is at its end of the chain
      return;
    }
    bool end = false, seen = s.find("~bcmp", L) != nullptr;
    E addr = P.add(a.base, a.off);
    for (auto &m : s.all("~bl"))
      if (m.args[0] == L && (m.args[1] == addr || yes(s, P.eq0(P.sub(m.args[1], addr)))))
        end |= yes(s, P.eq0(m.args[2]));
    for (auto &m : s.all("~bh"))
      if (m.args[0] == L)
        seen |= free(s, m.args[1]);
    if (!end)
      say(s, I, "chain", "the link of a slot is overwritten without finding, under its latch, that it is the end of the chain: the entries behind it are lost");
    if (!seen)
      say(s, I, "chain-end", "a chain is extended without comparing, under the latch of its last slot, the entry there: it may hold the same key");
    s.erase("~bl", L);
  }
  void onReturn(State &s, E ret, const string &root) override { eng->count("slot", nullptr, "return of " + root); }
};
Monitor *makeSlotMon(Engine *e) { return new SlotMon(); }
Monitor *makeMigMon(Engine *e) { return new MigMon(); }
} // namespace ixa
