// Abstract models of the library entities the indexes use.
#include "state.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DerivedTypes.h"
#include <algorithm>
namespace ixa {
using namespace llvm;
using std::string;
using std::vector;

static const DIType *under(const DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    auto tag = d->getTag();
    if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type)
      t = d->getBaseType();
    else
      break;
  }
  return t;
}
static int64_t diSize(const DIType *t) {
  t = under(t);
  return t ? t->getSizeInBits() / 8 : 0;
}
// size of T for a method of Container<T, ...>
static int64_t elemSizeOf(const Function *F) {
  auto *sp = F->getSubprogram();
  if (!sp)
    return 0;
  const DIScope *sc = sp->getScope();
  if (sp->getDeclaration())
    sc = sp->getDeclaration()->getScope();
  auto *c = dyn_cast_or_null<DICompositeType>(sc);
  if (!c)
    return 0;
  for (auto *t : c->getTemplateParams())
    if (auto *tt = dyn_cast<DITemplateTypeParameter>(t))
      return diSize(tt->getType());
  return 0;
}
// element size of an iterator type given as function template parameter
static int64_t iterElem(const Function *F) {
  auto *sp = F->getSubprogram();
  if (!sp)
    return 0;
  for (auto *t : sp->getTemplateParams()) {
    auto *tt = dyn_cast<DITemplateTypeParameter>(t);
    if (!tt)
      continue;
    auto *ty = under(tt->getType());
    if (auto *p = dyn_cast_or_null<DIDerivedType>(ty))
      if (p->getTag() == dwarf::DW_TAG_pointer_type)
        return diSize(p->getBaseType());
    if (auto *c = dyn_cast_or_null<DICompositeType>(ty))
      for (auto *q : c->getTemplateParams())
        if (auto *qt = dyn_cast<DITemplateTypeParameter>(q))
          if (auto *p = dyn_cast_or_null<DIDerivedType>(under(qt->getType())))
            if (p->getTag() == dwarf::DW_TAG_pointer_type)
              return diSize(p->getBaseType());
    return 0;
  }
  return 0;
}

static E vsize(Engine &e, State &s, E V) {
  if (auto *m = s.find("~vsize", V))
    return m->args[1];
  E n = P.sym(S_WIDEN);
  P.info(n).name = "size";
  s.facts.insert(P.ge0(n));
  s.addMon("~vsize", {V, n});
  return n;
}
static void setSize(State &s, E V, E n) {
  s.erase("~vsize", V);
  s.addMon("~vsize", {V, n});
}
static void killElems(State &s, E V) {
  for (auto it = s.mem.begin(); it != s.mem.end();)
    if (it->first.base->isOp("elem") && it->first.base->args[0] == V)
      it = s.mem.erase(it);
    else
      ++it;
}
static void moveElems(State &s, E from, E to) {
  std::map<MemKey, Cell> add;
  for (auto it = s.mem.begin(); it != s.mem.end();)
    if (it->first.base->isOp("elem") && it->first.base->args[0] == from) {
      auto a = it->first.base->args;
      a[0] = to;
      add[{P.op("elem", a), it->first.off}] = it->second;
      it = s.mem.erase(it);
    } else
      ++it;
  for (auto &x : add)
    s.mem[x.first] = x.second;
}

// iterators of a deque: plain pointers into the modelled array
static bool dequeIterator(Engine &e, State &s, const CallBase *CB, const Function *F, const string &n, const string &dem, vector<E> &args, vector<State> &outs) {
  static const string pre = "std::_Deque_iterator::";
  bool mem = n.compare(0, pre.size(), pre) == 0;
  if (!mem && !(n.compare(0, 13, "std::operator") == 0 && dem.find("_Deque_iterator<") != string::npos && dem.find("_Deque_iterator<") < dem.find(',')))
    return false;
  string m = mem ? n.substr(pre.size()) : n.substr(5);
  int64_t es = 0;
  if (mem)
    es = elemSizeOf(F);
  else if (auto *sp = F->getSubprogram()) {
    auto ta = sp->getType()->getTypeArray();
    if (ta.size() > 1)
      if (auto *d = dyn_cast_or_null<DIDerivedType>(ta[1]))
        if (auto *c = dyn_cast_or_null<DICompositeType>(under(d->getBaseType())))
          for (auto *t : c->getTemplateParams())
            if (auto *tt = dyn_cast<DITemplateTypeParameter>(t)) {
              es = diSize(tt->getType());
              break;
            }
  }
  if (es <= 0)
    return false;
  bool sr = CB->hasStructRetAttr();
  auto cur = [&](E p) { return e.load(s, CB, p, 8, false, true); };
  auto put = [&](E p, E v) { e.store(s, CB, p, v, 8, false, true); };
  auto done = [&](E r) {
    e.finish(s, CB, r, outs);
    return true;
  };
  if (m == "operator++" || m == "operator--") {
    int64_t d = m == "operator++" ? es : -es;
    E p = args[sr ? 1 : 0], c = cur(p);
    if (sr)
      put(args[0], c);
    put(p, P.addc(c, d));
    return done(sr ? P.zero : p);
  }
  if (mem && (m == "operator+=" || m == "operator-=")) {
    put(args[0], P.add(cur(args[0]), args[1], m == "operator+=" ? es : -es));
    return done(args[0]);
  }
  if (!mem && !sr && m == "operator-" && args.size() == 2) {
    E q = P.divExact(P.sub(cur(args[0]), cur(args[1])), es);
    return done(q ? q : P.sym(S_CALL, CB));
  }
  if (sr && (m == "operator+" || m == "operator-") && args.size() == 3) {
    put(args[0], P.add(cur(args[1]), args[2], m == "operator+" ? es : -es));
    return done(P.zero);
  }
  if (m == "operator[]")
    return done(P.add(cur(args[0]), args[1], es));
  return false;
}

static bool containerMethod(const string &n, string &cls, string &meth) {
  static const vector<string> cl = {"std::vector", "std::deque", "boost::container::vector", "boost::container::small_vector",
                                    "boost::container::small_vector_base"};
  for (auto &c : cl)
    if (n.size() > c.size() + 2 && n.compare(0, c.size(), c) == 0 && n.compare(c.size(), 2, "::") == 0) {
      meth = n.substr(c.size() + 2);
      if (meth.find("::") != string::npos)
        return false;
      cls = c;
      return true;
    }
  return false;
}

static bool sameClassRef(const Function *F, unsigned i, bool &rv) {
  auto *sp = F->getSubprogram();
  if (!sp)
    return false;
  auto ta = sp->getType()->getTypeArray();
  if (ta.size() <= i + 1)
    return false;
  auto *d = dyn_cast_or_null<DIDerivedType>(ta[i + 1]);
  if (!d)
    return false;
  rv = d->getTag() == dwarf::DW_TAG_rvalue_reference_type;
  if (!rv && d->getTag() != dwarf::DW_TAG_reference_type)
    return false;
  auto *t = under(d->getBaseType());
  const DIScope *sc = sp->getDeclaration() ? sp->getDeclaration()->getScope() : sp->getScope();
  auto *c = dyn_cast_or_null<DICompositeType>(t);
  if (!c)
    return false;
  return c == sc || c->getName().starts_with(dyn_cast<DIType>(sc) ? dyn_cast<DIType>(sc)->getName().split('<').first : StringRef("?"));
}

static bool isInitList(const Function *F) {
  auto *sp = F->getSubprogram();
  if (!sp)
    return false;
  auto ta = sp->getType()->getTypeArray();
  if (ta.size() <= 2)
    return false;
  auto *c = dyn_cast_or_null<DICompositeType>(under(ta[2]));
  return c && c->getName().starts_with("initializer_list");
}

static bool container(Engine &e, State &s, const CallBase *CB, const Function *F, const string &cls, const string &m, vector<E> &args,
                      vector<State> &outs) {
  unsigned sr = CB->hasStructRetAttr() ? 1 : 0;
  if (args.size() <= sr)
    return false;
  E V = args[sr];
  vector<E> a(args.begin() + sr + 1, args.end());
  int64_t es = elemSizeOf(F);
  string last = cls.substr(cls.rfind("::") + 2);
  auto data = [&]() { return P.op("data", {V, P.cst(es)}); };
  auto at = [&](E i) { return P.add(data(), i, es); };
  auto done = [&](E r) {
    e.finish(s, CB, r, outs);
    return true;
  };
  bool sv = s.find("~sub", V) != nullptr;
  (void)sv;
  if (m == last) { // constructor
    bool rv = false;
    if (a.size() >= 1 && sameClassRef(F, 1, rv)) {
      E o = a[0];
      E n = vsize(e, s, o);
      killElems(s, V);
      if (rv) {
        moveElems(s, o, V);
        setSize(s, o, P.zero);
      }
      setSize(s, V, n);
      return done(P.zero);
    }
    killElems(s, V);
    if (a.size() >= 2 && a[1]->isConst() && a[1]->c >= 0 && a[1]->c <= 8 && es > 0 && isInitList(F)) {
      setSize(s, V, P.zero);
      for (int64_t i = 0; i < a[1]->c; i++) {
        E src = P.addc(a[0], i * es), p = at(P.cst(i));
        e.copyMem(s, CB, p, src, P.cst(es), false);
        vector<E> ev{V, p, P.cst(es), src};
        for (auto *mo : e.mons)
          mo->onEnter(s, CB, "container-push", ev);
        setSize(s, V, P.cst(i + 1));
      }
      return done(P.zero);
    }
    bool integral = false;
    if (a.size() >= 1)
      if (auto *it = dyn_cast<IntegerType>(CB->getArgOperand(sr + 1)->getType()))
        integral = it->getBitWidth() >= 32;
    if (integral)
      setSize(s, V, a[0]);
    else if (a.empty() || F->getSubprogram() == nullptr || true)
      setSize(s, V, P.zero);
    return done(P.zero);
  }
  if (m == "~" + last) {
    for (auto *mo : e.mons)
      mo->onEnter(s, CB, "container-destroy", args);
    killElems(s, V);
    s.erase("~vsize", V);
    return done(P.zero);
  }
  if (m == "size" || m == "length")
    return done(vsize(e, s, V));
  if (m == "empty")
    return done(P.eq0(vsize(e, s, V)));
  if (m == "capacity" || m == "max_size")
    return done(P.sym(S_CALL, CB));
  if (m == "reserve" || m == "shrink_to_fit")
    return done(P.zero);
  if (m == "clear") {
    killElems(s, V);
    setSize(s, V, P.zero);
    return done(P.zero);
  }
  if (es <= 0)
    return false;
  if (m == "push_back" || m == "emplace_back") {
    E n = vsize(e, s, V);
    E p = at(n);
    if (a.size() == 1)
      e.copyMem(s, CB, p, a[0], P.cst(es), false);
    else {
      // one cell per argument is not modelled: unknown contents
      Addr ad = memAddr(p);
      e.killObj(s, ad.base);
    }
    {
      vector<E> ev{V, p, P.cst(es)};
      ev.insert(ev.end(), a.begin(), a.end());
      for (auto *mo : e.mons)
        mo->onEnter(s, CB, "container-push", ev);
    }
    setSize(s, V, P.addc(n, 1));
    return done(p);
  }
  if (m == "pop_back") {
    E n = vsize(e, s, V);
    Addr ad = memAddr(at(P.addc(n, -1)));
    e.killObj(s, ad.base);
    setSize(s, V, P.addc(n, -1));
    return done(P.zero);
  }
  if (m == "pop_front") {
    for (auto *mo : e.mons) {
      vector<E> ev{V, data()};
      mo->onEnter(s, CB, "container-pop-front", ev);
    }
    killElems(s, V);
    E n = vsize(e, s, V);
    setSize(s, V, P.addc(n, -1));
    return done(P.zero);
  }
  if (m == "back")
    return done(at(P.addc(vsize(e, s, V), -1)));
  if (m == "front" || m == "data")
    return done(at(P.zero));
  if ((m == "operator[]" || m == "at") && a.size() == 1)
    return done(at(a[0]));
  if (sr && cls.rfind("boost::", 0) == 0 && (m == "begin" || m == "cbegin" || m == "end" || m == "cend")) { // an iterator class holding one pointer
    e.store(s, CB, args[0], m == "begin" || m == "cbegin" ? at(P.zero) : at(vsize(e, s, V)), 8, false, true);
    return done(P.zero);
  }
  if (cls != "std::deque") {
    if (m == "begin" || m == "cbegin")
      return done(at(P.zero));
    if (m == "end" || m == "cend")
      return done(at(vsize(e, s, V)));
  }
  else if (sr && (m == "begin" || m == "cbegin" || m == "end" || m == "cend")) { // segmented storage is seen as one array
    E p = m == "begin" || m == "cbegin" ? at(P.zero) : at(vsize(e, s, V));
    for (int i = 0; i < 4; i++)
      e.store(s, CB, P.addc(args[0], 8 * i), i ? P.zero : p, 8, false, true);
    if (m == "begin" || m == "cbegin")
      for (auto *mo : e.mons) {
        vector<E> ev{V, data()};
        mo->onEnter(s, CB, "container-begin", ev);
      }
    return done(P.zero);
  }
  if (m == "resize") {
    setSize(s, V, a[0]);
    killElems(s, V);
    return done(P.zero);
  }
  if (m == "erase" && a.size() == 2) {
    if (cls == "std::deque") {
      a[0] = e.load(s, CB, a[0], 8, false, true);
      a[1] = e.load(s, CB, a[1], 8, false, true);
    }
    for (auto *mo : e.mons) {
      vector<E> ev{V, a[0], a[1], data()};
      mo->onEnter(s, CB, "container-erase", ev);
    }
    E n = vsize(e, s, V);
    E q = P.divExact(P.sub(a[1], a[0]), es);
    killElems(s, V);
    if (q)
      setSize(s, V, P.sub(n, q));
    else
      s.erase("~vsize", V);
    return done(a[0]);
  }
  if (m == "operator=" && a.size() == 1) {
    E n = vsize(e, s, a[0]);
    killElems(s, V);
    setSize(s, V, n);
    return done(V);
  }
  // any other member: unknown effect on the container
  killElems(s, V);
  s.erase("~vsize", V);
  E r = CB->getType()->isVoidTy() ? P.zero : P.sym(S_CALL, CB);
  return done(r);
}

void installModels(Engine &e) {
  e.opaquePrefixes = {"std::function", "std::__cxx11::", "std::basic_", "std::operator<<", "std::chrono::", "std::this_thread::",
                      "std::ostream", "std::istream", "__gnu_cxx::__", "std::__throw", "std::_Function", "std::random", "std::uniform",
                      "std::mersenne", "std::thread", "std::async", "std::future", "std::_Rb_tree", "std::map", "std::set",
                      "std::unordered_map", "std::_Hashtable", "std::__detail::_"};
  e.opaquePrefixes.erase(std::remove(e.opaquePrefixes.begin(), e.opaquePrefixes.end(), "__gnu_cxx::__"), e.opaquePrefixes.end());
  e.libModel = [&e](State &s, const CallBase *CB, const string &n, const string &dem, vector<E> &args, vector<State> &outs) -> bool {
    const Function *F = CB->getCalledFunction();
    if (!F)
      return false;
    string cls, m;
    if (dequeIterator(e, s, CB, F, n, dem, args, outs))
      return true;
    if (containerMethod(n, cls, m))
      return container(e, s, CB, F, cls, m, args, outs);
    if ((n == "operator_new" || n == "operator_new[]") && F->isDeclaration()) {
      E o = P.sym(S_MALLOC, CB);
      if (args[0]->isConst())
        P.info(o).allocSize = args[0]->c;
      P.info(o).aux2 = args[0];
      for (auto *mo : e.mons)
        mo->onAlloc(s, CB, o);
      e.finish(s, CB, o, outs);
      return true;
    }
    if ((n == "operator_delete" || n == "operator_delete[]") && F->isDeclaration()) {
      for (auto *mo : e.mons)
        mo->onFree(s, CB, args[0]);
      Addr a = splitAddr(args[0]);
      if (a.base)
        e.killObj(s, a.base);
      e.finish(s, CB, P.zero, outs);
      return true;
    }
    if (n == "std::lower_bound" || n == "std::upper_bound" || n == "std::find" || n == "std::find_if" || n == "std::min_element") {
      int64_t es = iterElem(F);
      if (es > 0 && args.size() >= 2) {
        E i = P.sym(S_CALL, CB);
        P.info(i).callee = n;
        P.info(i).args = args;
        s.facts.insert(P.ge0(i));
        E len = P.divExact(P.sub(args[1], args[0]), es);
        if (len)
          e.assume(s, CB, P.ge0(P.sub(len, i)));
        e.finish(s, CB, P.add(args[0], i, es), outs);
        return true;
      }
      return false;
    }
    return false;
  };
}
} // namespace ixa
