// Abstract interpreter over LLVM IR: transfer functions, branch refinement,
// inlining, and fixpoint iteration over loops.
#include "state.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include <algorithm>
#include <deque>
namespace ixa {
using namespace llvm;
using std::string;
using std::vector;

std::map<string, const DICompositeType *> diTypes;

// ------------------------------------------------------------------- naming
string stripTemplates(const string &d) {
  string o;
  size_t i = 0, n = d.size();
  auto skipBal = [&](char a, char b) {
    int depth = 0;
    while (i < n) {
      if (d[i] == '-' && i + 1 < n && d[i + 1] == '>') {
        i += 2;
        continue;
      }
      if (d.compare(i, 10, "operator<<") == 0) { i += 10; continue; }
      if (d.compare(i, 9, "operator<") == 0 || d.compare(i, 9, "operator>") == 0) { i += 9; continue; }
      if (d[i] == a)
        depth++;
      else if (d[i] == b) {
        if (--depth == 0) {
          i++;
          return;
        }
      }
      i++;
    }
  };
  int depthBrace = 0;
  while (i < n) {
    if (d.compare(i, 8, "operator") == 0 && (i == 0 || !(isalnum(d[i - 1]) || d[i - 1] == '_'))) {
      o += "operator";
      i += 8;
      if (d.compare(i, 2, "()") == 0) {
        o += "()";
        i += 2;
      } else if (i < n && !isalnum(d[i]) && d[i] != ' ' && d[i] != '_') {
        // symbolic operator
        static const char *ops[] = {"<<=", ">>=", "<=>", "->*", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "++", "--",
                                    "+=", "-=", "*=", "/=", "|=", "&=", "^=", "->", "[]", "<", ">", "=", "+", "-", "*", "/",
                                    "!", "&", "|", "^", "~", "%", ","};
        for (auto *op : ops)
          if (d.compare(i, strlen(op), op) == 0) {
            o += op;
            i += strlen(op);
            break;
          }
      } else if (i < n && d[i] == ' ') { // operator new / conversion
        o += '_';
        i++;
      }
      continue;
    }
    char c = d[i];
    if (c == '<') {
      skipBal('<', '>');
      continue;
    }
    if (c == '(') {
      if (d.compare(i, 21, "(anonymous namespace)") == 0) {
        o += "(anon)";
        i += 21;
        continue;
      }
      skipBal('(', ')');
      continue;
    }
    if (c == '{')
      depthBrace++;
    if (c == '}')
      depthBrace--;
    if (c == '[') {
      skipBal('[', ']');
      continue;
    }
    o += c;
    i++;
  }
  // drop " const" and reference qualifiers
  string r;
  for (size_t p = 0; p < o.size();) {
    if (o.compare(p, 6, " const") == 0 && (p + 6 == o.size() || !isalnum(o[p + 6]))) {
      p += 6;
      continue;
    }
    r += o[p++];
  }
  while (!r.empty() && (r.back() == '&' || r.back() == ' ') && r.find("operator&") == string::npos)
    r.pop_back();
  // drop the leading return type
  int br = 0;
  size_t cut = 0;
  for (size_t p = 0; p < r.size(); p++) {
    if (r[p] == '{')
      br++;
    else if (r[p] == '}')
      br--;
    else if (r[p] == ' ' && br == 0 && p + 1 < r.size() && (isalnum(r[p + 1]) || r[p + 1] == '_' || r[p + 1] == '(' || r[p + 1] == '~' || r[p+1]=='{'))
      cut = p + 1;
  }
  return r.substr(cut);
}
string demangled(const Function *F) { return llvm::demangle(F->getName().str()); }

static string diFullName(const DIScope *s) {
  string r;
  while (s) {
    string n;
    if (auto *t = dyn_cast<DIType>(s))
      n = t->getName().str();
    else if (auto *ns = dyn_cast<DINamespace>(s)) {
      n = ns->getName().str();
      if (n.empty())
        n = "(anon)";
    } else if (auto *sp = dyn_cast<DISubprogram>(s))
      n = sp->getName().str();
    else if (isa<DILexicalBlockBase>(s)) {
      s = s->getScope();
      continue;
    } else
      break;
    string st;
    int d = 0;
    for (char c : n) {
      if (c == '<')
        d++;
      else if (c == '>')
        d--;
      else if (!d)
        st += c;
    }
    r = r.empty() ? st : st + "::" + r;
    s = s->getScope();
  }
  return r;
}
static const DIType *stripTypedef(const DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    auto tag = d->getTag();
    if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type ||
        tag == dwarf::DW_TAG_member || tag == dwarf::DW_TAG_restrict_type)
      t = d->getBaseType();
    else
      break;
  }
  return t;
}
string stripTypeName(const string &n) {
  string s = n;
  for (auto *p : {"class.", "struct.", "union."})
    if (s.rfind(p, 0) == 0) {
      s = s.substr(strlen(p));
      break;
    }
  string st;
  int d = 0;
  for (char c : s) {
    if (c == '<')
      d++;
    else if (c == '>')
      d--;
    else if (!d)
      st += c;
  }
  // llvm appends .NN to disambiguate and .base for base subobjects
  while (true) {
    size_t p = st.rfind('.');
    if (p == string::npos || p + 1 >= st.size())
      break;
    string tail = st.substr(p + 1);
    bool num = std::all_of(tail.begin(), tail.end(), ::isdigit);
    if (num || tail == "base")
      st = st.substr(0, p);
    else
      break;
  }
  return st;
}

void Engine::init() {
  // constructor/destructor aliases: call the aliased body
  for (auto it = M->alias_begin(); it != M->alias_end();) {
    auto &A = *it++;
    if (auto *F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts()))
      A.replaceAllUsesWith(F);
  }
  DebugInfoFinder fnd;
  fnd.processModule(*M);
  for (auto *t : fnd.types())
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type &&
          c->getTag() != dwarf::DW_TAG_union_type)
        continue;
      if (c->isForwardDecl())
        continue;
      auto n = diFullName(c);
      auto &r = diTypes[n];
      if (!r || c->getSizeInBits() > r->getSizeInBits())
        r = c;
    }
  installModels(*this);
  for (auto *m : mons)
    m->eng = this;
}

void Engine::noteType(E ptr, const string &cls) {
  Addr a = splitAddr(ptr);
  if (!a.base || !a.base->isSym())
    return;
  if (a.off->isConst(0))
    P.info(a.base).types.insert(cls);
}
bool Engine::hasType(E base, const string &n) {
  if (!base || !base->isSym())
    return false;
  for (auto &t : P.info(base).types) {
    if (t == n || (t.size() > n.size() + 2 && t.compare(t.size() - n.size(), n.size(), n) == 0 && t[t.size() - n.size() - 1] == ':'))
      return true;
    // base classes
    std::function<bool(const DICompositeType *)> rec = [&](const DICompositeType *c) {
      if (!c)
        return false;
      for (auto *e : c->getElements())
        if (auto *d = dyn_cast<DIDerivedType>(e))
          if (d->getTag() == dwarf::DW_TAG_inheritance) {
            auto *b = dyn_cast_or_null<DICompositeType>(stripTypedef(d->getBaseType()));
            if (!b)
              continue;
            auto bn = diFullName(b);
            if (bn == n || (bn.size() > n.size() + 2 && bn.compare(bn.size() - n.size(), n.size(), n) == 0 && bn[bn.size() - n.size() - 1] == ':'))
              return true;
            if (rec(b))
              return true;
          }
      return false;
    };
    auto it = diTypes.find(t);
    if (it != diTypes.end() && rec(it->second))
      return true;
  }
  return false;
}
static string fieldAt(const DICompositeType *c, uint64_t off, uint64_t *size = nullptr, const DIType **ty = nullptr) {
  if (!c)
    return "";
  for (auto *e : c->getElements()) {
    auto *d = dyn_cast<DIDerivedType>(e);
    if (!d || d->isStaticMember())
      continue;
    uint64_t o = d->getOffsetInBits() / 8;
    auto *bt = stripTypedef(d->getBaseType());
    uint64_t sz = bt ? bt->getSizeInBits() / 8 : 0;
    if (d->getTag() == dwarf::DW_TAG_inheritance) {
      auto *b = dyn_cast_or_null<DICompositeType>(bt);
      if (b && off >= o && off < o + std::max<uint64_t>(sz, 1)) {
        auto r = fieldAt(b, off - o, size, ty);
        if (!r.empty())
          return r;
      }
    } else if (d->getTag() == dwarf::DW_TAG_member) {
      if (off >= o && off < o + std::max<uint64_t>(sz, 1)) {
        if (size)
          *size = sz;
        if (ty)
          *ty = bt;
        return d->getName().str();
      }
    }
  }
  return "";
}
// a value read from an enum-typed field is one of its enumerators
void Engine::enumRange(State &s, E val, E base, E off) {
  if (!base || !base->isSym() || !off->isConst())
    return;
  for (auto &t : P.info(base).types) {
    auto it = diTypes.find(t);
    if (it == diTypes.end())
      continue;
    const DIType *ft = nullptr;
    fieldAt(it->second, off->c, nullptr, &ft);
    auto *en = dyn_cast_or_null<DICompositeType>(ft);
    if (!en || en->getTag() != dwarf::DW_TAG_enumeration_type)
      continue;
    int64_t lo = INT64_MAX, hi = INT64_MIN;
    for (auto *x : en->getElements())
      if (auto *d = dyn_cast<DIEnumerator>(x)) {
        int64_t v = d->isUnsigned() || d->getValue().getBitWidth() == 1 ? (int64_t)d->getValue().getZExtValue() : d->getValue().getSExtValue();
        lo = std::min(lo, v);
        hi = std::max(hi, v);
      }
    if (lo > hi)
      continue;
    for (E x : {P.addc(val, -lo), P.addc(P.scale(val, -1), hi)})
      if (!entailsGe0(s, x)) {
        while (s.facts.count(P.notE(P.eq0(x))) || s.facts.count(P.notE(P.eq0(P.scale(x, -1)))))
          x = P.addc(x, -1);
        s.facts.insert(P.ge0(x));
      }
    return;
  }
}
// field at an offset of (an element of an array of) a named type
string fieldOfType(const string &type, E off) {
  for (auto &kv : diTypes) {
    auto &n = kv.first;
    if (n.size() < type.size() || n.compare(n.size() - type.size(), string::npos, type) != 0)
      continue;
    int64_t sz = kv.second->getSizeInBits() / 8;
    if (!sz)
      continue;
    int64_t o = 0;
    if (off->isConst())
      o = off->c;
    else if (off->k == K_LIN) {
      o = off->c;
      for (auto &t : off->terms)
        if (t.second % sz != 0)
          return "";
    }
    return fieldAt(kv.second, ((o % sz) + sz) % sz);
  }
  return "";
}
std::set<string> Engine::fieldNames(E base, E off) {
  std::set<string> r;
  if (!base || !base->isSym())
    return r;
  for (auto &t : P.info(base).types) {
    auto it = diTypes.find(t);
    if (it == diTypes.end())
      continue;
    int64_t o = -1;
    bool var = false; // variable part: only an element of an array member, or of an array of this type
    if (off->isConst())
      o = off->c;
    else if (off->k == K_LIN && off->c >= 0) {
      o = off->c;
      int64_t sz = it->second->getSizeInBits() / 8;
      for (auto &tm : off->terms)
        var |= sz == 0 || tm.second % sz != 0;
      if (!var && sz)
        o %= sz;
    }
    if (o < 0)
      continue;
    uint64_t fsz = 0;
    auto f = fieldAt(it->second, o, &fsz);
    if (!f.empty() && !(var && fsz <= 8))
      r.insert(f);
  }
  return r;
}
string Engine::fieldName(E base, E off) {
  auto r = fieldNames(base, off);
  return r.empty() ? "" : *r.begin();
}

string Engine::where(const Instruction *I) {
  if (!I)
    return "?";
  string f = "?";
  int line = 0;
  if (auto &dl = I->getDebugLoc()) {
    f = dl->getFilename().str();
    line = dl.getLine();
    auto p = f.rfind('/');
    if (p != string::npos)
      f = f.substr(p + 1);
  }
  return f + ":" + std::to_string(line);
}
void Engine::count(const string &prop, const Instruction *I, const string &what) {
  counts[prop].insert((I ? where(I) + " " + fi(I->getFunction()).method : string()) + " " + what);
}
// innermost instruction whose code lies in the repository
const Instruction *Engine::repoInst(State &s, const Instruction *I) {
  const Instruction *at = I;
  auto inRepo = [&](const Function *F) {
    auto *sp = F->getSubprogram();
    return sp && sp->getFile() && (sp->getFilename().contains("indexes/") || sp->getFilename().contains("benchmark/"));
  };
  int fidx = (int)s.frames.size() - 1;
  if (!at && fidx >= 0 && s.frames[fidx].call)
    at = s.frames[fidx].call;
  while (at && fidx > 0 && !inRepo(at->getFunction())) {
    at = s.frames[fidx].call;
    fidx--;
  }
  return at;
}
string Engine::whereR(State &s, const Instruction *I) {
  auto *i = repoInst(s, I);
  return i ? where(i) + " " + fi(i->getFunction()).method : "?";
}
void Engine::count(State &s, const string &prop, const Instruction *I, const string &what) {
  counts[prop].insert(whereR(s, I) + " " + what);
}
void Engine::report(State &s, const Instruction *I, const string &prop, const string &rule, const string &msg) {
  Violation v;
  v.prop = prop;
  v.rule = rule;
  v.root = curRoot;
  v.msg = msg;
  const Instruction *at = repoInst(s, I);
  if (at) {
    v.fn = fi(at->getFunction()).strip;
    if (auto &dl = at->getDebugLoc()) {
      v.file = dl->getFilename().str();
      v.line = dl.getLine();
    }
  }
  for (int i = (int)s.frames.size() - 1; i > 0; i--)
    if (s.frames[i].call)
      v.stack.push_back(fi(s.frames[i].F).strip + " called at " + where(s.frames[i].call) + " in " + fi(s.frames[i - 1].F).strip);
  vector<string> tr;
  int n = 0;
  for (auto t = s.trace; t && n < 60; t = t->prev, n++)
    tr.push_back(where(t->inst) + (t->taken ? " taken" : " not taken") + " in " + fi(t->inst->getFunction()).method);
  std::reverse(tr.begin(), tr.end());
  v.trail = tr;
  string key = prop + "|" + rule + "|" + v.fn + "|" + msg;
  if (!viols.count(key))
    viols[key] = v;
}

// ---------------------------------------------------------------- functions
FnInfo &Engine::fi(const Function *F) {
  auto it = fns.find(F);
  if (it != fns.end())
    return it->second;
  auto &r = fns[F];
  r.dem = demangled(F);
  r.strip = stripTemplates(r.dem);
  auto p = r.strip.rfind("::");
  // keep lambda call operators readable
  if (p != string::npos) {
    r.method = r.strip.substr(p + 2);
    r.cls = r.strip.substr(0, p);
    auto lam = r.strip.find("::{lambda");
    if (lam == string::npos)
      lam = r.strip.find("::'lambda");
    if (lam != string::npos) {
      auto q = r.strip.rfind("::", lam - 1);
      r.method = r.strip.substr(q == string::npos ? 0 : q + 2);
    }
  } else
    r.method = r.strip;
  int n = 0;
  for (auto &a : F->args())
    r.num[&a] = n++;
  if (F->isDeclaration())
    return r;
  for (auto &B : *F)
    for (auto &I : B)
      r.num[&I] = n++;
  r.DT = std::make_unique<DominatorTree>(*const_cast<Function *>(F));
  r.LI = std::make_unique<LoopInfo>(*r.DT);
  ReversePostOrderTraversal<const Function *> rpot(F);
  int k = 0;
  for (auto *B : rpot)
    r.rpo[B] = k++;
  // liveness
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &B : reverse(*F)) {
      std::set<const Value *> live;
      for (auto *S : successors(&B)) {
        for (auto *v : r.liveIn[S])
          live.insert(v);
        for (auto &phi : S->phis())
          live.erase(&phi);
      }
      for (auto *S : successors(&B))
        for (auto &phi : S->phis()) {
          auto *v = phi.getIncomingValueForBlock(&B);
          if (isa<Instruction>(v) || isa<Argument>(v))
            live.insert(v);
        }
      for (auto it = B.rbegin(); it != B.rend(); ++it) {
        live.erase(&*it);
        if (isa<PHINode>(*it))
          continue;
        for (auto &o : it->operands())
          if (isa<Instruction>(o) || isa<Argument>(o))
            live.insert(o);
      }
      if (live != r.liveIn[&B]) {
        r.liveIn[&B] = live;
        ch = true;
      }
    }
  }
  return r;
}

bool Engine::isOpaque(const Function *F) {
  if (F->isDeclaration())
    return true;
  auto &n = fi(F).strip;
  if (noInline.count(n))
    return true;
  for (auto &p : opaquePrefixes)
    if (n.rfind(p, 0) == 0)
      return true;
  return false;
}

// ------------------------------------------------------------------- values
static E constOf(Engine *e, const Constant *c);
static E gepOffset(Engine *e, const GEPOperator *g, std::function<E(const Value *)> val) {
  const DataLayout &DL = e->M->getDataLayout();
  E r = P.zero;
  for (gep_type_iterator it = gep_type_begin(g), en = gep_type_end(g); it != en; ++it) {
    if (auto *st = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(it.getOperand())->getZExtValue();
      r = P.addc(r, DL.getStructLayout(st)->getElementOffset(f));
    } else {
      int64_t sz = DL.getTypeAllocSize(it.getIndexedType());
      r = P.add(r, val(it.getOperand()), sz);
    }
  }
  return r;
}
static void noteGep(Engine *e, const GEPOperator *g, E base) {
  if (auto *st = dyn_cast<StructType>(g->getSourceElementType()))
    if (st->hasName())
      e->noteType(base, stripTypeName(st->getName().str()));
}
static E constOf(Engine *e, const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() == 1)
      return P.cst(i->isZero() ? 0 : 1);
    if (i->getBitWidth() <= 64)
      return P.cst(i->getSExtValue());
    return P.op("bigint", {});
  }
  if (isa<ConstantPointerNull>(c))
    return P.zero;
  if (isa<UndefValue>(c))
    return P.op("undef", {});
  if (auto *g = dyn_cast<GlobalValue>(c))
    return P.global(g);
  if (isa<ConstantAggregateZero>(c)) {
    if (auto *st = dyn_cast<StructType>(c->getType())) {
      vector<E> v;
      for (unsigned i = 0; i < st->getNumElements(); i++)
        v.push_back(constOf(e, c->getAggregateElement(i)));
      return P.agg(v);
    }
    return P.zero;
  }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    vector<E> v;
    for (auto &o : a->operands())
      v.push_back(constOf(e, cast<Constant>(o)));
    return P.agg(v);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      E b = constOf(e, cast<Constant>(g->getPointerOperand()));
      return P.add(b, gepOffset(e, g, [&](const Value *v) { return constOf(e, cast<Constant>(v)); }));
    }
    if (ce->isCast())
      return constOf(e, ce->getOperand(0));
    return P.op("cexpr" + std::to_string((uintptr_t)ce), {});
  }
  if (auto *fp = dyn_cast<ConstantFP>(c)) {
    SmallVector<char, 32> s;
    fp->getValueAPF().toString(s);
    return P.op("fp:" + string(s.data(), s.size()), {});
  }
  return P.op("const" + std::to_string((uintptr_t)c), {});
}
E Engine::evalv(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v))
    return constOf(this, c);
  auto &env = s.top().env;
  auto it = env.find(v);
  if (it != env.end())
    return it->second;
  if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v))
    return P.zero;
  E u = P.sym(S_UNDEF);
  env[v] = u;
  return u;
}

// value of bit i (0/1 expression)
E Engine::bit(E x, int i) {
  if (x->isConst())
    return P.cst(((uint64_t)x->c >> i) & 1);
  if (x->k == K_OP) {
    if (x->op == "and" || x->op == "or" || x->op == "xor") {
      E a = bit(x->args[0], i), b = bit(x->args[1], i);
      if (x->op == "and") {
        if (a->isConst(0) || b->isConst(0)) return P.zero;
        if (a->isConst(1)) return b;
        if (b->isConst(1)) return a;
        if (a == b) return a;
      } else if (x->op == "or") {
        if (a->isConst(1) || b->isConst(1)) return P.one;
        if (a->isConst(0)) return b;
        if (b->isConst(0)) return a;
        if (a == b) return a;
      } else {
        if (a->isConst(0)) return b;
        if (b->isConst(0)) return a;
        if (a == b) return P.zero;
      }
    }
    if (x->op == "lowbits") // value known to fit below bit args[1]
      if (x->args[1]->isConst() && i >= x->args[1]->c)
        return P.zero;
  }
  if (x->k == K_LIN && i >= 32 && x->c >= 0 && x->c < (1 << 20) && x->terms.size() == 1 && x->terms[0].second == 1) {
    // small increment of a counter field: assumed not to carry into the flag bits
    E b = bit(x->terms[0].first, i);
    if (b->isConst(0))
      return P.zero;
  }
  return P.op("bit", {x, P.cst(i)});
}

E Engine::binop(State &s, unsigned opc, E a, E b) {
  bool cc = a->isConst() && b->isConst();
  switch (opc) {
  case Instruction::Add:
    return P.add(a, b);
  case Instruction::Sub:
    return P.sub(a, b);
  case Instruction::Mul:
    if (a->isConst())
      return P.scale(b, a->c);
    if (b->isConst())
      return P.scale(a, b->c);
    return P.op("mul", {a, b});
  case Instruction::SDiv:
  case Instruction::UDiv:
    if (cc && b->c)
      return P.cst(opc == Instruction::SDiv ? a->c / b->c : (int64_t)((uint64_t)a->c / (uint64_t)b->c));
    if (b->isConst() && b->c) {
      if (E q = P.divExact(a, b->c))
        return q;
    }
    return P.op("div", {a, b});
  case Instruction::SRem:
  case Instruction::URem:
    if (cc && b->c)
      return P.cst(opc == Instruction::SRem ? a->c % b->c : (int64_t)((uint64_t)a->c % (uint64_t)b->c));
    return P.op("rem", {a, b});
  case Instruction::Shl:
    if (cc)
      return P.cst(b->c >= 64 ? 0 : (int64_t)((uint64_t)a->c << b->c));
    if (b->isConst() && b->c >= 0 && b->c < 31)
      return P.scale(a, 1LL << b->c);
    return P.op("shl", {a, b});
  case Instruction::LShr:
    if (cc)
      return P.cst(b->c >= 64 ? 0 : (int64_t)((uint64_t)a->c >> b->c));
    if (a->isOp("cat") && b->isConst() && b->c % 8 == 0) {
      vector<E> parts;
      int64_t d = b->c / 8;
      bool ok = true;
      for (size_t i = 0; i + 2 < a->args.size(); i += 3) {
        int64_t o = a->args[i]->c, n = a->args[i + 1]->c;
        if (o + n <= d)
          continue;
        ok &= o >= d;
        parts.push_back(P.cst(o - d));
        parts.push_back(a->args[i + 1]);
        parts.push_back(a->args[i + 2]);
      }
      if (ok && !parts.empty())
        return P.op("cat", parts);
    }
    return P.op("lshr", {a, b});
  case Instruction::AShr:
    if (cc)
      return P.cst(a->c >> std::min<int64_t>(b->c, 63));
    if (b->isConst() && b->c >= 0 && b->c < 31)
      if (E q = P.divExact(a, 1LL << b->c))
        return q;
    return P.op("ashr", {a, b});
  case Instruction::And: {
    if (cc)
      return P.cst(a->c & b->c);
    if (a->isConst())
      std::swap(a, b);
    if (b->isConst(0))
      return P.zero;
    if (b->isConst(-1))
      return a;
    if (a == b)
      return a;
    if (b->isConst()) {
      uint64_t m = (uint64_t)b->c;
      if ((m & (m - 1)) == 0) {
        int i = __builtin_ctzll(m);
        return P.scale(bit(a, i), (int64_t)m);
      }
      if (a->isOp("and") && a->args[1]->isConst())
        return binop(s, opc, a->args[0], P.cst(a->args[1]->c & b->c));
    }
    // boolean conjunction
    return P.op("and", {a, b});
  }
  case Instruction::Or:
    if (cc)
      return P.cst(a->c | b->c);
    if (a->isConst())
      std::swap(a, b);
    if (b->isConst(0))
      return a;
    if (a == b)
      return a;
    return P.op("or", {a, b});
  case Instruction::Xor:
    if (cc)
      return P.cst(a->c ^ b->c);
    if (a->isConst())
      std::swap(a, b);
    if (b->isConst(0))
      return a;
    if (a == b)
      return P.zero;
    return P.op("xor", {a, b});
  }
  return P.op("b" + std::to_string(opc), {a, b});
}

static bool isPred(E e) {
  if (e->isConst())
    return e->c == 0 || e->c == 1;
  return e->k == K_OP && (e->op == "ge0" || e->op == "eq0" || e->op == "not" || e->op == "ult" || e->op == "fcmp" || e->op == "bit" || e->op == "pand" || e->op == "por");
}
E Engine::toPred(E e) {
  if (e->isConst())
    return e->c ? P.one : P.zero;
  if (e->isOp("bit"))
    return P.notE(P.eq0(e));
  if (isPred(e))
    return e;
  return P.notE(P.eq0(e));
}

static E normEq(E a) { // eq0 argument normalisation
  if (a->k == K_LIN && a->c == 0 && a->terms.size() == 1)
    return a->terms[0].first;
  return a;
}

// -------------------------------------------------------------------- facts
static bool isPtrSym(E b) {
  auto &i = P.info(b);
  return !i.types.empty() || (i.inst && i.inst->getType()->isPointerTy());
}
static bool knownNonNull(E a) {
  if (a->isSym()) {
    auto k = P.info(a).kind;
    return k == S_ALLOCA || k == S_MALLOC || k == S_GLOBAL;
  }
  if (a->k == K_LIN && a->c >= 0) {
    int cnt = 0;
    for (auto &t : a->terms)
      if (t.second == 1 && (knownNonNull(t.first) || t.first->isOp("data")))
        cnt++;
      else if (t.second < 0 && (!t.first->isOp("bit")))
        return false;
    return cnt == 1;
  }
  return a->isOp("data");
}
static bool nonNegAtom(E a) { return a->isOp("bit"); }

bool Engine::entailsGe0(State &s, E e) {
  nFacts++;
  if (e->isConst())
    return e->c >= 0;
  E g = P.ge0(e);
  if (g->isConst())
    return g->c;
  if (s.facts.count(g))
    return true;
  E x = g->args[0];
  auto trivially = [](E d) {
    if (d->isConst())
      return d->c >= 0;
    if (nonNegAtom(d))
      return true;
    if (d->k == K_LIN && d->c >= 0) {
      for (auto &t : d->terms)
        if (t.second < 0 || !nonNegAtom(t.first))
          return false;
      return true;
    }
    return false;
  };
  if (trivially(x))
    return true;
  vector<E> fs;
  for (auto f : s.facts)
    if (f->isOp("ge0")) {
      E d = P.sub(x, f->args[0]);
      if (trivially(d))
        return true;
      bool share = false;
      for (auto y : f->syms)
        for (auto z : x->syms)
          share |= y == z;
      if (share)
        fs.push_back(f->args[0]);
    }
  if (fs.size() <= 24)
    for (size_t i = 0; i < fs.size(); i++)
      for (auto f : s.facts)
        if (f->isOp("ge0")) {
          E d = P.sub(P.sub(x, fs[i]), f->args[0]);
          if (trivially(d))
            return true;
        }
  return false;
}

// address of something inside an object known to exist
bool Engine::nonNull(State &s, E a) {
  if (knownNonNull(a))
    return true;
  if (a->isConst())
    return a->c != 0;
  if (entailsGe0(s, P.addc(a, -1)))
    return true;
  Addr ad = splitAddr(a);
  if (!ad.base || ad.base == a || !ad.base->isSym())
    return false;
  if (ad.off->isConst() && ad.off->c < 0)
    return false;
  if (a->k == K_LIN)
    for (auto &t : a->terms)
      if (t.second < 0) // the difference of two pointers is not an address
        return false;
  return knownNonNull(ad.base) || s.facts.count(P.ge0(P.addc(ad.base, -1)));
}
E Engine::simplify(State &s, E p) {
  if (p->isConst())
    return p;
  if (s.facts.count(p))
    return P.one;
  E n = P.notE(p);
  if (s.facts.count(n))
    return P.zero;
  if (p->isOp("ge0")) {
    if (entailsGe0(s, p->args[0]))
      return P.one;
    if (entailsGe0(s, P.addc(P.scale(p->args[0], -1), -1)))
      return P.zero;
    return p;
  }
  if (p->isOp("eq0")) {
    E a = normEq(p->args[0]);
    if (a != p->args[0])
      return simplify(s, P.eq0(a));
    if (knownNonNull(a))
      return P.zero;
    if (a->k == K_LIN) {
      Addr ad = splitAddr(a);
      bool diff = false; // the difference of two pointers is not an address
      for (auto &t : a->terms)
        diff |= t.second < 0;
      if (!diff && ad.base && ad.base->isSym() && !(ad.off->isConst() && ad.off->c < 0) && isPtrSym(ad.base) && nonNull(s, a))
        return P.zero;
    }
    if (isPred(a) && !a->isOp("bit")) {
      E r = simplify(s, a);
      if (r->isConst())
        return r->c ? P.zero : P.one;
      return simplify(s, P.notE(a));
    }
    // distinct objects
    if (a->k == K_LIN && a->terms.size() == 2 && a->terms[0].second == -a->terms[1].second) {
      E x = a->terms[0].first, y = a->terms[1].first;
      auto obj = [](E e) { return e->isSym() && (P.info(e).kind == S_ALLOCA || P.info(e).kind == S_MALLOC || P.info(e).kind == S_GLOBAL); };
      if (std::llabs(a->terms[0].second) == 1 && ((obj(x) && obj(y)) || (obj(x) && y->isSym() && P.info(y).kind == S_ARG) || (obj(y) && x->isSym() && P.info(x).kind == S_ARG)))
        return P.zero;
    }
    bool lin = true;
    if (lin && (a->k == K_LIN || a->k == K_SYM || a->k == K_OP)) {
      if (entailsGe0(s, P.addc(a, -1)) || entailsGe0(s, P.addc(P.scale(a, -1), -1)))
        return P.zero;
    }
    return p;
  }
  if (p->isOp("not")) {
    E r = simplify(s, p->args[0]);
    if (r->isConst())
      return r->c ? P.zero : P.one;
    return P.notE(r);
  }
  return p;
}

void Engine::substState(State &s, uint32_t id, E by) {
  std::unordered_map<uint32_t, E> m{{id, by}};
  std::unordered_map<E, E> memo;
  auto sb = [&](E e) { return usesSym(e, id) ? P.subst(e, m, memo) : e; };
  for (auto &f : s.frames) {
    for (auto &kv : f.env)
      kv.second = sb(kv.second);
    for (auto &a : f.allocas)
      a = sb(a);
  }
  std::map<MemKey, Cell> nm;
  vector<std::pair<MemKey, Cell>> moved;
  for (auto &kv : s.mem) {
    Cell c = kv.second;
    c.val = sb(c.val);
    if (usesSym(kv.first.base, id) || usesSym(kv.first.off, id)) {
      E b = sb(kv.first.base);
      E addr = P.add(b, sb(kv.first.off));
      if (b->isSym() || b->k == K_OP) {
        Addr a = (b->isOp("elem")) ? Addr{b, sb(kv.first.off)} : splitAddr(addr);
        if (a.base)
          moved.push_back({{a.base, a.off}, c});
      } else {
        Addr a = memAddr(addr);
        if (a.base)
          moved.push_back({{a.base, a.off}, c});
      }
    } else
      nm[kv.first] = c;
  }
  for (auto &x : moved)
    if (!nm.count(x.first))
      nm[x.first] = x.second;
  s.mem = std::move(nm);
  std::set<E, ELess> nf;
  for (auto f : s.facts) {
    E g = sb(f);
    if (g->isConst(0))
      s.dead = true;
    if (!g->isConst())
      nf.insert(g);
  }
  s.facts = std::move(nf);
  vector<Mon> mv;
  for (auto &mm : s.mons) {
    Mon c = mm;
    for (auto &a : c.args)
      a = sb(a);
    bool dup = false;
    if (c.tag[0] == '~')
      for (auto &o : mv)
        dup |= o == c;
    if (!dup)
      mv.push_back(c);
  }
  s.mons = mv;
  // type knowledge moves along
  if (by->isSym()) {
    auto &a = P.symInfo[id];
    auto t = a.types;
    P.info(by).types.insert(t.begin(), t.end());
  }
}

bool Engine::assume(State &s, const Instruction *I, E p) {
  p = toPred(p);
  p = simplify(s, p);
  if (p->isConst())
    return p->c != 0;
  if (p->isOp("eq0")) {
    E a = normEq(p->args[0]);
    p = P.eq0(a);
    if (isPred(a) && !a->isOp("bit"))
      return assume(s, I, P.notE(a));
  }
  if (p->isOp("not") && p->args[0]->isOp("eq0")) {
    E a = normEq(p->args[0]->args[0]);
    if (isPred(a) && !a->isOp("bit"))
      return assume(s, I, a);
    p = P.notE(P.eq0(a));
  }
  for (auto *m : mons) {
    m->onAssume(s, I, p);
    if (s.dead)
      return false;
  }
  if (p->isOp("eq0")) {
    E a = p->args[0];
    // substitute the newest symbol with unit coefficient
    E best = nullptr;
    int64_t co = 0;
    if (a->isSym()) {
      best = a;
      co = 1;
    } else if (a->k == K_LIN)
      for (auto &t : a->terms)
        if (t.first->isSym() && std::llabs(t.second) == 1) {
          auto k = P.info(t.first).kind;
          if (k == S_ALLOCA || k == S_MALLOC || k == S_GLOBAL)
            continue;
          bool occursElse = false;
          for (auto &t2 : a->terms)
            if (&t2 != &t && usesSym(t2.first, t.first->c))
              occursElse = true;
          if (occursElse)
            continue;
          auto rank = [](E e) { return P.info(e).kind == S_ARG ? -1 : (int64_t)e->c; };
          if (!best || rank(t.first) > rank(best)) {
            best = t.first;
            co = t.second;
          }
        }
    if (best) {
      // best*co + rest = 0 -> best = -rest/co
      E rest = P.sub(a, best->isSym() && a->isSym() ? best : P.scale(best, co));
      E by = P.scale(rest, co == 1 ? -1 : 1);
      substState(s, best->c, by);
      return !s.dead;
    }
    // equality over terms: record both directions
    s.facts.insert(p);
    if (a->k == K_LIN) {
      s.facts.insert(P.ge0(a));
      s.facts.insert(P.ge0(P.scale(a, -1)));
      for (auto it = s.facts.begin(); it != s.facts.end();)
        it = (*it)->isConst() ? s.facts.erase(it) : std::next(it);
    }
    return true;
  }
  s.facts.insert(p);
  if (p->isOp("ge0")) {
    // a >= 0 and -a >= 0 -> a = 0
    E na = P.ge0(P.scale(p->args[0], -1));
    if (s.facts.count(na)) {
      E a = p->args[0];
      s.facts.erase(p);
      s.facts.erase(na);
      return assume(s, I, P.eq0(a));
    }
    // tighten disequalities: a>=0, a!=0 -> a>=1
    if (s.facts.count(P.notE(P.eq0(p->args[0])))) {
      s.facts.erase(p);
      s.facts.insert(P.ge0(P.addc(p->args[0], -1)));
    }
  } else if (p->isOp("not") && p->args[0]->isOp("eq0")) {
    E a = p->args[0]->args[0];
    bool contra = false;
    auto tighten = [&](E x) { // x >= 0 and x != 0
      for (int n = 0; n < 64; n++) {
        x = P.addc(x, -1);
        if (!s.facts.count(P.notE(P.eq0(x))) && !s.facts.count(P.notE(P.eq0(P.scale(x, -1)))))
          break;
      }
      if (entailsGe0(s, P.addc(P.scale(x, -1), -1)))
        contra = true; // x < 0 is known
      s.facts.insert(P.ge0(x));
      return s.facts.count(P.ge0(P.scale(x, -1))) ? x : nullptr;
    };
    E fixed = nullptr;
    if (entailsGe0(s, a))
      fixed = tighten(a);
    else if (entailsGe0(s, P.scale(a, -1)))
      fixed = tighten(P.scale(a, -1));
    if (contra)
      return false;
    if (fixed)
      return assume(s, I, P.eq0(fixed));
    for (auto it = s.facts.begin(); it != s.facts.end();)
      if ((*it)->isConst(0))
        return false;
      else
        it = (*it)->isConst() ? s.facts.erase(it) : std::next(it);
  }
  return true;
}

// ------------------------------------------------------------------- memory
// container elements: data(V,es)+es*q+r  ->  (elem(V,q,es), r)
Addr memAddr(E p) {
  Addr a = splitAddr(p);
  E d = nullptr;
  if (p->isOp("data"))
    d = p;
  else if (p->k == K_LIN)
    for (auto &t : p->terms)
      if (t.second == 1 && t.first->isOp("data"))
        d = t.first;
  if (!d)
    return a;
  E off = P.sub(p, d);
  int64_t es = d->args[1]->c;
  if (es <= 0)
    return {d, off};
  int64_t c = 0;
  vector<std::pair<E, int64_t>> ts;
  if (off->isConst())
    c = off->c;
  else if (off->k == K_LIN) {
    c = off->c;
    ts = off->terms;
  } else
    ts = {{off, 1}};
  vector<std::pair<E, int64_t>> q;
  for (auto &t : ts) {
    if (t.second % es)
      return {d, off};
    q.push_back({t.first, t.second / es});
  }
  int64_t r = ((c % es) + es) % es;
  int64_t qc = (c - r) / es;
  return {P.op("elem", {d->args[0], P.lin(qc, q), P.cst(es)}), P.cst(r)};
}

bool Engine::privateObj(State &s, E base) {
  if (!base)
    return false;
  if (base->isOp("elem") || base->isOp("data")) {
    Addr a = splitAddr(base->args[0]);
    return privateObj(s, a.base);
  }
  if (!base->isSym())
    return false;
  auto k = P.info(base).kind;
  if (k == S_ALLOCA)
    return true;
  if (k == S_MALLOC) {
    if (s.find("~pub", base))
      return false;
    for (auto *m : mons)
      if (m->linked(s, base))
        return false;
    return true;
  }
  return false;
}

static bool mayAlias(E o1, uint32_t s1, E o2, uint32_t s2) {
  E d = P.sub(o2, o1); // o2 - o1
  if (d->isConst())
    return !(d->c >= (int64_t)s1 || -d->c >= (int64_t)s2);
  // index expressions are assumed non-negative: a constant offset below the
  // constant part of a variable one does not overlap
  auto cpart = [](E e) { return e->isConst() ? e->c : e->k == K_LIN ? e->c : 0; };
  bool posOnly1 = true, posOnly2 = true;
  if (o1->k == K_LIN)
    for (auto &t : o1->terms)
      posOnly1 &= t.second > 0;
  if (o2->k == K_LIN)
    for (auto &t : o2->terms)
      posOnly2 &= t.second > 0;
  if (o1->isConst() && !o2->isConst() && posOnly2 && cpart(o2) >= o1->c + (int64_t)s1)
    return false;
  if (o2->isConst() && !o1->isConst() && posOnly1 && cpart(o1) >= o2->c + (int64_t)s2)
    return false;
  if (s1 != s2 && (o1->isConst() != o2->isConst()))
    return false;
  return true;
}

E Engine::freshLoad(const Instruction *I, E addr) {
  E r = P.sym(S_LOAD, I);
  P.info(r).loadAddr = addr;
  return r;
}
E Engine::load(State &s, const Instruction *I, E ptr, uint32_t size, bool atomic, bool quiet, const Type *T) {
  Addr a = memAddr(ptr);
  if (!a.base) {
    E r = freshLoad(I, ptr);
    if (!quiet)
      for (auto *m : mons)
        m->onLoad(s, I, a, size, atomic, r);
    return r;
  }
  // constant globals are read from their initialiser
  if (a.base->isSym() && P.info(a.base).kind == S_GLOBAL && a.off->isConst() && size <= 8) {
    static std::map<E, const GlobalVariable *> gv;
    if (gv.empty())
      for (auto &g : M->globals())
        gv[P.global(&g)] = &g;
    auto *g = gv[a.base];
    if (g && g->isConstant() && g->hasInitializer()) {
      APInt o(64, a.off->c);
      auto *ty = IntegerType::get(M->getContext(), size * 8);
      if (auto *c = ConstantFoldLoadFromConst(const_cast<Constant *>(g->getInitializer()), ty, o, M->getDataLayout()))
        if (isa<ConstantInt>(c)) {
          E v = constOf(this, c);
          if (!quiet)
            for (auto *m : mons)
              m->onLoad(s, I, a, size, atomic, v);
          return v;
        }
    }
  }
  E val = nullptr;
  auto it = s.mem.find({a.base, a.off});
  bool priv = privateObj(s, a.base);
  bool stable = true;
  if (concurrent && atomic && !priv) {
    stable = false;
    for (auto *m : mons) {
      int r = m->stable(s, a.base, a.off);
      if (r >= 0) {
        stable = r;
        break;
      }
    }
  }
  if (stable) {
    if (it != s.mem.end() && it->second.size == size)
      val = it->second.val;
    else if (it != s.mem.end() && it->second.size > size && it->second.val->isConst(0))
      val = P.zero;
    else if (it != s.mem.end() && it->second.size > size && it->second.val->isConst()) {
      uint64_t m = size >= 8 ? ~0ull : ((1ull << (size * 8)) - 1);
      val = P.cst((int64_t)((uint64_t)it->second.val->c & m));
    } else if (a.off->isConst()) {
      for (auto &kv : s.mem)
        if (kv.first.base == a.base && kv.first.off->isConst() && kv.first.off->c <= a.off->c &&
            kv.first.off->c + (int64_t)kv.second.size >= a.off->c + (int64_t)size && kv.second.val->isConst(0)) {
          val = P.zero;
          break;
        }
    }
  }
  // one wide load of several members (a small struct returned in a register)
  if (!val && stable && (it == s.mem.end() || it->second.size < size) && a.off->isConst() && a.base->isSym() && P.info(a.base).kind == S_ALLOCA) {
    vector<E> parts;
    bool ok = true;
    for (auto &kv : s.mem)
      if (kv.first.base == a.base) {
        if (!kv.first.off->isConst()) {
          ok = false;
          break;
        }
        int64_t o = kv.first.off->c - a.off->c;
        if (o >= (int64_t)size || o + (int64_t)kv.second.size <= 0)
          continue;
        if (o < 0 || o + (int64_t)kv.second.size > (int64_t)size || kv.second.val->isOp("cat")) {
          ok = false;
          break;
        }
        parts.push_back(P.cst(o));
        parts.push_back(P.cst(kv.second.size));
        parts.push_back(kv.second.val);
      }
    if (ok && !parts.empty())
      val = P.op("cat", parts);
  }
  if (!val) {
    // wide load over several smaller cells or first use
    val = freshLoad(I, ptr);
    P.info(val).shared = !priv && (atomic || (a.base->isSym() && P.info(a.base).shared));
    if (stable && it == s.mem.end())
      s.mem[{a.base, a.off}] = {val, size, atomic};
  }
  if (size <= 4 && !atomic && val->isSym() && !priv)
    enumRange(s, val, a.base, a.off);
  if (!quiet)
    for (auto *m : mons)
      m->onLoad(s, I, a, size, atomic, val);
  return val;
}

// Offsets kept inside an object (slots, fill marks) refer to its payload: an
// access placed by one of them does not touch the members of the header.
bool Engine::headerVsPayload(E base, E o1, E o2) {
  if (o1->isConst() == o2->isConst() || !base->isSym() || P.info(base).types.empty())
    return false;
  E c = o1->isConst() ? o1 : o2, v = o1->isConst() ? o2 : o1;
  bool inner = false;
  for (auto x : v->syms) {
    E y = P.symExpr[x];
    if (P.info(y).loadAddr && memAddr(P.info(y).loadAddr).base == base)
      inner = true;
  }
  return inner && !fieldNames(base, c).empty();
}

void Engine::store(State &s, const Instruction *I, E ptr, E v, uint32_t size, bool atomic, bool quiet) {
  Addr a = memAddr(ptr);
  if (!a.base) {
    if (!quiet)
      for (auto *m : mons)
        m->onStore(s, I, a, size, atomic, v, nullptr);
    return;
  }
  if (v && v->isOp("cat") && a.off->isConst()) { // store the members separately
    for (auto it = s.mem.begin(); it != s.mem.end();)
      if (it->first.base == a.base && mayAlias(a.off, size, it->first.off, it->second.size))
        it = s.mem.erase(it);
      else
        ++it;
    for (size_t i = 0; i + 2 < v->args.size(); i += 3)
      if (v->args[i]->c + v->args[i + 1]->c <= (int64_t)size)
        store(s, I, P.addc(ptr, v->args[i]->c), v->args[i + 2], v->args[i + 1]->c, atomic, quiet);
    return;
  }
  E old = nullptr;
  auto it = s.mem.find({a.base, a.off});
  if (it != s.mem.end() && it->second.size == size)
    old = it->second.val;
  if (!quiet)
    for (auto *m : mons)
      m->onStore(s, I, a, size, atomic, v, old);
  if (s.dead)
    return;
  // elements of the same container with a different, not provably distinct index
  vector<MemKey> kill;
  for (auto &kv : s.mem) {
    if (kv.first.base == a.base) {
      if (mayAlias(a.off, size, kv.first.off, kv.second.size) && !headerVsPayload(a.base, a.off, kv.first.off))
        kill.push_back(kv.first);
    } else if (a.base->isOp("elem") && kv.first.base->isOp("elem") && kv.first.base->args[0] == a.base->args[0]) {
      E d = P.sub(kv.first.base->args[1], a.base->args[1]);
      if (!d->isConst() && simplify(s, P.eq0(d)) != P.zero && mayAlias(a.off, size, kv.first.off, kv.second.size))
        kill.push_back(kv.first);
    }
  }
  for (auto &k : kill)
    s.mem.erase(k);
  s.mem[{a.base, a.off}] = {v, size, atomic};
  // publication of a private object
  if (!privateObj(s, a.base))
    for (auto x : v->syms) {
      E sx = P.symExpr[x];
      if (P.info(sx).kind == S_MALLOC && (v == sx || v->k == K_LIN)) {
        std::deque<E> q{sx};
        while (!q.empty()) {
          E o = q.front();
          q.pop_front();
          if (s.find("~pub", o))
            continue;
          s.addMon("~pub", {o});
          for (auto *m : mons)
            m->onPublish(s, I, o);
          for (auto &m : s.mons)
            if (m.tag == "~in" && m.args[1] == o)
              q.push_back(m.args[0]);
          for (auto &kv : s.mem)
            if (kv.first.base == o && kv.second.size == 8 && kv.second.val->isSym() && P.info(kv.second.val).kind == S_MALLOC)
              q.push_back(kv.second.val);
        }
      }
    }
}

void Engine::copyMem(State &s, const Instruction *I, E dst, E src, E n, bool events) {
  Addr d = memAddr(dst), sr = memAddr(src);
  if (!d.base)
    return;
  int64_t len = n->isConst() ? n->c : -1;
  vector<std::pair<MemKey, Cell>> cells;
  if (sr.base)
    for (auto &kv : s.mem)
      if (kv.first.base == sr.base) {
        E rel = P.sub(kv.first.off, sr.off);
        if (rel->isConst() && rel->c >= 0 && (len < 0 || rel->c + (int64_t)kv.second.size <= len))
          cells.push_back({{d.base, P.add(d.off, rel)}, kv.second});
        else if (rel->isConst() && rel->c < 0 && rel->c + (int64_t)kv.second.size >= len && kv.second.val->isConst(0))
          cells.push_back({{d.base, d.off}, {P.zero, (uint32_t)len, false}});
      }
  if (events) {
    for (auto *m : mons) {
      m->onLoad(s, I, sr, len < 0 ? 0 : (uint32_t)len, false, nullptr);
      m->onStore(s, I, d, len < 0 ? 0 : (uint32_t)len, false, nullptr, nullptr);
      m->onCopy(s, I, d, sr, len);
    }
  }
  // materialise unknown 8-byte words so that both copies stay equal
  if (len > 0 && len <= 64 && sr.base) {
    std::set<int64_t> cov;
    for (auto &c : cells) {
      E rel = P.sub(c.first.off, d.off);
      if (rel->isConst())
        for (int64_t b = 0; b < (int64_t)c.second.size; b++)
          cov.insert(rel->c + b);
    }
    for (int64_t w = 0; w + 8 <= len; w += 8) {
      bool any = false;
      for (int b = 0; b < 8; b++)
        any |= cov.count(w + b) > 0;
      if (any)
        continue;
      E val = freshLoad(I, P.addc(src, w));
      Cell c{val, 8, false};
      if (!concurrent || privateObj(s, sr.base))
        s.mem[{sr.base, P.addc(sr.off, w)}] = c;
      cells.push_back({{d.base, P.addc(d.off, w)}, c});
    }
  }
  vector<MemKey> kill;
  for (auto &kv : s.mem)
    if (kv.first.base == d.base) {
      if (len < 0) {
        kill.push_back(kv.first);
        continue;
      }
      if (mayAlias(d.off, len, kv.first.off, kv.second.size))
        kill.push_back(kv.first);
    }
  for (auto &k : kill)
    s.mem.erase(k);
  if (len >= 0)
    for (auto &c : cells)
      s.mem[c.first] = c.second;
}
void Engine::killObj(State &s, E base) {
  for (auto it = s.mem.begin(); it != s.mem.end();)
    if (it->first.base == base)
      it = s.mem.erase(it);
    else
      ++it;
}

// -------------------------------------------------------------- instructions
static uint32_t tsize(Engine *e, Type *t) { return e->M->getDataLayout().getTypeStoreSize(t); }

static E extractAgg(Engine *e, E a, ArrayRef<unsigned> idx, const Instruction *I) {
  for (auto i : idx) {
    if (a->k == K_AGG && i < a->args.size())
      a = a->args[i];
    else
      a = P.op("xv" + std::to_string(i), {a});
  }
  return a;
}
static E insertAgg(E a, Type *t, ArrayRef<unsigned> idx, E v) {
  if (idx.empty())
    return v;
  vector<E> f;
  unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
  if (a->k == K_AGG)
    f = a->args;
  else
    for (unsigned i = 0; i < n; i++)
      f.push_back(a->isOp("undef") ? a : P.op("xv" + std::to_string(i), {a}));
  Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(idx[0]) : cast<ArrayType>(t)->getElementType();
  f[idx[0]] = insertAgg(f[idx[0]], et, idx.slice(1), v);
  return P.agg(f);
}
// aggregates in memory
static void storeAny(Engine *e, State &s, const Instruction *I, E p, E v, Type *t, bool atomic) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = e->M->getDataLayout().getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      storeAny(e, s, I, P.addc(p, sl->getElementOffset(i)), extractAgg(e, v, {i}, I), st->getElementType(i), atomic);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = e->M->getDataLayout().getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++)
      storeAny(e, s, I, P.addc(p, es * i), extractAgg(e, v, {i}, I), at->getElementType(), atomic);
    return;
  }
  e->store(s, I, p, v, tsize(e, t), atomic);
}
static E loadAny(Engine *e, State &s, const Instruction *I, E p, Type *t, bool atomic) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = e->M->getDataLayout().getStructLayout(st);
    vector<E> v;
    for (unsigned i = 0; i < st->getNumElements(); i++)
      v.push_back(loadAny(e, s, I, P.addc(p, sl->getElementOffset(i)), st->getElementType(i), atomic));
    return P.agg(v);
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = e->M->getDataLayout().getTypeAllocSize(at->getElementType());
    vector<E> v;
    for (unsigned i = 0; i < at->getNumElements(); i++)
      v.push_back(loadAny(e, s, I, P.addc(p, es * i), at->getElementType(), atomic));
    return P.agg(v);
  }
  return e->load(s, I, p, tsize(e, t), atomic, false, t);
}

void Engine::step(State &s, const Instruction &I) {
  nSteps++;
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    auto *AI = cast<AllocaInst>(&I);
    E a = P.sym(S_ALLOCA, &I);
    P.info(a).name = AI->getName().str();
    P.info(a).allocSize = M->getDataLayout().getTypeAllocSize(AI->getAllocatedType());
    if (auto *st = dyn_cast<StructType>(AI->getAllocatedType()))
      if (st->hasName())
        P.info(a).types.insert(stripTypeName(st->getName().str()));
    s.top().allocas.push_back(a);
    setv(s, &I, a);
    break;
  }
  case Instruction::GetElementPtr: {
    auto *g = cast<GEPOperator>(&I);
    E b = evalv(s, g->getPointerOperand());
    noteGep(this, g, b);
    setv(s, &I, P.add(b, gepOffset(this, g, [&](const Value *v) { return evalv(s, v); })));
    break;
  }
  case Instruction::Load: {
    auto *L = cast<LoadInst>(&I);
    setv(s, &I, loadAny(this, s, &I, evalv(s, L->getPointerOperand()), L->getType(), L->isAtomic()));
    break;
  }
  case Instruction::Store: {
    auto *S = cast<StoreInst>(&I);
    storeAny(this, s, &I, evalv(s, S->getPointerOperand()), evalv(s, S->getValueOperand()), S->getValueOperand()->getType(), S->isAtomic());
    break;
  }
  case Instruction::AtomicRMW: {
    auto *R = cast<AtomicRMWInst>(&I);
    E p = evalv(s, R->getPointerOperand());
    uint32_t sz = tsize(this, R->getType());
    E old = load(s, &I, p, sz, true);
    E v = evalv(s, R->getValOperand());
    E nv;
    switch (R->getOperation()) {
    case AtomicRMWInst::Xchg: nv = v; break;
    case AtomicRMWInst::Add: nv = P.add(old, v); break;
    case AtomicRMWInst::Sub: nv = P.sub(old, v); break;
    case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v); break;
    case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v); break;
    default: nv = P.sym(S_LOAD, &I);
    }
    store(s, &I, p, nv, sz, true);
    setv(s, &I, old);
    break;
  }
  case Instruction::AtomicCmpXchg:
    break; // handled by execFrom (forks)
  case Instruction::Fence:
    for (auto *m : mons)
      m->onFence(s, &I);
    break;
  case Instruction::ICmp: {
    auto *C = cast<ICmpInst>(&I);
    E a = evalv(s, C->getOperand(0)), b = evalv(s, C->getOperand(1));
    E d = P.sub(a, b), r;
    switch (C->getPredicate()) {
    case CmpInst::ICMP_EQ: r = P.eq0(normEq(d)); break;
    case CmpInst::ICMP_NE: r = P.notE(P.eq0(normEq(d))); break;
    case CmpInst::ICMP_SGE: r = P.ge0(d); break;
    case CmpInst::ICMP_SGT: r = P.ge0(P.addc(d, -1)); break;
    case CmpInst::ICMP_SLE: r = P.ge0(P.scale(d, -1)); break;
    case CmpInst::ICMP_SLT: r = P.ge0(P.addc(P.scale(d, -1), -1)); break;
    default: {
      bool huge = (a->isConst() && a->c < 0) || (b->isConst() && b->c < 0);
      if (a->isConst() && b->isConst()) {
        uint64_t x = a->c, y = b->c;
        bool t = C->getPredicate() == CmpInst::ICMP_ULT ? x < y : C->getPredicate() == CmpInst::ICMP_ULE ? x <= y : C->getPredicate() == CmpInst::ICMP_UGT ? x > y : x >= y;
        r = t ? P.one : P.zero;
      } else if (huge) {
        switch (C->getPredicate()) {
        case CmpInst::ICMP_ULT: r = P.op("ult", {a, b}); break;
        case CmpInst::ICMP_ULE: r = P.notE(P.op("ult", {b, a})); break;
        case CmpInst::ICMP_UGT: r = P.op("ult", {b, a}); break;
        default: r = P.notE(P.op("ult", {a, b}));
        }
      } else
        switch (C->getPredicate()) {
        case CmpInst::ICMP_UGE: r = P.ge0(d); break;
        case CmpInst::ICMP_UGT: r = P.ge0(P.addc(d, -1)); break;
        case CmpInst::ICMP_ULE: r = P.ge0(P.scale(d, -1)); break;
        default: r = P.ge0(P.addc(P.scale(d, -1), -1)); break;
        }
    }
    }
    setv(s, &I, r);
    break;
  }
  case Instruction::FCmp:
    setv(s, &I, P.op("fcmp", {P.cst(cast<FCmpInst>(&I)->getPredicate()), evalv(s, I.getOperand(0)), evalv(s, I.getOperand(1))}));
    break;
  case Instruction::ExtractValue:
    setv(s, &I, extractAgg(this, evalv(s, I.getOperand(0)), cast<ExtractValueInst>(&I)->getIndices(), &I));
    break;
  case Instruction::InsertValue:
    setv(s, &I, insertAgg(evalv(s, I.getOperand(0)), I.getType(), cast<InsertValueInst>(&I)->getIndices(), evalv(s, I.getOperand(1))));
    break;
  case Instruction::Trunc:
  case Instruction::ZExt:
  case Instruction::SExt:
  case Instruction::PtrToInt:
  case Instruction::IntToPtr:
  case Instruction::BitCast:
  case Instruction::Freeze: {
    E v = evalv(s, I.getOperand(0));
    if (I.getOpcode() == Instruction::ZExt && v->isConst() && v->c < 0) {
      unsigned w = I.getOperand(0)->getType()->getIntegerBitWidth();
      if (w < 64)
        v = P.cst(v->c & ((1ll << w) - 1));
    }
    if (I.getOpcode() == Instruction::Trunc && v->isConst()) {
      unsigned w = I.getType()->getIntegerBitWidth();
      if (w == 1)
        v = P.cst(v->c & 1);
      else if (w < 64)
        v = P.cst((v->c << (64 - w)) >> (64 - w));
    }
    if (I.getOpcode() == Instruction::Trunc && v->isOp("cat")) {
      int64_t w = (I.getType()->getIntegerBitWidth() + 7) / 8;
      vector<E> parts;
      bool ok = true;
      for (size_t i = 0; i + 2 < v->args.size(); i += 3) {
        int64_t o = v->args[i]->c, n = v->args[i + 1]->c;
        if (o >= w)
          continue;
        ok &= o + n <= w;
        parts.insert(parts.end(), v->args.begin() + i, v->args.begin() + i + 3);
      }
      if (!ok || parts.empty())
        v = P.sym(S_LOAD, &I);
      else if (parts.size() == 3 && parts[0]->isConst(0) && parts[1]->c == w)
        v = parts[2];
      else
        v = P.op("cat", parts);
    }
    setv(s, &I, v);
    break;
  }
  default:
    if (I.isBinaryOp() && I.getType()->isIntegerTy()) {
      E a = evalv(s, I.getOperand(0)), b = evalv(s, I.getOperand(1));
      if (I.getType()->isIntegerTy(1)) {
        if (I.getOpcode() == Instruction::Xor && b->isConst(1)) {
          setv(s, &I, P.notE(toPred(a)));
          break;
        }
        if (I.getOpcode() == Instruction::And && (a->isConst() || b->isConst())) {
          setv(s, &I, a->isConst(0) || b->isConst(0) ? P.zero : a->isConst() ? b : a);
          break;
        }
      }
      setv(s, &I, binop(s, I.getOpcode(), a, b));
      break;
    }
    if (I.getType()->isVoidTy())
      break;
    {
      vector<E> ops;
      for (auto &o : I.operands())
        ops.push_back(evalv(s, o));
      setv(s, &I, P.op(string("i:") + I.getOpcodeName(), ops));
    }
  }
}

static const char *dumpAt = getenv("IXA_DUMP"), *condAt = getenv("IXA_COND");
void dumpState(Engine *e, State &s, const Instruction *I);
void Engine::branchTo(State &s, const BasicBlock *from, const BasicBlock *to) {
  vector<std::pair<const PHINode *, E>> v;
  for (auto &phi : to->phis())
    v.push_back({&phi, evalv(s, phi.getIncomingValueForBlock(from))});
  for (auto &x : v)
    setv(s, x.first, x.second);
}

void Engine::prune(State &s, const BasicBlock *at) {
  auto &f = s.top();
  auto &live = fi(f.F).liveIn[at];
  for (auto it = f.env.begin(); it != f.env.end();) {
    bool keep = live.count(it->first) > 0;
    if (!keep)
      if (auto *p = dyn_cast<PHINode>(it->first))
        keep = p->getParent() == at;
    if (keep)
      ++it;
    else
      it = f.env.erase(it);
  }
}


static TraceP mk(const TraceP &p, const Instruction *i, bool t) {
  auto x = std::make_shared<Trace>();
  x->prev = p;
  x->inst = i;
  x->taken = t;
  return x;
}

bool Engine::heavy(const Function *F) {
  auto it = heavyMemo.find(F);
  if (it != heavyMemo.end())
    return it->second;
  heavyMemo[F] = false;
  if (isOpaque(F))
    return false;
  bool h = !fi(F).LI->empty();
  for (auto &B : *F)
    for (auto &I : B)
      if (auto *c = dyn_cast<CallBase>(&I))
        if (auto *G = c->getCalledFunction())
          if (!G->isDeclaration() && heavy(G))
            h = true;
  return heavyMemo[F] = h;
}

// states at the same program point whose typestate, flags and null pointers agree are joined
void Engine::mergeFine(vector<State> &v) {
  reduce(v);
  if (v.size() < 2)
    return;
  std::map<string, State> g;
  vector<string> order;
  for (auto &s : v) {
    auto k = fineSig(s);
    auto it = g.find(k);
    if (it == g.end()) {
      order.push_back(k);
      g.emplace(k, std::move(s));
    } else
      it->second = join(it->second, s, nullptr, false);
  }
  v.clear();
  for (auto &k : order)
    v.push_back(std::move(g.find(k)->second));
}

void Engine::execStates(vector<State> cur, const BasicBlock *B, vector<Out> &outs, vector<std::pair<State, E>> &rets) {
  auto it = B->begin();
  while (isa<PHINode>(*it))
    ++it;
  while (true) {
    const CallBase *H = nullptr;
    for (auto j = it; j != B->end() && !H; ++j)
      if (auto *c = dyn_cast<CallBase>(&*j))
        if (auto *G = c->getCalledFunction())
          if (!G->isDeclaration() && !G->isIntrinsic() && heavy(G))
            H = c;
    if (!H) {
      for (auto &s : cur)
        execFrom(std::move(s), it, B, outs, rets, nullptr, nullptr);
      return;
    }
    vector<State> at;
    for (auto &s : cur)
      execFrom(std::move(s), it, B, outs, rets, H, &at);
    if (at.empty())
      return;
    mergeFine(at);
    vector<State> res;
    doCalls(std::move(at), H, res);
    if (H->doesNotReturn() || res.empty())
      return;
    reduce(res);
    cur = std::move(res);
    it = std::next(H->getIterator());
  }
}

void Engine::execFrom(State s, BasicBlock::const_iterator it, const BasicBlock *B, vector<Out> &outs,
                      vector<std::pair<State, E>> &rets, const Instruction *stop, vector<State> *stopped) {
  for (; it != B->end(); ++it) {
    if (s.dead || overflow)
      return;
    const Instruction &I = *it;
    if (&I == stop) {
      stopped->push_back(std::move(s));
      return;
    }
    if (nSteps > maxSteps) {
      overflow = true;
      return;
    }
    if (isa<DbgInfoIntrinsic>(I))
      continue;
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      vector<State> res;
      doCall(std::move(s), CB, res);
      if (CB->doesNotReturn())
        return;
      auto nx = std::next(it);
      if (res.size() > 1)
        reduce(res);
      if (res.empty())
        return;
      if (res.size() == 1) {
        s = std::move(res[0]);
        continue;
      }
      for (auto &r : res)
        execFrom(std::move(r), nx, B, outs, rets, stop, stopped);
      return;
    }
    if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
      E p = evalv(s, cx->getPointerOperand());
      uint32_t sz = tsize(this, cx->getCompareOperand()->getType());
      E old = load(s, &I, p, sz, true);
      E eq = P.eq0(P.sub(old, evalv(s, cx->getCompareOperand())));
      State f = s;
      auto nx = std::next(it);
      if (assume(f, &I, P.notE(eq))) {
        setv(f, &I, P.agg({old, P.zero}));
        f.trace = mk(f.trace, &I, false);
        execFrom(std::move(f), nx, B, outs, rets, stop, stopped);
      }
      setv(s, &I, P.agg({old, P.one}));
      if (!assume(s, &I, eq))
        return;
      store(s, &I, p, evalv(s, cx->getNewValOperand()), sz, true);
      continue;
    }
    if (auto *sel = dyn_cast<SelectInst>(&I)) {
      E c = simplify(s, toPred(evalv(s, sel->getCondition())));
      if (c->isConst()) {
        setv(s, &I, evalv(s, c->c ? sel->getTrueValue() : sel->getFalseValue()));
        continue;
      }
      State f = s;
      auto nx = std::next(it);
      if (assume(f, &I, P.notE(c))) {
        setv(f, &I, evalv(f, sel->getFalseValue()));
        f.trace = mk(f.trace, &I, false);
        execFrom(std::move(f), nx, B, outs, rets, stop, stopped);
      }
      if (!assume(s, &I, c))
        return;
      s.trace = mk(s.trace, &I, true);
      setv(s, &I, evalv(s, sel->getTrueValue()));
      continue;
    }
    if (auto *br = dyn_cast<BranchInst>(&I)) {
      if (!br->isConditional()) {
        branchTo(s, B, br->getSuccessor(0));
        outs.push_back({std::move(s), br->getSuccessor(0)});
        return;
      }
      E c = simplify(s, toPred(evalv(s, br->getCondition())));
      if (condAt && where(&I) == condAt)
        errs() << "COND " << where(&I) << " " << P.str(toPred(evalv(s, br->getCondition()))) << " -> " << P.str(c) << "\n";
      if (condAt && getenv("IXA_CONDS") && where(&I) == condAt)
        dumpState(this, s, &I);
      if (c->isConst()) {
        auto *t = br->getSuccessor(c->c ? 0 : 1);
        branchTo(s, B, t);
        outs.push_back({std::move(s), t});
        return;
      }
      if (dumpAt && where(&I) == dumpAt) {
        dumpState(this, s, &I);
        errs() << " cond " << P.str(c) << "\n";
      }
      State f = s;
      if (assume(f, &I, P.notE(c))) {
        f.trace = mk(f.trace, &I, false);
        branchTo(f, B, br->getSuccessor(1));
        outs.push_back({std::move(f), br->getSuccessor(1)});
      }
      if (assume(s, &I, c)) {
        s.trace = mk(s.trace, &I, true);
        branchTo(s, B, br->getSuccessor(0));
        outs.push_back({std::move(s), br->getSuccessor(0)});
      }
      return;
    }
    if (auto *sw = dyn_cast<SwitchInst>(&I)) {
      E c = evalv(s, sw->getCondition());
      State d = s;
      bool dl = true;
      for (auto &cs : sw->cases()) {
        E p = P.eq0(P.addc(c, -cs.getCaseValue()->getSExtValue()));
        State x = s;
        if (assume(x, &I, p)) {
          x.trace = mk(x.trace, &I, true);
          branchTo(x, B, cs.getCaseSuccessor());
          outs.push_back({std::move(x), cs.getCaseSuccessor()});
        }
        // an earlier case may have fixed the value: evaluate it again
        if (dl && !assume(d, &I, P.notE(P.eq0(P.addc(evalv(d, sw->getCondition()), -cs.getCaseValue()->getSExtValue())))))
          dl = false;
      }
      if (dl) {
        d.trace = mk(d.trace, &I, false);
        branchTo(d, B, sw->getDefaultDest());
        outs.push_back({std::move(d), sw->getDefaultDest()});
      }
      return;
    }
    if (auto *r = dyn_cast<ReturnInst>(&I)) {
      E v = r->getReturnValue() ? evalv(s, r->getReturnValue()) : P.zero;
      rets.push_back({std::move(s), v});
      return;
    }
    if (isa<UnreachableInst>(I))
      return;
    step(s, I);
  }
}

void dumpState(Engine *e, State &s, const Instruction *I) {
  errs() << "=== state at " << e->where(I) << " " << e->fi(I->getFunction()).method << "\n";
  for (auto &m : s.mons) {
    errs() << "  @" << m.tag;
    for (auto a : m.args)
      errs() << " " << P.str(a);
    errs() << "\n";
  }
  for (auto &kv : s.mem)
    errs() << "  [" << P.str(kv.first.base) << " + " << P.str(kv.first.off) << "]:" << kv.second.size << " = " << P.str(kv.second.val) << "\n";
  for (auto f : s.facts)
    errs() << "  |= " << P.str(f) << "\n";
}
// ------------------------------------------------------------------- regions
void Engine::runRegion(const Function *F, Loop *L, vector<State> entry, vector<Out> &exits, vector<State> &back,
                       vector<std::pair<State, E>> &rets) {
  auto &f = fi(F);
  const BasicBlock *head = L ? L->getHeader() : &F->getEntryBlock();
  std::map<std::pair<int, const BasicBlock *>, vector<State>> pend;
  bool first = true;
  pend[{f.rpo[head], head}] = std::move(entry);
  while (!pend.empty()) {
    if (overflow)
      return;
    auto it = pend.begin();
    const BasicBlock *B = it->first.second;
    vector<State> sts = std::move(it->second);
    pend.erase(it);
    for (auto &s : sts)
      prune(s, B);
    reduce(sts);
    vector<Out> outs;
    Loop *BL = f.LI->getLoopFor(B);
    bool sub = BL && BL != L && BL->getHeader() == B && (!L || L->contains(BL));
    if (sub && !(first && L == BL))
      runLoop(F, BL, std::move(sts), outs, rets);
    else {
      nStates += sts.size();
      execStates(std::move(sts), B, outs, rets);
    }
    first = false;
    for (auto &o : outs) {
      if (L && o.to == head)
        back.push_back(std::move(o.s));
      else if (L && !L->contains(o.to))
        exits.push_back(std::move(o));
      else
        pend[{f.rpo[o.to], o.to}].push_back(std::move(o.s));
    }
  }
}

void Engine::runLoop(const Function *F, Loop *L, vector<State> entry, vector<Out> &exits, vector<std::pair<State, E>> &rets) {
  nLoops++;
  auto *H = L->getHeader();
  auto app = [&](vector<Out> &e, vector<std::pair<State, E>> &r) {
    for (auto &x : e)
      exits.push_back(std::move(x));
    for (auto &x : r)
      rets.push_back(std::move(x));
  };
  auto prep = [&](vector<State> &v) {
    for (auto &s : v) {
      prune(s, H);
    }
    reduce(v);
  };
  prep(entry);
  {
    auto strong = [](const State &s) {
      std::multiset<std::pair<string, vector<E>>> r;
      for (auto &m : s.mons)
        if (m.tag[0] != '~')
          r.insert({m.tag, m.args});
      return r;
    };
    std::set<std::multiset<std::pair<string, vector<E>>>> entryMons;
    for (auto &s : entry)
      entryMons.insert(strong(s));
    std::map<string, State> G;
    auto foldInto = [&](State &s, bool fine) {
      auto key = fine ? fineSig(s) : monSig(s);
      auto it = G.find(key);
      if (it == G.end())
        G.emplace(key, s);
      else
        it->second = join(it->second, s, nullptr, false);
    };
    bool fine = true;
    for (auto &s : entry)
      foldInto(s, true);
    if (G.size() > 12) {
      G.clear();
      fine = false;
      for (auto &s : entry)
        foldInto(s, false);
    }
    vector<Out> EG;
    vector<std::pair<State, E>> RG;
    bool stable = false, neutral = true;
    E mark = nullptr;
    for (int t = 0; t < 10 && !stable && neutral; t++) {
      EG.clear();
      RG.clear();
      vector<State> in, BG;
      for (auto &x : G)
        in.push_back(x.second);
      runRegion(F, L, in, EG, BG, RG);
      if (overflow)
        return;
      prep(BG);
      for (auto &b : BG)
        if (!entryMons.count(strong(b)))
          neutral = false;
      if (!neutral)
        break;
      stable = true;
      if (!mark)
        mark = P.sym(S_LOOPK);
      if (fine && t > 1 && G.size() > 12) {
        auto old = std::move(G);
        G.clear();
        fine = false;
        stable = false;
        for (auto &x : old)
          foldInto(x.second, false);
      }
      for (auto &b : BG) {
        auto key = fine ? fineSig(b) : monSig(b);
        auto it = G.find(key);
        if (it == G.end()) {
          G.emplace(key, b);
          stable = false;
          continue;
        }
        if (this->sub(it->second, b, (uint32_t)mark->c))
          continue;
        stable = false;
        it->second = join(it->second, b, nullptr, false);
      }
      if (verbose > 1)
        errs() << "  nloop " << where(H->getTerminator()) << " iter " << t << " G=" << G.size() << " BG=" << BG.size()
               << (stable ? " stable" : "") << "\n";
    }
    if (neutral && stable) {
      app(EG, RG);
      return;
    }
    if (neutral && verbose)
      errs() << "neutral loop did not stabilise: " << where(H->getTerminator()) << " in " << fi(F).strip << "\n";
  }
  std::unordered_set<string> seen;
  for (auto &s : entry) {
    gc(s);
    seen.insert(canon(s));
  }
  vector<Out> E0;
  vector<std::pair<State, E>> R0;
  vector<State> B1;
  runRegion(F, L, entry, E0, B1, R0);
  prep(B1);
  auto filter = [&](vector<State> &v) {
    vector<State> r;
    for (auto &s : v)
      if (!seen.count(canon(s)))
        r.push_back(std::move(s));
    v = std::move(r);
  };
  filter(B1);
  if (B1.empty()) {
    app(E0, R0);
    return;
  }
  for (auto &s : B1)
    seen.insert(canon(s));
  vector<Out> E1;
  vector<std::pair<State, E>> R1;
  vector<State> B2;
  runRegion(F, L, B1, E1, B2, R1);
  prep(B2);
  auto B2all = B2;
  filter(B2);
  if (B2.empty()) {
    app(E0, R0);
    app(E1, R1);
    return;
  }
  E k = P.sym(S_LOOPK);
  markJoinSym(k);
  std::map<string, State> G;
  auto fold = [&](vector<State> &v) {
    std::map<string, State> g;
    for (auto &s : v) {
      auto key = monSig(s);
      auto it = g.find(key);
      if (it == g.end())
        g.emplace(key, s);
      else
        it->second = join(it->second, s, nullptr, false);
    }
    return g;
  };
  auto j1 = fold(B1), j2 = fold(B2all);
  for (auto &x : j1) {
    auto it = j2.find(x.first);
    if (it == j2.end())
      G.emplace(x.first, x.second);
    else
      G.emplace(x.first, join(x.second, it->second, k, true));
  }
  for (auto &x : j2)
    if (!G.count(x.first))
      G.emplace(x.first, x.second);
  vector<Out> EG;
  vector<std::pair<State, E>> RG;
  int t = 0;
  bool stable = false;
  for (; t < 14 && !stable; t++) {
    EG.clear();
    RG.clear();
    vector<State> in, BG;
    for (auto &x : G)
      in.push_back(x.second);
    runRegion(F, L, in, EG, BG, RG);
    if (overflow)
      return;
    prep(BG);
    stable = true;
    for (auto &b : BG) {
      auto key = monSig(b);
      auto it = G.find(key);
      if (it == G.end()) {
        G.emplace(key, b);
        stable = false;
        if (verbose > 1)
          errs() << "  loop " << where(H->getTerminator()) << " new sig " << key << "\n";
        continue;
      }
      if (this->sub(it->second, b, (uint32_t)k->c))
        continue;
      stable = false;
      State bb = b;
      E km = P.addc(k, -1);
      substState(bb, k->c, km);
      it->second = join(it->second, bb, k, false);
    }
    if (verbose > 1)
      errs() << "  loop " << where(H->getTerminator()) << " iter " << t << " G=" << G.size() << " BG=" << BG.size()
             << (stable ? " stable" : "") << "\n";
  }
  if (!stable) {
    for (auto &g : G)
      for (auto *m : mons)
        m->onDiverge(g.second, H->getTerminator());
    overflow = true;
    if (verbose)
      errs() << "loop did not stabilise: " << where(H->getTerminator()) << " in " << fi(F).strip << "\n";
  }
  app(E0, R0);
  app(EG, RG);
  // E1 is covered by EG (B1 is an instance of G)
}

void Engine::runFunction(vector<State> in, const Function *F, vector<std::pair<State, E>> &out) {
  analysedFns.insert(fi(F).strip);
  vector<Out> ex;
  vector<State> back;
  vector<std::pair<State, E>> rets;
  runRegion(F, nullptr, std::move(in), ex, back, rets);
  for (auto &r : rets)
    out.push_back(std::move(r));
}

void Engine::finish(State &s, const CallBase *CB, E ret, vector<State> &outs) {
  if (!CB->getType()->isVoidTy())
    setv(s, CB, ret);
  outs.push_back(std::move(s));
}

void Engine::doCall(State s, const CallBase *CB, vector<State> &outs) {
  vector<State> in;
  in.push_back(std::move(s));
  doCalls(std::move(in), CB, outs);
}
void Engine::doCalls(vector<State> ss, const CallBase *CB, vector<State> &outs) {
  std::map<const Function *, vector<State>> in;
  for (auto &s : ss)
    enterCall(std::move(s), CB, outs, in);
  for (auto &g : in) {
    auto *F = g.first;
    auto &info = fi(F);
    vector<std::pair<State, E>> res;
    runFunction(std::move(g.second), F, res);
    vector<State> done;
    for (auto &[rs, rv] : res) {
      std::set<E> dead(rs.top().allocas.begin(), rs.top().allocas.end());
      for (auto it = rs.mem.begin(); it != rs.mem.end();)
        if (dead.count(it->first.base))
          it = rs.mem.erase(it);
        else
          ++it;
      rs.frames.pop_back();
      if (!CB->getType()->isVoidTy())
        setv(rs, CB, rv);
      for (auto *m : mons)
        m->onLeave(rs, CB, info.strip, rv);
      if (rs.dead)
        continue;
      done.push_back(std::move(rs));
    }
    if (heavy(F))
      mergeFine(done);
    else
      reduce(done);
    for (auto &d : done)
      outs.push_back(std::move(d));
  }
}
void Engine::enterCall(State s, const CallBase *CB, vector<State> &outs, std::map<const Function *, vector<State>> &pending) {
  const DataLayout &DL = M->getDataLayout();
  E cal = evalv(s, CB->getCalledOperand());
  const Function *F = CB->getCalledFunction();
  if (!F && cal->isSym() && P.info(cal).kind == S_GLOBAL)
    F = M->getFunction(P.info(cal).name);
  vector<E> args;
  for (auto &a : CB->args())
    args.push_back(isa<MetadataAsValue>(a) ? P.zero : evalv(s, a));
  if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
      copyMem(s, CB, args[0], args[1], args[2]);
      outs.push_back(std::move(s));
      return;
    case Intrinsic::memset: {
      Addr a = memAddr(args[0]);
      if (args[2]->isConst() && a.base)
        store(s, CB, args[0], args[1]->isConst(0) ? P.zero : P.sym(S_LOAD, CB), args[2]->c, false);
      else if (a.base) {
        for (auto *m : mons)
          m->onStore(s, CB, a, 0, false, nullptr, nullptr);
        killObj(s, a.base);
      }
      outs.push_back(std::move(s));
      return;
    }
    case Intrinsic::expect:
      finish(s, CB, args[0], outs);
      return;
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
      if (args[1]->isSym() && P.info(args[1]).kind == S_ALLOCA)
        killObj(s, args[1]);
      outs.push_back(std::move(s));
      return;
    case Intrinsic::assume:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
      outs.push_back(std::move(s));
      return;
    case Intrinsic::trap:
      return;
    case Intrinsic::smin:
    case Intrinsic::smax:
    case Intrinsic::umin:
    case Intrinsic::umax: {
      bool mn = II->getIntrinsicID() == Intrinsic::smin || II->getIntrinsicID() == Intrinsic::umin;
      E c = P.ge0(P.sub(args[0], args[1]));
      State f = s;
      if (assume(f, CB, P.notE(c)))
        finish(f, CB, evalv(f, II->getArgOperand(mn ? 0 : 1)), outs);
      if (assume(s, CB, c))
        finish(s, CB, evalv(s, II->getArgOperand(mn ? 1 : 0)), outs);
      return;
    }
    default:
      finish(s, CB, P.op(string("x:") + Intrinsic::getBaseName(II->getIntrinsicID()).str(), args), outs);
      return;
    }
  }
  if (!F) {
    // unknown indirect target
    for (auto *m : mons)
      if (m->onCall(s, CB, "<indirect>", args, outs))
        return;
    E r = P.sym(S_CALL, CB);
    P.info(r).callee = "<indirect>";
    finish(s, CB, r, outs);
    return;
  }
  auto &info = fi(F);
  // pointer-to-class parameters give type knowledge
  if (auto *sp = F->getSubprogram())
    if (auto *ty = sp->getType()) {
      auto ta = ty->getTypeArray();
      unsigned base = F->hasStructRetAttr() ? 1 : 0;
      if (ta.size() > 1 && F->arg_size() > base && !args.empty()) {
        if (auto *d = dyn_cast_or_null<DIDerivedType>(ta[1]))
          if (d->isArtificial() || d->getTag() == dwarf::DW_TAG_pointer_type)
            if (auto *c = dyn_cast_or_null<DICompositeType>(stripTypedef(d->getBaseType())))
              if (base < args.size())
                noteType(args[base], diFullName(c));
      }
    }
  for (auto *m : mons) {
    if (m->onCall(s, CB, info.strip, args, outs))
      return;
    if (s.dead)
      return;
  }
  if (libModel && libModel(s, CB, info.strip, info.dem, args, outs))
    return;
  int rec = 0;
  for (auto &fr : s.frames)
    rec += fr.F == F;
  if (!isOpaque(F) && rec <= unroll && s.frames.size() < 60) {
    for (auto *m : mons)
      m->onEnter(s, CB, info.strip, args);
    // keep only what the caller still needs
    {
      auto &live = fi(s.top().F).liveIn;
      std::set<const Value *> keep;
      const BasicBlock *B = CB->getParent();
      for (auto *S : successors(B)) {
        for (auto *v : live[S])
          keep.insert(v);
        for (auto &phi : S->phis())
          keep.insert(phi.getIncomingValueForBlock(B));
      }
      for (auto it = std::next(CB->getIterator()); it != B->end(); ++it)
        for (auto &o : it->operands())
          keep.insert(o);
      auto &env = s.top().env;
      for (auto it = env.begin(); it != env.end();)
        if (keep.count(it->first))
          ++it;
        else
          it = env.erase(it);
    }
    Frame nf;
    nf.F = F;
    nf.call = CB;
    size_t i = 0;
    for (auto &a : F->args()) {
      E v = i < args.size() ? args[i] : P.zero;
      if (a.hasByValAttr() && i < args.size()) {
        E c = P.sym(S_ALLOCA, CB);
        P.info(c).name = "byval";
        nf.allocas.push_back(c);
        E len = P.cst(DL.getTypeAllocSize(a.getParamByValType()));
        copyMem(s, CB, c, v, len, false);
        v = c;
      }
      nf.env[&a] = v;
      i++;
    }
    s.frames.push_back(std::move(nf));
    pending[F].push_back(std::move(s));
    return;
  }
  // opaque
  opaqueSeen.insert(info.strip);
  if (F->doesNotReturn() || CB->doesNotReturn())
    return;
  bool pure = F->onlyReadsMemory() || F->doesNotAccessMemory();
  if (rec)
    for (auto *m : mons)
      m->onRecursion(s, CB, info.strip, args);
  if (s.dead)
    return;
  if (F->isDeclaration())
    for (size_t i = 0; i < args.size() && i < CB->arg_size(); i++)
      if (CB->getArgOperand(i)->getType()->isPointerTy()) {
        Addr a = memAddr(args[i]);
        if (a.base)
          for (auto *m : mons)
            m->onOpaqueArg(s, CB, a);
        if (s.dead)
          return;
      }
  if (!pure) {
    for (size_t i = 0; i < args.size(); i++) {
      Addr a = memAddr(args[i]);
      if (a.base && a.base->isSym() && privateObj(s, a.base)) {
        bool ro = i < CB->arg_size() && CB->paramHasAttr(i, Attribute::ReadOnly);
        // parameters of type const T& are read-only unless cast
        if (!ro && CB->getArgOperand(i)->getType()->isPointerTy()) {
          bool cst = false;
          int64_t sz = 0;
          if (auto *sp = F->getSubprogram())
            if (auto *ty = sp->getType()) {
              auto ta = ty->getTypeArray();
              size_t idx = i + 1;
              if (F->hasStructRetAttr())
                idx = i;
              if (idx < ta.size())
                if (auto *d = dyn_cast_or_null<DIDerivedType>(ta[idx]))
                  if (auto *bt = d->getBaseType()) {
                    if (bt->getTag() == dwarf::DW_TAG_const_type)
                      cst = true;
                    if (auto *c = dyn_cast_or_null<DICompositeType>(stripTypedef(const_cast<DIType *>(bt))))
                      if (d->isArtificial() || d->getTag() != dwarf::DW_TAG_pointer_type)
                        sz = c->getSizeInBits() / 8;
                  }
            }
          if (!cst && sz > 0 && a.off->isConst()) { // only the member object is written
            for (auto it = s.mem.begin(); it != s.mem.end();)
              if (it->first.base == a.base && !(it->first.off->isConst() && (it->first.off->c + (int64_t)it->second.size <= a.off->c || it->first.off->c >= a.off->c + sz)))
                it = s.mem.erase(it);
              else
                ++it;
          } else if (!cst)
            killObj(s, a.base);
        }
      }
    }
  }
  if (CB->getType()->isVoidTy()) {
    outs.push_back(std::move(s));
    return;
  }
  E r;
  if (pure || info.strip == "operator<" || info.strip == "operator==") {
    r = P.op("call:" + info.strip, args);
    if (CB->getType()->isIntegerTy(1)) {
      // keep as an uninterpreted predicate
      r = P.op("bit", {r, P.zero});
      r = P.notE(P.eq0(r));
    }
  } else {
    r = P.sym(S_CALL, CB);
    P.info(r).callee = info.strip;
    P.info(r).args = args;
  }
  finish(s, CB, r, outs);
}

void Engine::runRoot(const Function *F) {
  curRoot = F->getName().str();
  State s;
  Frame f;
  f.F = F;
  int i = 0;
  for (auto &a : F->args()) {
    E e;
    if (a.hasStructRetAttr()) {
      e = P.sym(S_ALLOCA);
      P.info(e).name = "sret";
      f.allocas.push_back(e);
    } else {
      e = P.sym(S_ARG);
      P.info(e).name = curRoot + "." + a.getName().str() + std::to_string(i);
      if (a.getType()->isPointerTy())
        s.facts.insert(P.ge0(P.addc(e, -1)));
    }
    f.env[&a] = e;
    i++;
  }
  s.frames.push_back(std::move(f));
  // parameter types
  if (auto *sp = F->getSubprogram())
    if (auto *ty = sp->getType()) {
      auto ta = ty->getTypeArray();
      unsigned ai = F->hasStructRetAttr() ? 1 : 0;
      for (unsigned j = 1; j < ta.size(); j++, ai++)
        if (auto *d = dyn_cast_or_null<DIDerivedType>(stripTypedef(ta[j])))
          if (auto *c = dyn_cast_or_null<DICompositeType>(stripTypedef(d->getBaseType())))
            if (ai < F->arg_size())
              noteType(s.top().env[F->getArg(ai)], diFullName(c));
    }
  for (auto *m : mons)
    m->onStart(s);
  vector<State> in;
  in.push_back(std::move(s));
  vector<std::pair<State, E>> out;
  runFunction(std::move(in), F, out);
  nReturns = out.size();
  for (auto &[rs, rv] : out)
    for (auto *m : mons)
      m->onReturn(rs, rv, curRoot);
}
} // namespace ixa
