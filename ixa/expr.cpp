#include "expr.h"
#include <algorithm>
namespace ixa {
Pool P;

Pool::Pool() {
  zero = cst(0);
  one = cst(1);
}

static std::string keyOf(const Expr &e) {
  std::string s;
  s += char('0' + e.k);
  s += std::to_string(e.c);
  for (auto &t : e.terms) {
    s += ',';
    s += std::to_string(t.first->id);
    s += '*';
    s += std::to_string(t.second);
  }
  s += '|';
  s += e.op;
  for (auto a : e.args) {
    s += ';';
    s += std::to_string(a->id);
  }
  return s;
}

E Pool::intern(Expr &&e) {
  std::string k = keyOf(e);
  auto it = tab.find(k);
  if (it != tab.end())
    return it->second;
  std::set<uint32_t> ss;
  if (e.k == K_SYM)
    ss.insert((uint32_t)e.c);
  for (auto &t : e.terms)
    ss.insert(t.first->syms.begin(), t.first->syms.end());
  for (auto a : e.args)
    ss.insert(a->syms.begin(), a->syms.end());
  e.syms.assign(ss.begin(), ss.end());
  auto *n = new Expr(std::move(e));
  n->id = all.size();
  all.push_back(n);
  tab.emplace(std::move(k), n);
  return n;
}

E Pool::cst(int64_t v) {
  Expr e;
  e.k = K_CONST;
  e.c = v;
  return intern(std::move(e));
}

E Pool::sym(SymKind k, const llvm::Instruction *i) {
  Expr e;
  e.k = K_SYM;
  e.c = (int64_t)symInfo.size();
  SymInfo si;
  si.kind = k;
  si.inst = i;
  symInfo.push_back(std::move(si));
  E r = intern(std::move(e));
  symExpr.push_back(r);
  return r;
}

E Pool::global(const llvm::GlobalValue *g) {
  auto &r = globals[g];
  if (!r) {
    r = sym(S_GLOBAL);
    info(r).name = g->getName().str();
  }
  return r;
}

E Pool::op(const std::string &o, std::vector<E> a) {
  Expr e;
  e.k = K_OP;
  e.op = o;
  e.args = std::move(a);
  return intern(std::move(e));
}
E Pool::agg(std::vector<E> a) {
  Expr e;
  e.k = K_AGG;
  e.args = std::move(a);
  return intern(std::move(e));
}

E Pool::lin(int64_t c, std::vector<std::pair<E, int64_t>> t) {
  std::sort(t.begin(), t.end(),
            [](auto &a, auto &b) { return a.first->id < b.first->id; });
  std::vector<std::pair<E, int64_t>> u;
  for (auto &x : t) {
    if (!u.empty() && u.back().first == x.first)
      u.back().second += x.second;
    else
      u.push_back(x);
  }
  u.erase(std::remove_if(u.begin(), u.end(),
                         [](auto &x) { return x.second == 0; }),
          u.end());
  if (u.empty())
    return cst(c);
  if (c == 0 && u.size() == 1 && u[0].second == 1)
    return u[0].first;
  Expr e;
  e.k = K_LIN;
  e.c = c;
  e.terms = std::move(u);
  return intern(std::move(e));
}

static void explode(E a, int64_t s, int64_t &c,
                    std::vector<std::pair<E, int64_t>> &t) {
  if (a->k == K_CONST)
    c += a->c * s;
  else if (a->k == K_LIN) {
    c += a->c * s;
    for (auto &x : a->terms)
      t.push_back({x.first, x.second * s});
  } else
    t.push_back({a, s});
}

E Pool::add(E a, E b, int64_t s) {
  if (a->k == K_CONST && b->k == K_CONST)
    return cst((int64_t)((uint64_t)a->c + (uint64_t)b->c * (uint64_t)s));
  int64_t c = 0;
  std::vector<std::pair<E, int64_t>> t;
  explode(a, 1, c, t);
  explode(b, s, c, t);
  return lin(c, std::move(t));
}
E Pool::scale(E a, int64_t s) {
  int64_t c = 0;
  std::vector<std::pair<E, int64_t>> t;
  explode(a, s, c, t);
  return lin(c, std::move(t));
}
E Pool::divExact(E a, int64_t s) {
  int64_t c = 0;
  std::vector<std::pair<E, int64_t>> t;
  explode(a, 1, c, t);
  if (s == 0 || c % s)
    return nullptr;
  for (auto &x : t) {
    if (x.second % s)
      return nullptr;
    x.second /= s;
  }
  return lin(c / s, std::move(t));
}

E Pool::ge0(E a) {
  if (a->k == K_CONST)
    return a->c >= 0 ? one : zero;
  // normalise by gcd of the coefficients
  if (a->k == K_LIN) {
    int64_t g = 0;
    for (auto &x : a->terms) {
      int64_t v = std::llabs(x.second);
      while (v) {
        int64_t q = g % v;
        g = v;
        v = q;
      }
    }
    if (g > 1) {
      auto t = a->terms;
      for (auto &x : t)
        x.second /= g;
      int64_t c = a->c;
      int64_t q = c >= 0 ? c / g : -((-c + g - 1) / g); // floor
      a = lin(q, t);
    }
  }
  return op("ge0", {a});
}
E Pool::eq0(E a) {
  if (a->k == K_CONST)
    return a->c == 0 ? one : zero;
  if (a->k == K_LIN) {
    int64_t g = 0;
    for (auto &x : a->terms) {
      int64_t v = std::llabs(x.second);
      while (v) {
        int64_t q = g % v;
        g = v;
        v = q;
      }
    }
    if (g > 1) {
      if (a->c % g)
        return zero;
      auto t = a->terms;
      for (auto &x : t)
        x.second /= g;
      a = lin(a->c / g, t);
    }
  }
  if (a->k == K_LIN && a->terms[0].second < 0)
    a = scale(a, -1);
  return op("eq0", {a});
}
E Pool::notE(E a) {
  if (a->k == K_CONST)
    return a->c ? zero : one;
  if (a->isOp("not"))
    return a->args[0];
  if (a->isOp("ge0"))
    return ge0(addc(scale(a->args[0], -1), -1));
  return op("not", {a});
}

E Pool::subst(E e, const std::unordered_map<uint32_t, E> &m,
              std::unordered_map<E, E> &memo) {
  bool any = false;
  for (auto s : e->syms)
    if (m.count(s)) {
      any = true;
      break;
    }
  if (!any)
    return e;
  auto it = memo.find(e);
  if (it != memo.end())
    return it->second;
  E r;
  switch (e->k) {
  case K_CONST:
    r = e;
    break;
  case K_SYM:
    r = m.at((uint32_t)e->c);
    break;
  case K_LIN: {
    r = cst(e->c);
    for (auto &t : e->terms)
      r = add(r, subst(t.first, m, memo), t.second);
    break;
  }
  case K_AGG: {
    std::vector<E> a;
    for (auto x : e->args)
      a.push_back(subst(x, m, memo));
    r = agg(std::move(a));
    break;
  }
  default: {
    std::vector<E> a;
    for (auto x : e->args)
      a.push_back(subst(x, m, memo));
    if (e->op == "ge0")
      r = ge0(a[0]);
    else if (e->op == "eq0")
      r = eq0(a[0]);
    else if (e->op == "not")
      r = notE(a[0]);
    else
      r = op(e->op, std::move(a));
  }
  }
  memo[e] = r;
  return r;
}

std::string Pool::str(E e) const {
  if (!e)
    return "<null>";
  switch (e->k) {
  case K_CONST:
    return std::to_string(e->c);
  case K_SYM: {
    auto &si = symInfo[e->c];
    static const char *nm[] = {"loc", "new", "arg", "ld",  "ret",
                               "@",   "u",   "k",   "w"};
    return std::string(nm[si.kind]) + (si.name.empty() ? "" : ":" + si.name) +
           "#" + std::to_string(e->c);
  }
  case K_LIN: {
    std::string s;
    for (auto &t : e->terms) {
      if (!s.empty())
        s += "+";
      if (t.second != 1)
        s += std::to_string(t.second) + "*";
      s += str(t.first);
    }
    if (e->c)
      s += (e->c > 0 ? "+" : "") + std::to_string(e->c);
    return s;
  }
  default: {
    std::string s = e->op + (e->k == K_AGG ? "{" : "(");
    for (size_t i = 0; i < e->args.size(); i++)
      s += (i ? "," : "") + str(e->args[i]);
    return s + (e->k == K_AGG ? "}" : ")");
  }
  }
}

static bool isPtrAtom(E a) {
  if (a->k == K_SYM)
    return true;
  if (a->k == K_OP)
    return a->op == "elem";
  return false;
}

Addr splitAddr(E p) {
  if (p->k == K_SYM || p->k == K_OP)
    return {p, P.zero};
  if (p->k == K_CONST)
    return {nullptr, p};
  if (p->k == K_LIN) {
    // base: a pointer-like atom with coefficient 1. Prefer known objects.
    E best = nullptr;
    int bestScore = -1;
    for (auto &t : p->terms) {
      if (t.second != 1 || !isPtrAtom(t.first))
        continue;
      int sc = 1;
      if (t.first->k == K_SYM) {
        auto &si = P.symInfo[t.first->c];
        if (si.kind == S_ALLOCA || si.kind == S_MALLOC || si.kind == S_GLOBAL)
          sc = 5;
        else if (!si.types.empty())
          sc = 4;
        else if (si.name == "ptr")
          sc = 3;
      } else
        sc = 4;
      if (sc > bestScore) {
        bestScore = sc;
        best = t.first;
      }
    }
    if (best)
      return {best, P.sub(p, best)};
    return {nullptr, p};
  }
  return {nullptr, p};
}
} // namespace ixa
