// Canonical forms, garbage collection, joins and subsumption of abstract states.
#include "state.h"
#include <numeric>
#include <algorithm>
#include <deque>
namespace ixa {
using std::string;
using std::vector;

static std::unordered_set<uint32_t> joinSyms; // pattern variables introduced by joins
void markJoinSym(E e) { joinSyms.insert((uint32_t)e->c); }
bool isJoinSym(E e) { return e->isSym() && joinSyms.count((uint32_t)e->c); }

// ---------------------------------------------------------------- shape / canon
static string shape(E e, int d = 0) {
  switch (e->k) {
  case K_CONST:
    return std::to_string(e->c);
  case K_SYM: {
    auto &si = P.symInfo[e->c];
    return "s" + std::to_string((int)si.kind) + "_" +
           std::to_string((uintptr_t)si.inst & 0xffffff);
  }
  case K_LIN: {
    vector<string> v;
    for (auto &t : e->terms)
      v.push_back(std::to_string(t.second) + shape(t.first, d + 1));
    std::sort(v.begin(), v.end());
    string r = "L" + std::to_string(e->c);
    for (auto &x : v)
      r += "+" + x;
    return r;
  }
  default: {
    string r = e->op + "(";
    for (auto a : e->args)
      r += shape(a, d + 1) + ",";
    return r + ")";
  }
  }
}

struct Canon {
  const State &s;
  std::unordered_map<uint32_t, int> num;
  std::vector<uint32_t> order;
  std::unordered_map<E, vector<const std::pair<const MemKey, Cell> *>> byBase;
  vector<E> opBases;
  std::unordered_set<E> doneBase;
  string out;
  Canon(const State &st) : s(st) {
    for (auto &kv : s.mem) {
      auto &v = byBase[kv.first.base];
      if (v.empty() && !kv.first.base->isSym())
        opBases.push_back(kv.first.base);
      v.push_back(&kv);
    }
  }
  void put(E e) {
    switch (e->k) {
    case K_CONST:
      out += '#';
      out += std::to_string(e->c);
      break;
    case K_SYM: {
      auto it = num.find(e->c);
      if (it == num.end()) {
        int n = num.size();
        num[e->c] = n;
        order.push_back(e->c);
        auto &si = P.symInfo[e->c];
        out += '$';
        out += std::to_string(n);
        out += "k";
        out += std::to_string((int)si.kind);
        if (si.kind == S_GLOBAL || si.kind == S_ARG)
          out += si.name;
        if (si.aux) {
          out += '[';
          put(si.aux);
          out += ']';
        }
      } else {
        out += '$';
        out += std::to_string(it->second);
      }
      break;
    }
    case K_LIN: {
      vector<std::pair<string, std::pair<E, int64_t>>> v;
      for (auto &t : e->terms) {
        string k = std::to_string(t.second);
        if (t.first->isSym() && num.count(t.first->c))
          k += "n" + std::to_string(num[t.first->c]);
        else
          k += "z" + shape(t.first);
        v.push_back({k, t});
      }
      std::sort(v.begin(), v.end(), [](auto &a, auto &b) {
        return a.first != b.first ? a.first < b.first : a.second.first->id < b.second.first->id;
      });
      out += 'L';
      out += std::to_string(e->c);
      for (auto &x : v) {
        out += '+';
        out += std::to_string(x.second.second);
        out += '*';
        put(x.second.first);
      }
      out += ';';
      break;
    }
    default:
      out += e->op;
      out += '(';
      for (auto a : e->args) {
        put(a);
        out += ',';
      }
      out += ')';
    }
  }
  bool known(E e) {
    for (auto x : e->syms)
      if (!num.count(x))
        return false;
    return true;
  }
  void putBase(E b) {
    if (!doneBase.insert(b).second)
      return;
    auto it = byBase.find(b);
    if (it == byBase.end())
      return;
    out += "\nM";
    put(b);
    vector<std::pair<string, const std::pair<const MemKey, Cell> *>> v;
    for (auto *c : it->second)
      v.push_back({c->first.off->isConst()
                       ? "c" + string(12 - std::min<size_t>(12, std::to_string(c->first.off->c).size()), '0') + std::to_string(c->first.off->c)
                       : "v" + shape(c->first.off),
                   c});
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &x : v) {
      out += '|';
      put(x.second->first.off);
      out += ':';
      out += std::to_string(x.second->second.size);
      out += '=';
      put(x.second->second.val);
    }
  }
};

static vector<Mon> sortedMons(const State &s) {
  vector<std::pair<string, Mon>> v;
  for (auto &m : s.mons) {
    string k = m.tag + "/";
    for (auto a : m.args)
      k += shape(a) + ",";
    v.push_back({k, m});
  }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  vector<Mon> r;
  for (auto &x : v)
    r.push_back(x.second);
  return r;
}

static vector<const Value *> envKeys(Engine *e, const Frame &f) {
  auto &fi = e->fi(f.F);
  vector<std::pair<int, const Value *>> v;
  for (auto &kv : f.env)
    v.push_back({fi.num[kv.first], kv.first});
  std::sort(v.begin(), v.end());
  vector<const Value *> r;
  for (auto &x : v)
    r.push_back(x.second);
  return r;
}

string Engine::canon(const State &s) {
  Canon c(s);
  for (auto &f : s.frames) {
    c.out += "\nF" + std::to_string((uintptr_t)f.call);
    auto &fi_ = fi(f.F);
    for (auto *v : envKeys(this, f)) {
      c.out += ' ';
      c.out += std::to_string(fi_.num[v]);
      c.out += '=';
      c.put(f.env.at(v));
    }
  }
  for (auto &m : sortedMons(s)) {
    c.out += "\n@" + m.tag;
    for (auto a : m.args) {
      c.out += ' ';
      c.put(a);
    }
  }
  size_t i = 0;
  bool again = true;
  while (again) {
    again = false;
    while (i < c.order.size()) {
      c.putBase(P.symExpr[c.order[i]]);
      i++;
    }
    for (auto b : c.opBases)
      if (!c.doneBase.count(b) && c.known(b)) {
        c.putBase(b);
        again = true;
        break;
      }
  }
  vector<string> fs;
  for (auto f : s.facts)
    if (c.known(f)) {
      string save = std::move(c.out);
      c.out.clear();
      c.put(f);
      fs.push_back(c.out);
      c.out = std::move(save);
    }
  std::sort(fs.begin(), fs.end());
  for (auto &f : fs)
    c.out += "\n?" + f;
  return c.out;
}

// objects among `objs` that nothing but their own ownership tag refers to
vector<E> Engine::unreferenced(State &s, const vector<E> &objs) {
  std::unordered_set<uint32_t> reach;
  auto addE = [&](E e) {
    for (auto x : e->syms)
      reach.insert(x);
  };
  for (auto &f : s.frames)
    for (auto &kv : f.env)
      addE(kv.second);
  for (auto &m : s.mons)
    if (m.tag.compare(0, 4, "OWN/") && m.tag[0] != '~')
      for (auto a : m.args)
        addE(a);
  std::set<const MemKey *> done;
  for (bool again = true; again;) {
    again = false;
    for (auto &kv : s.mem) {
      if (done.count(&kv.first))
        continue;
      bool ok = true;
      for (auto x : kv.first.base->syms)
        ok = ok && reach.count(x);
      if (ok) {
        done.insert(&kv.first);
        addE(kv.first.off);
        addE(kv.second.val);
        again = true;
      }
    }
  }
  vector<E> r;
  for (auto o : objs) {
    bool in = false;
    for (auto x : o->syms)
      in = in || reach.count(x);
    if (!in)
      r.push_back(o);
  }
  return r;
}

void Engine::gc(State &s) {
  std::unordered_set<uint32_t> reach;
  std::vector<uint32_t> work;
  auto addE = [&](E e) {
    for (auto x : e->syms)
      if (reach.insert(x).second)
        work.push_back(x);
  };
  for (auto &f : s.frames)
    for (auto &kv : f.env)
      addE(kv.second);
  for (auto &m : s.mons)
    if (m.tag[0] != '~') // '~' tags are weak
      for (auto a : m.args)
        addE(a);
  bool again = true;
  std::set<const MemKey *> done;
  while (again) {
    again = false;
    for (auto &kv : s.mem) {
      if (done.count(&kv.first))
        continue;
      bool ok = true;
      for (auto x : kv.first.base->syms)
        if (!reach.count(x)) {
          ok = false;
          break;
        }
      if (ok) {
        done.insert(&kv.first);
        size_t n = reach.size();
        addE(kv.first.off);
        addE(kv.second.val);
        if (reach.size() != n)
          again = true;
      }
    }
    for (auto &m : s.mons)
      if (m.tag == "~maxtid") {
        size_t n = reach.size();
        addE(m.args[0]);
        again |= reach.size() != n;
      } else if (m.tag == "~vsize" || m.tag == "~cov" || m.tag.compare(0, 4, "~sum") == 0) {
        bool ok = true;
        for (auto x : m.args[0]->syms)
          ok = ok && reach.count(x);
        if (ok) {
          size_t n = reach.size();
          for (auto a : m.args)
            addE(a);
          if (reach.size() != n)
            again = true;
        }
      }
  }
  for (auto it = s.mem.begin(); it != s.mem.end();)
    if (!done.count(&it->first))
      it = s.mem.erase(it);
    else
      ++it;
  auto in = [&](E e) {
    for (auto x : e->syms)
      if (!reach.count(x))
        return false;
    return true;
  };
  for (auto it = s.facts.begin(); it != s.facts.end();)
    if (!in(*it))
      it = s.facts.erase(it);
    else
      ++it;
  vector<Mon> mv;
  for (auto &m : s.mons) {
    bool ok = true;
    if (m.tag[0] == '~')
      for (auto a : m.args)
        ok = ok && in(a);
    if (ok)
      mv.push_back(m);
  }
  s.mons = mv;
}

string Engine::monSig(const State &s) {
  string r;
  for (auto &f : s.frames)
    r += std::to_string((uintptr_t)f.call) + "/";
  vector<string> v;
  for (auto &m : s.mons)
    if (m.tag[0] != '~')
      v.push_back(m.tag);
  std::sort(v.begin(), v.end());
  for (auto &x : v)
    r += x + ",";
  return r;
}

bool Engine::joinable(const State &a, const State &b) { return monSig(a) == monSig(b); }

// ------------------------------------------------------------------- join
struct AU {
  Engine *eng;
  const State &a, &b;
  State r;
  E k;
  bool affine;
  bool widened = false;
  std::map<std::pair<E, E>, E> memo;
  std::deque<std::tuple<E, E, E>> q;
  std::set<std::tuple<E, E, E>> seen;
  std::vector<std::pair<E, E>> vecPairs;
  std::unordered_map<E, std::map<MemKey, Cell>> memA, memB;

  AU(Engine *e, const State &x, const State &y, E kk, bool af)
      : eng(e), a(x), b(y), k(kk), affine(af) {
    for (auto &kv : a.mem)
      memA[kv.first.base][kv.first] = kv.second;
    for (auto &kv : b.mem)
      memB[kv.first.base][kv.first] = kv.second;
  }
  void enq(E x, E y, E z) {
    auto t = std::make_tuple(x, y, z);
    if (seen.insert(t).second)
      q.push_back(t);
  }
  void touch(E e) { // equal expression in both states: its memory must be joined too
    for (auto x : e->syms) {
      E sx = P.symExpr[x];
      enq(sx, sx, sx);
    }
  }
  E fresh(SymKind kind, E x, E y) {
    E z = P.sym(kind);
    joinSyms.insert((uint32_t)z->c);
    auto ix = P.info(x), iy = P.info(y);
    auto &iz = P.info(z);
    if (ix.inst == iy.inst)
      iz.inst = ix.inst;
    iz.shared = ix.shared && iy.shared;
    iz.name = ix.name;
    iz.types = ix.types;
    iz.types.insert(iy.types.begin(), iy.types.end());
    iz.allocSize = ix.allocSize == iy.allocSize ? ix.allocSize : 0;
    if (ix.loadAddr && iy.loadAddr) {
      Addr p = splitAddr(ix.loadAddr), q2 = splitAddr(iy.loadAddr);
      if (p.base && q2.base && p.off == q2.off) {
        if (p.base == q2.base)
          iz.loadAddr = ix.loadAddr;
        else {
          auto it = memo.find({p.base, q2.base});
          if (it != memo.end())
            iz.loadAddr = P.add(it->second, p.off);
        }
      }
    }
    return z;
  }
  E wid(E x, E y) {
    if (getenv("IXA_WID")) {
      fprintf(stderr, "wid %s | %s", P.str(x).c_str(), P.str(y).c_str());
      if (x->k == K_LIN && y->k == K_LIN) {
        Addr ax = splitAddr(x), ay = splitAddr(y);
        if (ax.base && ay.base && ax.base->isSym() && ay.base->isSym())
          fprintf(stderr, " [bases %s %s inst %d shared %d memo %d]", P.str(ax.base).c_str(), P.str(ay.base).c_str(), P.info(ax.base).inst == P.info(ay.base).inst, P.info(ax.base).shared, (int)memo.count({ax.base, ay.base}));
      }
      fprintf(stderr, "\n");
    }
    widened = true;
    eng->nWiden++;
    E z = P.sym(S_WIDEN);
    joinSyms.insert((uint32_t)z->c);
    if (x->isSym() && y->isSym()) {
      auto t = P.info(x).types;
      t.insert(P.info(y).types.begin(), P.info(y).types.end());
      P.info(z).types = t;
    } else if (x->isSym())
      P.info(z).types = P.info(x).types;
    else if (y->isSym())
      P.info(z).types = P.info(y).types;
    auto sh = [](E e) { return e->isSym() && P.info(e).shared; };
    P.info(z).shared = (sh(x) && (sh(y) || y->isConst(0))) || (sh(y) && x->isConst(0)); // null is never followed
    return z;
  }
  E au(E x, E y) {
    if (x == y) {
      touch(x);
      return x;
    }
    auto it = memo.find({x, y});
    if (it != memo.end())
      return it->second;
    E r = au1(x, y);
    memo[{x, y}] = r;
    return r;
  }
  E au1(E x, E y) {
    if (x->isSym() && y->isSym()) {
      auto kx = P.info(x).kind, ky = P.info(y).kind;
      if (kx == ky && kx != S_ARG && kx != S_GLOBAL && kx != S_LOOPK) {
        E ax = P.info(x).aux, ay = P.info(y).aux;
        E z = fresh(kx, x, y);
        widened = true;
        memo[{x, y}] = z;
        if (ax && ay) {
          E az = au(ax, ay);
          P.info(z).aux = az;
        }
        enq(x, y, z);
        return z;
      }
      E z = wid(x, y);
      memo[{x, y}] = z;
      enq(x, y, z);
      return z;
    }
    if (affine && (x->k != K_OP || x->op == "elem" ? true : false) && x->k != K_AGG) {
      E d = P.sub(y, x);
      if (d->isConst() && d->c != 0) {
        touch(x);
        return P.addc(P.add(x, k, d->c), -d->c);
      }
    }
    if (x->k == K_OP && y->k == K_OP && x->op == y->op && x->args.size() == y->args.size()) {
      vector<E> v;
      for (size_t i = 0; i < x->args.size(); i++)
        v.push_back(au(x->args[i], y->args[i]));
      if (x->op == "ge0")
        return P.ge0(v[0]);
      if (x->op == "eq0")
        return P.eq0(v[0]);
      if (x->op == "not")
        return P.notE(v[0]);
      return P.op(x->op, v);
    }
    if (x->k == K_AGG && y->k == K_AGG && x->args.size() == y->args.size()) {
      vector<E> v;
      for (size_t i = 0; i < x->args.size(); i++)
        v.push_back(au(x->args[i], y->args[i]));
      return P.agg(v);
    }
    if (x->k == K_LIN && y->k == K_LIN) {
      // common part + one differing atom each
      E d = P.sub(y, x); // y - x
      if (d->k == K_LIN && d->c == 0 && d->terms.size() == 2 &&
          d->terms[0].second == -d->terms[1].second) {
        auto p = d->terms[0], n = d->terms[1];
        if (p.second < 0)
          std::swap(p, n);
        // y = x + c*(p - n): atom n of x becomes p in y
        E z = au(n.first, p.first);
        E rest = P.add(x, n.first, -p.second);
        touch(rest);
        return P.add(rest, z, p.second);
      }
    }
    // two elements of the same container: only the index is widened
    {
      auto dataOf = [](E e) -> E {
        if (e->isOp("data"))
          return e;
        if (e->k == K_LIN)
          for (auto &t : e->terms)
            if (t.second == 1 && t.first->isOp("data"))
              return t.first;
        return nullptr;
      };
      E dx = dataOf(x);
      if (dx && dataOf(y) == dx && dx->args[1]->isConst() && dx->args[1]->c > 0) {
        int64_t es = dx->args[1]->c;
        E ox = P.divExact(P.sub(x, dx), es), oy = P.divExact(P.sub(y, dx), es);
        if (ox && oy) {
          touch(dx);
          return P.add(dx, au(ox, oy), es);
        }
      }
    }
    // two addresses in the same object: only the offset is widened
    if ((x->isSym() || x->k == K_LIN) && (y->isSym() || y->k == K_LIN)) {
      Addr ax = splitAddr(x), ay = splitAddr(y);
      bool sameObj = ax.base && ay.base && ax.base->isSym() && ay.base->isSym() &&
                     (ax.base == ay.base || (P.info(ax.base).kind == P.info(ay.base).kind && P.info(ax.base).inst == P.info(ay.base).inst &&
                                             P.info(ax.base).inst && !(ax.off->isConst(0) && ay.off->isConst(0))));
      if (sameObj) {
        auto kd = P.info(ax.base).kind;
        if (kd == S_MALLOC || kd == S_ALLOCA || kd == S_ARG || (kd == S_LOAD && P.info(ax.base).shared) || ((ax.base == ay.base || memo.count({ax.base, ay.base})) && !P.info(ax.base).types.empty())) {
          int64_t g = 0;
          // array elements: different fields of (possibly) different elements
          if (ax.off != ay.off && !(ax.off->isConst() && ay.off->isConst())) {
            auto split = [&](E o, E &main, E &res, int64_t &g) {
              main = res = P.zero;
              auto add = [&](E t, int64_t c) {
                if (t->isSym() && P.info(t).name == "fld")
                  res = P.add(res, t, c);
                else {
                  main = P.add(main, t, c);
                  g = std::gcd(g, (int64_t)std::llabs(c));
                }
              };
              if (o->k == K_LIN) {
                res = P.cst(o->c);
                for (auto &t : o->terms)
                  add(t.first, t.second);
              } else
                add(o, 1);
            };
            E mx, my, rx, ry;
            bool oneConst = ax.off->isConst() || ay.off->isConst();
            if (!ax.off->isConst())
              split(ax.off, mx, rx, g);
            if (!ay.off->isConst())
              split(ay.off, my, ry, g);
            if (oneConst && g > 1) {
              auto &mc = ax.off->isConst() ? mx : my;
              auto &rc = ax.off->isConst() ? rx : ry;
              int64_t c = (ax.off->isConst() ? ax.off : ay.off)->c;
              if (c < 0)
                g = 1;
              else {
                mc = P.cst(c - c % g);
                rc = P.cst(c % g);
              }
            }
            auto small = [&](E r) { return !r->isConst() || (r->c >= 0 && r->c < g); };
            if (g > 1 && (rx != ry || (oneConst && g >= 16)) && small(rx) && small(ry) && (oneConst || (!mx->isConst() && !my->isConst()))) {
              E ox = P.divExact(mx, g), oy = P.divExact(my, g);
              auto it = memo.find({rx, ry});
              E w = rx == ry ? rx : it != memo.end() ? it->second : P.sym(S_WIDEN);
              if (rx != ry && it == memo.end()) {
                joinSyms.insert((uint32_t)w->c);
                P.info(w).name = "fld";
                memo[{rx, ry}] = w;
                widened = true;
              }
              E zb = au(ax.base, ay.base);
              return P.add(P.add(zb, au(ox, oy), g), w);
            }
            g = 0;
          }
          for (E o : {ax.off, ay.off}) {
            if (o->isConst())
              g = std::gcd(g, (int64_t)std::llabs(o->c));
            else if (o->k == K_LIN) {
              g = std::gcd(g, (int64_t)std::llabs(o->c));
              for (auto &t : o->terms)
                g = std::gcd(g, (int64_t)std::llabs(t.second));
            } else
              g = 1;
          }
          if (g == 0)
            g = 1;
          E ox = P.divExact(ax.off, g), oy = P.divExact(ay.off, g);
          if (ox && oy) {
            E zb = au(ax.base, ay.base);
            return P.add(zb, au(ox, oy), g);
          }
        }
      }
    }
    return wid(x, y);
  }
  // strict: only through existing correspondences
  E strict(E x, E y) {
    if (x == y)
      return x;
    auto it = memo.find({x, y});
    if (it != memo.end())
      return it->second;
    if ((x->k == K_LIN || x->k == K_CONST || x->k == K_SYM) &&
        (y->k == K_LIN || y->k == K_CONST || y->k == K_SYM)) {
      auto tx = x->k == K_LIN ? x->terms : vector<std::pair<E, int64_t>>{};
      auto ty = y->k == K_LIN ? y->terms : vector<std::pair<E, int64_t>>{};
      if (x->k == K_SYM)
        tx.push_back({x, 1});
      if (y->k == K_SYM)
        ty.push_back({y, 1});
      int64_t cx = x->k == K_SYM ? 0 : x->c, cy = y->k == K_SYM ? 0 : y->c;
      if (tx.size() != ty.size())
        return nullptr;
      E res = nullptr;
      if (cx == cy)
        res = P.cst(cx);
      else if (affine)
        res = P.addc(P.add(P.cst(cx), k, cy - cx), -(cy - cx));
      else
        return nullptr;
      vector<bool> used(ty.size());
      for (auto &t : tx) {
        bool ok = false;
        for (size_t j = 0; j < ty.size() && !ok; j++) {
          if (used[j] || ty[j].second != t.second)
            continue;
          E z = nullptr;
          if (t.first == ty[j].first)
            z = t.first;
          else {
            auto m = memo.find({t.first, ty[j].first});
            if (m != memo.end())
              z = m->second;
            else if (t.first->k == K_OP && ty[j].first->k == K_OP)
              z = strict(t.first, ty[j].first);
          }
          if (z) {
            used[j] = true;
            ok = true;
            res = P.add(res, z, t.second);
          }
        }
        if (!ok)
          return nullptr;
      }
      return res;
    }
    if (x->k == K_OP && y->k == K_OP && x->op == y->op && x->args.size() == y->args.size()) {
      vector<E> v;
      for (size_t i = 0; i < x->args.size(); i++) {
        E z = strict(x->args[i], y->args[i]);
        if (!z)
          return nullptr;
        v.push_back(z);
      }
      if (x->op == "ge0")
        return P.ge0(v[0]);
      if (x->op == "eq0")
        return P.eq0(v[0]);
      if (x->op == "not")
        return P.notE(v[0]);
      return P.op(x->op, v);
    }
    return nullptr;
  }
  void joinMem(E bx, E by, E bz) {
    auto ia = memA.find(bx), ib = memB.find(by);
    if (ia == memA.end() || ib == memB.end()) {
      return;
    }
    for (auto &ca : ia->second) {
      const Cell *cb = nullptr;
      E off = nullptr;
      auto jt = ib->second.find({by, ca.first.off});
      if (jt != ib->second.end()) {
        cb = &jt->second;
        off = ca.first.off;
      } else if (!ca.first.off->isConst()) {
        for (auto &x : ib->second) {
          if (x.first.off->isConst() || x.second.size != ca.second.size)
            continue;
          if (ia->second.count({bx, x.first.off}))
            continue;
          E z = strict(ca.first.off, x.first.off);
          if (z) {
            cb = &x.second;
            off = z;
            break;
          }
        }
      }
      if (!cb || cb->size != ca.second.size)
        continue;
      touch(off);
      Cell c = ca.second;
      c.val = au(ca.second.val, cb->val);
      c.atomic = ca.second.atomic || cb->atomic;
      r.mem[{bz, off}] = c;
    }
  }
  // bases that are container elements
  bool joinElems() {
    bool any = false;
    auto isElem = [](E e) { return e->isOp("elem"); };
    std::vector<E> ea, eb;
    for (auto &x : memA)
      if (isElem(x.first))
        ea.push_back(x.first);
    for (auto &x : memB)
      if (isElem(x.first))
        eb.push_back(x.first);
    auto lt = [](E p, E q) { return p->id < q->id; };
    std::sort(ea.begin(), ea.end(), lt);
    std::sort(eb.begin(), eb.end(), lt);
    auto pairV = [&](E va, E vb) -> E {
      if (va == vb)
        return va;
      auto it = memo.find({va, vb});
      return it == memo.end() ? nullptr : it->second;
    };
    std::set<E> usedA, usedB;
    for (auto &t : elemDone) {
      usedA.insert(std::get<0>(t));
      usedB.insert(std::get<1>(t));
    }
    for (int pass = 0; pass < 2; pass++)
      for (auto xa : ea)
        for (auto xb : eb) {
          if (usedA.count(xa) || usedB.count(xb))
            continue;
          E v = pairV(xa->args[0], xb->args[0]);
          if (!v)
            continue;
          E i = nullptr;
          E ai = xa->args[1], bi = xb->args[1];
          // pass 0: aligned with the end of the container
          E sa = nullptr, sb = nullptr;
          auto fa = sizeCell(a, xa->args[0]), fb = sizeCell(b, xb->args[0]);
          if (fa)
            sa = P.sub(fa, ai);
          if (fb)
            sb = P.sub(fb, bi);
          if (pass == 0) {
            if (sa && sb && sa == sb && (ai == bi || affine || memo.count({ai, bi})))
              i = strict(ai, bi);
            else if (sa && sb && sa == sb && sa->isConst() && memo.count({fa, fb}))
              i = P.sub(memo[{fa, fb}], sa);
            // constant root entry stays
            if (ai != bi && ai->isConst(0))
              i = nullptr;
          } else if (ai == bi)
            i = ai;
          if (!i)
            continue;
          usedA.insert(xa);
          usedB.insert(xb);
          E z = xa->args.size() > 2 ? P.op("elem", {v, i, xa->args[2]}) : P.op("elem", {v, i});
          elemDone.push_back({xa, xb, z});
          enq(xa, xb, z);
          any = true;
        }
    return any;
  }
  std::vector<std::tuple<E, E, E>> elemDone;
  static E sizeCell(const State &s, E v) {
    for (auto &m : s.mons)
      if (m.tag == "~vsize" && m.args[0] == v)
        return m.args[1];
    return nullptr;
  }
};

State Engine::join(const State &a, const State &b, E k, bool affine, bool *changed) {
  nJoins++;
  AU u(this, a, b, k, affine);
  u.r.frames = a.frames;
  u.r.trace = a.trace;
  u.r.mons.clear();
  for (size_t i = 0; i < a.frames.size(); i++) {
    auto &fr = u.r.frames[i];
    fr.env.clear();
    for (auto *v : envKeys(this, a.frames[i])) {
      auto it = b.frames[i].env.find(v);
      if (it == b.frames[i].env.end())
        continue;
      fr.env[v] = u.au(a.frames[i].env.at(v), it->second);
    }
    auto &ba = b.frames[i].allocas;
    for (size_t k = 0; k < fr.allocas.size() && k < ba.size(); k++)
      if (fr.allocas[k] != ba[k])
        fr.allocas[k] = u.au(fr.allocas[k], ba[k]);
  }
  auto ma = sortedMons(a), mb = sortedMons(b);
  vector<bool> used(mb.size());
  vector<std::pair<Mon, const Mon *>> weak;
  // exact matches first, then by tag in order
  vector<int> match(ma.size(), -1);
  for (size_t i = 0; i < ma.size(); i++)
    for (size_t j = 0; j < mb.size(); j++)
      if (!used[j] && ma[i] == mb[j]) {
        used[j] = true;
        match[i] = j;
        break;
      }
  auto corr = [&](E x, E y) {
    if (x == y || u.memo.count({x, y}))
      return true;
    if (x->k == K_LIN && y->k == K_LIN && x->c == y->c && x->terms.size() == 1 && y->terms.size() == 1 && x->terms[0].second == y->terms[0].second)
      return u.memo.count({x->terms[0].first, y->terms[0].first}) > 0;
    return false;
  };
  auto matchMons = [&](bool strict) {
  for (size_t i = 0; i < ma.size(); i++) {
    if (match[i] >= 0)
      continue;
    int best = -1;
    for (size_t j = 0; j < mb.size(); j++)
      if (!used[j] && ma[i].tag == mb[j].tag && ma[i].args.size() == mb[j].args.size()) {
        if (ma[i].tag[0] == '~') { // weak: only through known correspondence
          if (!corr(ma[i].args[0], mb[j].args[0]))
            continue;
        }
        else if (strict) { // strong: known correspondence first
          bool all = true;
          for (size_t t = 0; t < ma[i].args.size(); t++)
            all &= corr(ma[i].args[t], mb[j].args[t]);
          if (!all)
            continue;
        }
        // prefer the candidate sharing most arguments
        if (best < 0)
          best = j;
        else {
          auto score = [&](int jj) {
            int sc = 0;
            for (size_t t = 0; t < ma[i].args.size(); t++)
              sc += corr(ma[i].args[t], mb[jj].args[t]);
            return sc;
          };
          if (score(j) > score(best))
            best = j;
        }
      }
    if (best >= 0) {
      used[best] = true;
      match[i] = best;
    }
  }
  };
  vector<bool> done(ma.size());
  auto emit = [&](bool weakOnly) {
    for (int pass = weakOnly ? 1 : 0; pass < 2; pass++)
      for (size_t i = 0; i < ma.size(); i++) {
        bool wk = ma[i].tag[0] == '~';
        if (wk != (pass == 1) || match[i] < 0 || done[i])
          continue;
        done[i] = true;
        Mon m = ma[i];
        for (size_t t = 0; t < m.args.size(); t++)
          m.args[t] = u.au(ma[i].args[t], mb[match[i]].args[t]);
        u.r.mons.push_back(m);
      }
  };
  auto drain = [&]() {
    do {
      while (!u.q.empty()) {
        auto [x, y, z] = u.q.front();
        u.q.pop_front();
        u.joinMem(x, y, z);
      }
    } while (u.joinElems());
  };
  matchMons(true);
  emit(false);
  drain();
  matchMons(true);
  emit(false);
  drain();
  matchMons(false);
  emit(false);
  drain();
  // values that correspond through memory make further weak monitors comparable
  matchMons(false);
  emit(true);
  drain();
  // one tuple may correspond to several
  for (auto &x : ma)
    if (x.tag == "~par")
      for (auto &y : mb)
        if (y.tag == "~par") {
          auto z = [&](int t) -> E {
            if (x.args[t] == y.args[t])
              return x.args[t];
            auto it = u.memo.find({x.args[t], y.args[t]});
            return it == u.memo.end() ? nullptr : it->second;
          };
          E c = z(0), p = z(1);
          if (c && p && !u.r.find2("~par", c, p))
            u.r.addMon("~par", {c, p});
        }
  // what holds of an object holds vacuously where the other state has no object
  for (auto side : {0, 1})
    for (auto &m : side ? mb : ma)
      if (m.tag == "~node") {
        auto it = u.memo.find(side ? std::make_pair(P.zero, m.args[0]) : std::make_pair(m.args[0], P.zero));
        if (it != u.memo.end() && it->second && !u.r.find("~node", it->second))
          u.r.addMon("~node", {it->second});
      } else if (m.tag == "~par" && m.args[0]->isSym() && m.args[1]->isSym()) {
        vector<std::pair<E, E>> im[2]; // other side's value, joined value
        im[1].push_back({m.args[1], m.args[1]});
        for (int t : {0, 1})
          for (auto &k : u.memo)
            if (k.second && (side ? k.first.second : k.first.first) == m.args[t])
              im[t].push_back({side ? k.first.first : k.first.second, k.second});
        for (auto &c : im[0])
          for (auto &p : im[1])
            if ((c.first->isConst(0) || p.first->isConst(0) || (c.first->isSym() && privateObj(const_cast<State &>(side ? a : b), c.first))) && !u.r.find2("~par", c.second, p.second))
              u.r.addMon("~par", {c.second, p.second});
      }
  // facts: the image of a fact of one state must be implied by the other
  {
    std::unordered_map<uint32_t, vector<std::pair<E, E>>> fwd, bwd;
    for (auto &m : u.memo) {
      if (m.first.first->isSym() && m.second)
        fwd[m.first.first->c].push_back({m.first.second, m.second});
      if (m.first.second->isSym() && m.second)
        bwd[m.first.second->c].push_back({m.first.first, m.second});
    }
    auto half = [&](const State &from, const State &to, std::unordered_map<uint32_t, vector<std::pair<E, E>>> &mp) {
      State *tmp = nullptr;
      State copy;
      for (auto f : from.facts) {
        if (u.r.facts.count(f))
          continue;
        if (to.facts.count(f)) {
          u.r.facts.insert(f);
          // fall through: images may hold as well
        }
        vector<uint32_t> ms;
        size_t combos = 1;
        for (auto x : f->syms)
          if (mp.count(x)) {
            ms.push_back(x);
            combos *= mp[x].size();
          }
        if (ms.empty() || combos > 6)
          continue;
        for (size_t c = 0; c < combos; c++) {
          std::unordered_map<uint32_t, E> sy, sz;
          size_t q = c;
          for (auto x : ms) {
            auto &v = mp[x];
            sy[x] = v[q % v.size()].first;
            sz[x] = v[q % v.size()].second;
            q /= v.size();
          }
          std::unordered_map<E, E> m1, m2;
          E fy = P.subst(f, sy, m1);
          if (!tmp) {
            copy = to;
            tmp = &copy;
          }
          if (fy->isConst() ? fy->c == 0 : simplify(*tmp, fy) != P.one)
            continue;
          E fz = P.subst(f, sz, m2);
          if (!fz->isConst())
            u.r.facts.insert(fz);
        }
      }
    };
    half(a, b, fwd);
    half(b, a, bwd);
    // small lower bounds survive widening
    State ca = a, cb = b;
    for (auto &m : u.memo) {
      if (!m.second || !m.second->isSym() || P.info(m.second).kind != S_WIDEN)
        continue;
      // a counter that moved by a constant keeps its starting point as a bound
      if (!m.first.first->isConst() && !m.first.second->isConst()) {
        E d = P.sub(m.first.second, m.first.first);
        if (d->isConst() && d->c > 0)
          u.r.facts.insert(P.ge0(P.sub(m.second, m.first.first)));
        else if (d->isConst() && d->c < 0)
          u.r.facts.insert(P.ge0(P.sub(m.first.first, m.second)));
      }
      for (int c = 2; c >= 0; c--) {
        auto ok = [&](State &s, E e) {
          E p = P.ge0(P.addc(e, -c));
          if (c == 1 && e->k == K_LIN && this->nonNull(s, e))
            return true;
          return p->isConst() ? p->c != 0 : simplify(s, p) == P.one;
        };
        if (ok(ca, m.first.first) && ok(cb, m.first.second)) {
          u.r.facts.insert(P.ge0(P.addc(m.second, -c)));
          break;
        }
      }
    }
  }
  if (affine && k)
    u.r.facts.insert(P.ge0(P.addc(k, -1)));
  if (changed)
    *changed = u.widened;
  gc(u.r);
  return std::move(u.r);
}

// ------------------------------------------------------------ subsumption
struct Match {
  uint32_t patMin = 0;
  bool isPat(uint32_t x) const { return x >= patMin && joinSyms.count(x); }
  Engine *eng;
  const State &g, &s;
  std::unordered_map<uint32_t, E> sig;
  std::set<E> usedObj;
  std::vector<std::pair<E, E>> bases;
  std::set<std::pair<E, E>> seen;
  Match(Engine *e, const State &a, const State &b) : eng(e), g(a), s(b) {}
  void base(E x, E y) {
    if (seen.insert({x, y}).second)
      bases.push_back({x, y});
  }
  void touch(E e) {
    for (auto x : e->syms)
      if (!isPat(x))
        base(P.symExpr[x], P.symExpr[x]);
  }
  E inst(E e) { // nullptr when unbound variable remains
    for (auto x : e->syms)
      if (isPat(x) && !sig.count(x))
        return nullptr;
    std::unordered_map<uint32_t, E> m;
    for (auto x : e->syms)
      if (isPat(x))
        m[x] = sig[x];
    if (m.empty())
      return e;
    std::unordered_map<E, E> memo;
    return P.subst(e, m, memo);
  }
  bool bind(E v, E y) {
    auto &iv = P.info(v);
    if (iv.kind != S_WIDEN && iv.kind != S_LOOPK) {
      if (!y->isSym() || P.info(y).kind != iv.kind)
        return false;
      if ((iv.kind == S_ALLOCA || iv.kind == S_MALLOC) && !usedObj.insert(y).second)
        return false;
      E a = iv.aux, b = P.info(y).aux;
      sig[v->c] = y;
      if (a && b) {
        if (!m(a, b))
          return false;
      } else if (a || b)
        return false;
      base(v, y);
      return true;
    }
    sig[v->c] = y;
    if (y->isSym())
      base(v, y);
    return true;
  }
  bool m(E x, E y) {
    E i = inst(x);
    if (i) {
      if (i != y)
        return false;
      touch(x);
      return true;
    }
    if (x->isSym())
      return bind(x, y);
    if (x->k == K_LIN) {
      // exactly one unbound join symbol occurring linearly
      E rest = P.cst(x->c);
      E un = nullptr, fld = nullptr;
      int64_t co = 0;
      for (auto &t : x->terms) {
        E ti = inst(t.first);
        if (ti)
          rest = P.add(rest, ti, t.second);
        else if (!fld && t.second == 1 && t.first->isSym() && P.info(t.first).name == "fld")
          fld = t.first;
        else if (!un) {
          un = t.first;
          co = t.second;
        } else
          return structural(x, y);
      }
      E d = P.sub(y, rest);
      if (fld && un && co > 1) { // element offset plus field offset
        E res = P.zero, main = d;
        if (d->k == K_LIN) {
          for (auto &t : d->terms)
            if (t.second % co)
              res = P.add(res, t.first, t.second);
          res = P.addc(res, ((d->c % co) + co) % co);
          main = P.sub(d, res);
        } else if (d->isConst()) {
          res = P.cst(((d->c % co) + co) % co);
          main = P.sub(d, res);
        } else
          return false;
        if (!(res->isConst() || (res->isSym() && P.info(res).name == "fld")) || !bind(fld, res))
          return false;
        d = main;
      } else if (fld && un)
        return structural(x, y);
      else if (fld) {
        un = fld;
        co = 1;
      }
      E q = P.divExact(d, co);
      if (!q)
        return false;
      return m(un, q);
    }
    if (x->k == K_OP || x->k == K_AGG) {
      if (y->k != x->k || y->op != x->op || y->args.size() != x->args.size())
        return false;
      for (size_t j = 0; j < x->args.size(); j++)
        if (!m(x->args[j], y->args[j]))
          return false;
      return true;
    }
    return false;
  }
  bool structural(E x, E y) {
    if (y->k != K_LIN || y->terms.size() != x->terms.size() || x->c != y->c)
      return false;
    for (size_t j = 0; j < x->terms.size(); j++)
      if (x->terms[j].second != y->terms[j].second || !m(x->terms[j].first, y->terms[j].first))
        return false;
    return true;
  }
};

static int dbgSub = getenv("IXA_DBGSUB") ? 1 : 0;
bool Engine::sub(const State &gen, const State &st, uint32_t patMin) {
  Match u(this, gen, st);
  u.patMin = patMin;
  if (gen.frames.size() != st.frames.size())
    return false;
  for (size_t i = 0; i < gen.frames.size(); i++) {
    if (gen.frames[i].call != st.frames[i].call)
      return false;
    for (auto *v : envKeys(this, gen.frames[i])) {
      auto it = st.frames[i].env.find(v);
      if (it == st.frames[i].env.end() || !u.m(gen.frames[i].env.at(v), it->second)) {
        if (dbgSub)
          fprintf(stderr, "sub: env mismatch frame %zu %s: %s vs %s\n", i, v->getName().str().c_str(),
                  P.str(gen.frames[i].env.at(v)).c_str(), it == st.frames[i].env.end() ? "-" : P.str(it->second).c_str());
        return false;
      }
    }
  }
  auto mg = sortedMons(gen), ms = sortedMons(st);
  vector<bool> used(ms.size());
  auto strongG = [&](const Mon &m) { return m.tag[0] != '~'; };
  size_t ng = 0, ns = 0;
  for (auto &m : mg)
    ng += strongG(m);
  for (auto &m : ms)
    ns += strongG(m);
  if (ng != ns)
    return false;
  vector<const Mon *> later;
  auto monMismatch = [&](const Mon &m) {
    if (!dbgSub)
      return;
    fprintf(stderr, "sub: mon mismatch %s", m.tag.c_str());
    for (auto a : m.args)
      fprintf(stderr, " %s", P.str(a).c_str());
    fprintf(stderr, "\n");
    for (auto &x : ms)
      if (x.tag == m.tag) {
        fprintf(stderr, "    cand:");
        for (auto a : x.args)
          fprintf(stderr, " %s", P.str(a).c_str());
        fprintf(stderr, "\n");
      }
  };
  auto matchMon = [&](const Mon &m) {
    for (size_t j = 0; j < ms.size(); j++) {
      if (used[j] || ms[j].tag != m.tag || ms[j].args.size() != m.args.size())
        continue;
      auto save = u.sig;
      auto saveObj = u.usedObj;
      auto saveB = u.bases;
      auto saveS = u.seen;
      bool all = true;
      for (size_t t = 0; t < m.args.size() && all; t++)
        all = u.m(m.args[t], ms[j].args[t]);
      if (all) {
        used[j] = true;
        return true;
      }
      u.sig = save;
      u.usedObj = saveObj;
      u.bases = saveB;
      u.seen = saveS;
    }
    return false;
  };
  // what is required of the state; weak monitors only once the values they speak of are known
  for (auto &m : mg) {
    if (!strongG(m)) {
      later.push_back(&m);
      continue;
    }
    if (!matchMon(m)) {
      monMismatch(m);
      return false;
    }
  }
  std::map<E, std::map<E, const Cell *, ELess>, ELess> memS;
  for (auto &kv : st.mem)
    memS[kv.first.base][kv.first.off] = &kv.second;
  std::map<E, std::vector<const std::pair<const MemKey, Cell> *>, ELess> memG;
  for (auto &kv : gen.mem)
    memG[kv.first.base].push_back(&kv);
  std::set<E> elemsDone;
  size_t i = 0;
  auto memory = [&]() {
  while (true) {
    for (; i < u.bases.size(); i++) {
      auto [x, y] = u.bases[i];
      auto it = memG.find(x);
      if (it == memG.end())
        continue;
      auto &cells = memS[y];
      for (auto *c : it->second) {
        E off = u.inst(c->first.off);
        const Cell *cs = nullptr;
        if (off) {
          auto jt = cells.find(off);
          if (jt != cells.end())
            cs = jt->second;
        }
        if (!cs || cs->size != c->second.size || !u.m(c->second.val, cs->val)) {
          if (dbgSub)
            fprintf(stderr, "sub: mem mismatch [%s + %s] = %s vs %s\n", P.str(x).c_str(), P.str(c->first.off).c_str(),
                    P.str(c->second.val).c_str(), cs ? P.str(cs->val).c_str() : "-");
          return false;
        }
      }
    }
    bool any = false;
    for (auto &kv : memG)
      if (kv.first->k == K_OP && !elemsDone.count(kv.first)) {
        E y = u.inst(kv.first);
        if (y) {
          elemsDone.insert(kv.first);
          u.base(kv.first, y);
          any = true;
        }
      }
    if (!any)
      break;
  }
  return true;
  };
  if (!memory())
    return false;
  for (auto *m : later) {
    vector<E> in;
    bool bound = true, null = false, ok = false;
    for (auto a : m->args) {
      E y = u.inst(a);
      bound &= y != nullptr;
      null |= y && y->isConst(0);
      in.push_back(y);
    }
    if (bound) {
      for (auto &x : ms)
        ok |= x.tag == m->tag && x.args == in;
      // nothing is claimed where there is no object
      ok |= m->tag == "~par" && (null || (in[0]->isSym() && privateObj(const_cast<State &>(st), in[0])));
    } else if (m->tag == "~par")
      ok = true; // about an object nothing else refers to
    if (!ok && !matchMon(*m)) {
      monMismatch(*m);
      return false;
    }
    if (!bound && !memory())
      return false;
  }
  State tmp = st;
  for (auto f : gen.facts) {
    E y = u.inst(f);
    if (!y)
      continue;
    if (simplify(tmp, y) != P.one) {
      if (y->isOp("ge0")) { // the address of something inside an object is not null
        E z = P.addc(y->args[0], 1);
        if (z->k == K_LIN && nonNull(tmp, z))
          continue;
      }
      if (dbgSub)
        fprintf(stderr, "sub: fact %s -> %s not implied\n", P.str(f).c_str(), P.str(y).c_str());
      return false;
    }
  }
  return true;
}

// monitor signature plus the constant flags and null pointers of the innermost frame
string Engine::fineSig(const State &s) {
  string r = monSig(s);
  for (auto &f : s.frames) {
    r += '/';
    for (auto *v : envKeys(this, f)) {
      auto *t = v->getType();
      if (t->isPointerTy() || t->isIntegerTy(1) || t->isIntegerTy(8)) {
        E e = f.env.at(v);
        r += e->isConst() ? (e->c == 0 ? '0' : '1') : '.';
      } else if (enumEnv && t->isIntegerTy(32)) { // enumerators
        E e = f.env.at(v);
        if (e->isConst() && e->c >= 0 && e->c < 8)
          r += char('0' + e->c);
        else
          r += '.';
      } else if (f.env.at(v)->isOp("cat")) { // a small struct in a register
        E e = f.env.at(v);
        for (size_t i = 2; i < e->args.size(); i += 3)
          if (e->args[i]->isConst() && e->args[i]->c >= 0 && e->args[i]->c < 8 && (enumEnv || e->args[i - 1]->c == 1))
            r += "c" + std::to_string(e->args[i]->c);
          else
            r += 'c';
      }
    }
    for (auto *al : f.allocas) {
      for (auto &kv : s.mem)
        if (kv.first.base == al && kv.first.off->isConst() && kv.second.val->isConst()) {
          if (fineMem && kv.second.size == 8 && kv.second.val->c == 0)
            r += 'a' + (kv.first.off->c / 8) % 26;
          else if (kv.second.size <= 4 && kv.second.val->c >= 0 && kv.second.val->c < 8) // flags and enumerators
            r += std::to_string(kv.first.off->c) + ":" + std::to_string(kv.second.val->c);
        }
      r += ';';
    }
  }
  return r;
}
void Engine::reduce(vector<State> &v) {
  if (v.size() < 2)
    return;
  std::unordered_set<string> seen;
  vector<State> r;
  for (auto &s : v) {
    gc(s);
    if (seen.insert(canon(s)).second)
      r.push_back(std::move(s));
  }
  if ((int)r.size() > capJoin) {
    std::map<string, vector<State>> g;
    vector<string> order;
    for (auto &s : r) {
      auto k = monSig(s);
      if (!g.count(k))
        order.push_back(k);
      g[k].push_back(std::move(s));
    }
    r.clear();
    int cap = std::max<int>(2, capJoin / (int)order.size());
    for (auto &k : order) {
      auto &x = g[k];
      if ((int)x.size() > cap) {
        State j = std::move(x[0]);
        for (size_t i = 1; i < x.size(); i++)
          j = join(j, x[i], nullptr, false);
        r.push_back(std::move(j));
      } else
        for (auto &s : x)
          r.push_back(std::move(s));
    }
  }
  v = std::move(r);
  maxStates = std::max<uint64_t>(maxStates, v.size());
}
} // namespace ixa
