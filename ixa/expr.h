// Hash-consed abstract values: constants, symbols, linear forms, opaque terms.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

namespace ixa {
struct Expr;
using E = const Expr *;

enum Kind : uint8_t { K_CONST, K_SYM, K_LIN, K_OP, K_AGG };

struct Expr {
  Kind k;
  int64_t c = 0; // CONST value, SYM id, LIN constant part
  std::vector<std::pair<E, int64_t>> terms; // LIN, sorted by id
  std::string op;                           // OP
  std::vector<E> args;                      // OP, AGG
  uint32_t id = 0;
  std::vector<uint32_t> syms; // sorted ids of symbols occurring
  bool isConst() const { return k == K_CONST; }
  bool isConst(int64_t v) const { return k == K_CONST && c == v; }
  bool isSym() const { return k == K_SYM; }
  bool isOp(const char *o) const { return k == K_OP && op == o; }
};

enum SymKind : uint8_t {
  S_ALLOCA, S_MALLOC, S_ARG, S_LOAD, S_CALL, S_GLOBAL, S_UNDEF, S_LOOPK, S_WIDEN
};

struct SymInfo {
  SymKind kind;
  const llvm::Instruction *inst = nullptr; // creation site
  E loadAddr = nullptr;                    // S_LOAD
  std::string callee;                      // S_CALL (stripped name)
  std::vector<E> args;                     // S_CALL
  std::string name;
  std::set<std::string> types; // class types this pointer is used as (template-stripped)
  uint64_t allocSize = 0;
  E aux = nullptr;
  E aux2 = nullptr;
  bool shared = false; // reached through an atomic link of shared memory
};

struct Pool {
  std::unordered_map<std::string, E> tab;
  std::vector<Expr *> all;
  std::vector<SymInfo> symInfo;
  std::vector<E> symExpr;
  std::unordered_map<const llvm::GlobalValue *, E> globals;
  E zero, one;

  Pool();
  E intern(Expr &&e);
  E cst(int64_t v);
  E sym(SymKind k, const llvm::Instruction *i = nullptr);
  SymInfo &info(E e) { return symInfo[e->c]; }
  E global(const llvm::GlobalValue *g);
  E op(const std::string &o, std::vector<E> a);
  E agg(std::vector<E> a);
  E lin(int64_t c, std::vector<std::pair<E, int64_t>> t);
  E add(E a, E b, int64_t scaleB = 1);
  E addc(E a, int64_t c) { return c ? add(a, cst(c)) : a; }
  E sub(E a, E b) { return add(a, b, -1); }
  E scale(E a, int64_t s);
  E divExact(E a, int64_t s); // nullptr if not exactly divisible
  // predicate constructors
  E ge0(E a);
  E eq0(E a);
  E notE(E a);
  // substitution sym->expr
  E subst(E e, const std::unordered_map<uint32_t, E> &m,
          std::unordered_map<E, E> &memo);
  std::string str(E e) const;
};
extern Pool P;

inline bool usesSym(E e, uint32_t id) {
  for (auto s : e->syms)
    if (s == id)
      return true;
  return false;
}
// split a pointer expression in base atom and the remaining offset
struct Addr {
  E base = nullptr; // nullptr for absolute / null pointers
  E off = nullptr;
};
Addr splitAddr(E p);
} // namespace ixa
