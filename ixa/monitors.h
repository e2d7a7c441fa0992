#pragma once
#include "state.h"
namespace ixa {
struct LockCfg {
  bool rootNonNull = true, linkNonNull = true, nullLatch = true;
};
struct MemCfg {
  bool rootMutexProtects = false, retireNeedsDead = true;
  bool epoch = false, own = false, retire = false, guard = false;
};
struct SoloCfg {
  bool own = false, size = false, cow = false, nodePerKey = false;
};
Monitor *makeSoloMon(Engine *e, const SoloCfg &c);
Monitor *makeStatMon(Engine *e);
Monitor *makeMigMon(Engine *e);
Monitor *makeSlotMon(Engine *e);
Monitor *makeEpoMon(Engine *e);
Monitor *makeOptMon(Engine *e);
Monitor *makeVerMon(Engine *e);
bool tableElem(Engine *eng, E base, E off, const char *field, E &H, E &idx);
E bucketLatch(Engine *eng, State &s, E H, E off);
Monitor *makeMemMon(Engine *e, const MemCfg &c);
Monitor *makeLockMon(Engine *e, const LockCfg &c);
bool held(State &s, E addr);
bool holdsObj(State &s, E base, E off = nullptr);
E indexOf(E off);
bool elemOf(State &s, E p, E &S, E &idx);
bool inBag(Engine *eng, State &s, E base);
} // namespace ixa
