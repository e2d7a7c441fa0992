#include <climits>
#include <cstdint>
#include <utility>
#include <vector>
#include <deque>
#include <mutex>
#include "indexes/utils/EpochManager.h"
using namespace indexes::utils;
struct Obj { unsigned long v; };
using M = EpochManager<uint64_t, Obj>;
using R = std::function<void(Obj *)>;
#define ROOT extern "C" __attribute__((used))
ROOT void root_ep_enter(M &m) { m.enter_epoch(); }
ROOT void root_ep_exit(M &m) { m.exit_epoch(); }
ROOT uint64_t root_ep_switch(M &m) { return m.switch_epoch(); }
ROOT uint64_t root_ep_now(M &m) { return m.now(); }
ROOT void root_ep_retire_new(M &m, R &r, Obj *const *o, std::size_t n) { m.retire_in_new_epoch(r, gsl::span<Obj *>(const_cast<Obj **>(o), n)); }
ROOT void root_ep_retire_cur(M &m, R &r, Obj *const *o, std::size_t n) { m.retire_in_current_epoch(r, gsl::span<Obj *>(const_cast<Obj **>(o), n)); }
ROOT void root_ep_retire1_new(M &m, R &r, Obj *o) { m.retire_in_new_epoch(r, o); }
ROOT void root_ep_retire1_cur(M &m, R &r, Obj *o) { m.retire_in_current_epoch(r, o); }
ROOT std::size_t root_ep_reclaim(M &m) { return m.do_reclaim(); }
ROOT void root_ep_reclaim_all(M &m) { m.reclaim_all(); }
