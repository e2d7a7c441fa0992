#pragma once
// helpers of the demonstrations
#include <climits>
#include <cstdint>
#include <deque>
#include <functional>
#include <iostream>
#include <mutex>
#include <optional>
#include <sstream>
#include <thread>
#include <utility>
#include <vector>
#include "sync_prim/Mutex.h"
#include "sync_prim/ThreadRegistry.h"
#define CHECK(c)                                                               \
  do {                                                                         \
    if (!(c)) {                                                                \
      std::fprintf(stderr, "DEMO: %s:%d failed: %s\n", __FILE__, __LINE__, #c); \
      _exit(1);                                                                \
    }                                                                          \
  } while (0)
#define NOT_HELD() CHECK(sync_prim::mutex::tl_held.empty())
// run f to the end on another registered thread
template <typename F> void other(F f) {
  std::thread t([&] {
    sync_prim::ThreadRegistry::RegisterThread();
    f();
    NOT_HELD();
    sync_prim::ThreadRegistry::UnregisterThread();
  });
  t.join();
}
// integer key whose comparisons can run code (an interleaving point)
inline thread_local std::function<void()> on_compare;
inline thread_local bool in_compare = false;
inline void cmp_event() {
  if (on_compare && !in_compare) {
    in_compare = true;
    on_compare();
    in_compare = false;
  }
}
struct HK {
  long v;
};
inline bool operator<(const HK &a, const HK &b) noexcept {
  cmp_event();
  return a.v < b.v;
}
inline bool operator==(const HK &a, const HK &b) noexcept { return a.v == b.v; }
