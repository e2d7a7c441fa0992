#pragma once
#include <atomic>
namespace sync_prim {
class ThreadRegistry {
  static inline std::atomic<bool> used[64] = {};
  static inline std::atomic<int> maxid{-1};
  static inline thread_local int id = -1;

public:
  static constexpr int MAX_THREADS = 64;
  static bool RegisterThread() noexcept {
    for (int i = 0; i < MAX_THREADS; i++) {
      bool e = false;
      if (used[i].compare_exchange_strong(e, true)) {
        id = i;
        int m = maxid;
        while (m < i && !maxid.compare_exchange_weak(m, i))
          ;
        return true;
      }
    }
    return false;
  }
  static void UnregisterThread() noexcept {
    if (id >= 0)
      used[id] = false;
    id = -1;
  }
  static int ThreadID() noexcept { return id; }
  static int MaxThreadID() noexcept { return maxid; }
};
} // namespace sync_prim
