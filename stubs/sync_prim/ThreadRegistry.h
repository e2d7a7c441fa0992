#pragma once
// analysis stub: declarations only
namespace sync_prim {
class ThreadRegistry {
public:
  static constexpr int MAX_THREADS = 1024;
  static bool RegisterThread() noexcept;
  static void UnregisterThread() noexcept;
  static int ThreadID() noexcept;
  static int MaxThreadID() noexcept;
};
} // namespace sync_prim
