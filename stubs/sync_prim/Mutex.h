#pragma once
// analysis stub: declarations only, every call stays visible in the IR
namespace sync_prim::mutex {
class Mutex {
  unsigned long m_state[2];
public:
  Mutex() noexcept;
  Mutex(const Mutex &) = delete;
  void lock() noexcept;
  bool try_lock() noexcept;
  void unlock() noexcept;
  bool is_locked() const noexcept;
};
} // namespace sync_prim::mutex
