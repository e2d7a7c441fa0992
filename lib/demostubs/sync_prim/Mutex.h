#pragma once
// Working stand-in for sync_prim's mutex: records what each thread holds, stops
// the program when a latch is misused, and lets a demo run code around events.
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <mutex>
#include <vector>
#include <unistd.h>
namespace sync_prim::mutex {
class Mutex;
inline thread_local std::vector<Mutex *> tl_held;
inline std::function<void(const char *, Mutex *)> g_hook;
inline thread_local bool tl_nohook = false;
inline void misuse(const char *w) {
  std::fprintf(stderr, "DEMO: %s\n", w);
  _exit(3);
}
class Mutex {
  std::timed_mutex m;
  void hook(const char *w) {
    if (g_hook && !tl_nohook) {
      tl_nohook = true;
      g_hook(w, this);
      tl_nohook = false;
    }
  }

public:
  Mutex() noexcept {}
  Mutex(const Mutex &) = delete;
  void lock() noexcept {
    hook("before-lock");
    for (auto *h : tl_held)
      if (h == this)
        misuse("latch acquired twice by one operation");
    if (!m.try_lock_for(std::chrono::seconds(4)))
      misuse("latch never becomes free (deadlock)");
    tl_held.push_back(this);
    hook("after-lock");
  }
  bool try_lock() noexcept {
    for (auto *h : tl_held)
      if (h == this)
        return false;
    if (!m.try_lock())
      return false;
    tl_held.push_back(this);
    return true;
  }
  void unlock() noexcept {
    hook("before-unlock");
    for (size_t i = tl_held.size(); i-- > 0;)
      if (tl_held[i] == this) {
        tl_held.erase(tl_held.begin() + i);
        m.unlock();
        hook("after-unlock");
        return;
      }
    misuse("latch released that is not held");
  }
  bool is_locked() noexcept {
    for (auto *h : tl_held)
      if (h == this)
        return true;
    if (m.try_lock()) {
      m.unlock();
      return false;
    }
    return true;
  }
  bool is_locked() const noexcept { return const_cast<Mutex *>(this)->is_locked(); }
};
} // namespace sync_prim::mutex
