// Shows, against the real EpochManager, two ways an object is reclaimed while a
// thread inside a section entered before it was retired can still use it.
//  min: get_min_used_epoch returned the epoch of the slot std::min_element found,
//       read again: if that thread left its section in between the result is QUIESCENT.
//  sb:  enter_epoch published its epoch with a release store, so the loads of the
//       section could pass it (store buffering): the reclaimer sees no section.
// Build: g++ -std=c++17 -O2 -w -include cstdint -include climits -Ilib/demostubs -I/repo/include findings/epoch_min.cpp -pthread
#include "../lib/demostubs/demo.h"
#include "indexes/utils/EpochManager.h"
#include <atomic>
#include <thread>
using namespace indexes::utils;
struct Obj { std::atomic<bool> freed{false}; };
using EM = EpochManager<uint64_t, Obj>;
static std::atomic<long> ph{0};
static void wait(long n) { while (ph.load() < n) ; }
static long min_race(long rounds) {
  EM em;
  long bad = 0;
  std::atomic<long> r1{0}, d1{0}, r2{0}, d2{0};
  std::atomic<int> cmd{0};
  std::atomic<long> go{-1}, ack{-1};
  std::atomic<bool> stop{false};
  std::thread t1([&] {
    sync_prim::ThreadRegistry::RegisterThread();
    for (long i = 0; i < rounds; i++) {
      em.enter_epoch();
      ack.store(2 * i);
      while (go.load() < 2 * i) ;
      for (volatile int k = 0; k < i % 40; k++) ;
      em.exit_epoch();
      ack.store(2 * i + 1);
      while (go.load() < 2 * i + 1) ;
    }
  });
  std::thread t2([&] {
    sync_prim::ThreadRegistry::RegisterThread();
    for (long i = 0; i < rounds; i++) {
      while (r2.load() < 2 * i + 1) ;
      em.enter_epoch();
      d2.store(2 * i + 1);
      while (r2.load() < 2 * i + 2) ;
      em.exit_epoch();
      d2.store(2 * i + 2);
    }
  });
  for (long i = 0; i < rounds; i++) {
    while (ack.load() != 2 * i) ;
    em.switch_epoch();
    r2.store(2 * i + 1);
    while (d2.load() != 2 * i + 1) ; // t2 is inside from here on
    Obj o;
    em.retire_in_current_epoch([](Obj *p) { p->freed = true; }, &o);
    go.store(2 * i); // t1 leaves its (older) section
    for (volatile int k = 0; k < (i / 40) % 40; k++) ;
    em.do_reclaim();
    bad += o.freed;
    while (ack.load() != 2 * i + 1) ;
    r2.store(2 * i + 2);
    while (d2.load() != 2 * i + 2) ;
    em.switch_epoch();
    em.do_reclaim();
    go.store(2 * i + 1);
    if (!o.freed) std::abort();
  }
  t1.join();
  t2.join();
  return bad;
}
static long sb_race(long rounds) {
  EM em;
  static Obj dummy;
  std::atomic<Obj *> link;
  std::atomic<long> turn{-1}, fin{-1};
  std::atomic<Obj *> got;
  long bad = 0;
  std::thread t([&] {
    sync_prim::ThreadRegistry::RegisterThread();
    for (long i = 0; i < rounds; i++) {
      while (turn.load() < 2 * i) ;
      em.enter_epoch();
      got.store(link.load(std::memory_order_acquire), std::memory_order_relaxed);
      fin.store(2 * i);
      while (turn.load() < 2 * i + 1) ;
      em.exit_epoch();
      fin.store(2 * i + 1);
    }
  });
  for (long i = 0; i < rounds; i++) {
    Obj o;
    link.store(&o);
    turn.store(2 * i);
    for (volatile int k = 0; k < i % 30; k++) ;
    link.exchange(nullptr); // unlinked
    em.retire_in_new_epoch([](Obj *p) { p->freed = true; }, &o);
    em.do_reclaim();
    bool freed = o.freed; // nobody was seen inside
    while (fin.load() < 2 * i) ;
    if (freed && got.load() == &o)
      bad++;
    turn.store(2 * i + 1);
    while (fin.load() < 2 * i + 1) ;
    em.do_reclaim();
  }
  t.join();
  return bad;
}
int main(int argc, char **argv) {
  sync_prim::ThreadRegistry::RegisterThread();
  long n = argc > 1 ? atol(argv[1]) : 300000, a = min_race(n), b = sb_race(n);
  std::printf("reclaimed under a reader: min %ld, sb %ld of %ld\n", a, b, n);
  return a || b;
}
