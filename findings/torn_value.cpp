// Shows the C05 known findings against the real code: a value read without the
// latch that guards it is half old, half new while Upsert overwrites it in place.
// Build: g++ -std=c++17 -w -include cstdint -include climits -DBOOST_FORCEINLINE=inline -Ilib/demostubs -I/repo/include -I/repo/src findings/torn_value.cpp -pthread
#include "../lib/demostubs/demo.h"
#include "indexes/art/concurrent_map.h"
#include "indexes/hashtable/concurrent_map.h"
#include "indexes/btree/concurrent_map.h"
inline std::function<void()> on_half;
inline int skip = 0; // half-way points to let pass first
struct V {
  long a = 0, b = 0;
  V(long x = 0) : a(x), b(x) {}
  V(const V &o) : a(o.a) { half(); b = o.b; }
  V &operator=(const V &o) { a = o.a; half(); b = o.b; return *this; }
  V &operator=(V &&o) { return *this = (const V &)o; }
  void half() { if (on_half && skip-- <= 0) { auto h = std::move(on_half); on_half = nullptr; h(); } }
};
struct K { long v; };
bool operator==(const K &x, const K &y) { return x.v == y.v; }
struct H { std::size_t operator()(const K &k) const { return k.v; } };
template <typename M, typename KEY> void run(const char *what, int n) {
  M m;
  m.Insert(KEY{1}, V(1));
  V got;
  skip = n;
  on_half = [&] { other([&] { got = *m.Search(KEY{1}); }); };
  m.Upsert(KEY{1}, V(2));
  std::printf("%s: Search during Upsert(1 -> 2) returned {%ld,%ld}%s\n", what, got.a, got.b, got.a != got.b ? "  TORN" : "");
}
bool operator<(const K &x, const K &y) { return x.v < y.v; }
void iter() {
  indexes::btree::concurrent_map<K, V> m;
  m.Insert(K{1}, V(1));
  V got;
  skip = 1;
  auto it = m.lower_bound(K{1});
  on_half = [&] { other([&] { got = it->second; }); };
  m.Upsert(K{1}, V(2));
  std::printf("btree: iterator during Upsert(1 -> 2) read {%ld,%ld}%s\n", got.a, got.b, got.a != got.b ? "  TORN" : "");
}
int main() {
  sync_prim::ThreadRegistry::RegisterThread();
  iter();
  run<indexes::art::concurrent_map<V>, unsigned long>("art", 4);
  run<indexes::hashtable::concurrent_map<K, V, H>, K>("hashtable", 1);
}
