#include <utility>
#include <vector>
#include <deque>
#include <mutex>
#include <iostream>
#include <sstream>
#include "indexes/hashtable/concurrent_map.h"
using namespace indexes::hashtable;
struct VK { unsigned long v; };
bool operator==(const VK&, const VK&) noexcept;
struct VV { unsigned long v; };
struct VH { std::size_t operator()(const VK&) const noexcept; };
using M = concurrent_map<VK, VV, VH>;
#define ROOT extern "C" __attribute__((used))
ROOT bool root_ht_Insert(M &m, const VK &k, const VV &v) { return m.Insert(k, v); }
ROOT bool root_ht_Upsert(M &m, const VK &k, const VV &v) { return m.Upsert(k, v).has_value(); }
ROOT bool root_ht_Update(M &m, const VK &k, const VV &v) { return m.Update(k, v).has_value(); }
ROOT bool root_ht_Search(M &m, const VK &k) { return m.Search(k).has_value(); }
ROOT bool root_ht_Delete(M &m, const VK &k) { return m.Delete(k).has_value(); }
ROOT void root_ht_reserve(M &m, std::size_t n) { m.reserve(n); }
ROOT std::size_t root_ht_size(M &m) { return m.size(); }
ROOT void root_ht_reclaim(M &m) { m.reclaim_all(); }
ROOT double root_ht_load_factor(M &m) { return m.load_factor(); }
ROOT void root_ht_dtor(M &m) { m.~M(); }
