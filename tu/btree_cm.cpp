#include <utility>
#include <vector>
#include <deque>
#include <mutex>
#include <iostream>
#include <sstream>
#include "indexes/btree/concurrent_map.h"
#include "indexes/btree/key.h"
using namespace indexes::btree;
struct VK { unsigned long v; };
bool operator<(const VK&, const VK&) noexcept;
bool operator==(const VK&, const VK&) noexcept;
struct VV { unsigned long v; };
struct T : btree_traits_default { static constexpr int NODE_SIZE=1024; static constexpr bool STAT = true; };
using M = concurrent_map<VK, VV, T>;
#define ROOT extern "C" __attribute__((used))
ROOT bool root_btcm_Insert(M &m, const VK &k, const VV &v) { return m.Insert(k, v); }
ROOT bool root_btcm_Upsert(M &m, const VK &k, const VV &v) { return m.Upsert(k, v).has_value(); }
ROOT bool root_btcm_Update(M &m, const VK &k, const VV &v) { return m.Update(k, v).has_value(); }
ROOT bool root_btcm_Search(M &m, const VK &k) { return m.Search(k).has_value(); }
ROOT bool root_btcm_Delete(M &m, const VK &k) { return m.Delete(k).has_value(); }
ROOT std::size_t root_btcm_size(M &m) { return m.size(); }
ROOT bool root_btcm_empty(M &m) { return m.empty(); }
ROOT void root_btcm_reclaim(M &m) { m.reclaim_all(); }
ROOT void root_btcm_dtor(M &m) { m.~M(); }
