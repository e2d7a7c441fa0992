#include <utility>
#include <vector>
#include <deque>
#include <iostream>
#include <sstream>
#include "indexes/btree/map.h"
using namespace indexes::btree;
struct VK { unsigned long v; };
bool operator<(const VK&, const VK&) noexcept;
bool operator==(const VK&, const VK&) noexcept;
struct VV { unsigned long v; };
struct T : btree_traits_default { static constexpr int NODE_SIZE=1024; static constexpr bool STAT = false; };
struct Less { bool operator()(const VK &a, const VK &b) const { return a < b; } };
using M = map<VK, VV, T, Less>;
#define ROOT extern "C" __attribute__((used))
ROOT VV *root_btm_index(M &m, const VK &k) { return &m[k]; }
ROOT bool root_btm_Delete(M &m, const VK &k) { return m.erase(k); }
ROOT bool root_btm_Search(M &m, const VK &k) { return m.find(k) != m.end(); }
ROOT std::size_t root_btm_size(M &m) { return m.size(); }
ROOT void root_btm_dtor(M &m) { m.~M(); }
