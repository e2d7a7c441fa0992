#include <utility>
#include <vector>
#include <deque>
#include <mutex>
#include <iostream>
#include <sstream>
#include "indexes/btree/concurrent_map.h"
#include "indexes/btree/key.h"
using namespace indexes::btree;
struct VK { unsigned long v; };
bool operator<(const VK&, const VK&) noexcept;
bool operator==(const VK&, const VK&) noexcept;
struct VV { unsigned long v; };
struct T : btree_traits_default { static constexpr int NODE_SIZE=1024; static constexpr bool STAT = true; };
using M = concurrent_map<VK, VV, T>;
#define ROOT extern "C" __attribute__((used))
bool more();
ROOT unsigned long root_btit_begin(M &m) { auto it = m.begin(); return it != m.end(); }
ROOT unsigned long root_btit_rbegin(M &m) { auto it = m.rbegin(); return it != m.rend(); }
ROOT unsigned long root_btit_lower(M &m, const VK &k) { auto it = m.lower_bound(k); return it != m.end(); }
ROOT unsigned long root_btit_upper(M &m, const VK &k) { auto it = m.upper_bound(k); return it != m.end(); }
ROOT unsigned long root_btit_next(M &m, const VK &k) { auto it = m.lower_bound(k); if (it == m.end()) return 0; ++it; return it != m.end(); }
ROOT unsigned long root_btit_prev(M &m, const VK &k) { auto it = m.lower_bound(k); if (it == m.end()) return 0; --it; return it != m.end(); }
ROOT unsigned long root_btit_value(M &m, const VK &k) { auto it = m.lower_bound(k); if (it == m.end()) return 0; return it->second.v; }
ROOT unsigned long root_btit_rnext(M &m) { auto it = m.rbegin(); if (it == m.rend()) return 0; it++; return it != m.rend(); }
ROOT unsigned long root_btit_range(M &m, const VK &a, const VK &b) { auto it = m.template range_iter<range_kind::INCLUSIVE, range_kind::EXCLUSIVE>(a, b); return (bool)it; }
ROOT unsigned long root_btit_rrange(M &m, const VK &a, const VK &b) { auto it = m.template rrange_iter<range_kind::EXCLUSIVE, range_kind::INCLUSIVE>(a, b); return (bool)it; }
ROOT unsigned long root_btit_ndrange(M &m, const VK &a, const VK &b) { auto it = m.template range_iter<range_kind::EXCLUSIVE, range_kind::INCLUSIVE>(a, b); if (!it) return 0; ++it; return it; }
ROOT unsigned long root_btsc_scan(M &m) { unsigned long s = 0; for (auto it = m.begin(); it != m.end(); it++) s += it->second.v; return s; }
ROOT unsigned long root_btsc_rscan(M &m) { unsigned long s = 0; for (auto it = m.rbegin(); it != m.rend(); it++) s += it->second.v; return s; }
ROOT unsigned long root_btsc_range(M &m, const VK &a, const VK &b) { unsigned long s = 0; auto it = m.template range_iter<range_kind::INCLUSIVE, range_kind::EXCLUSIVE>(a, b); while (it) { s += it.data().v; ++it; } return s; }
ROOT unsigned long root_btsc_rrange(M &m, const VK &a, const VK &b) { unsigned long s = 0; auto it = m.template rrange_iter<range_kind::INCLUSIVE, range_kind::EXCLUSIVE>(a, b); while (it) { s += it.data().v; ++it; } return s; }
