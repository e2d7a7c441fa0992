#include <climits>
#include <cstdint>
#include <utility>
#include <vector>
#include <deque>
#include <mutex>
#include <iostream>
#include <sstream>
#include "indexes/art/concurrent_map.h"
using namespace indexes::art;
struct VV { unsigned long v; };
using M = concurrent_map<VV>;
#ifndef NO_EXPLICIT
template class indexes::art::concurrent_map<VV>; // completes nested enum types
#endif
#define ROOT extern "C" __attribute__((used))
ROOT bool root_artcm_Insert(M &m, unsigned long k, VV v) { return m.Insert(k, v); }
ROOT bool root_artcm_Upsert(M &m, unsigned long k, VV v) { return m.Upsert(k, v).has_value(); }
ROOT bool root_artcm_Update(M &m, unsigned long k, VV v) { return m.Update(k, v).has_value(); }
ROOT bool root_artcm_Search(M &m, unsigned long k) { return m.Search(k).has_value(); }
ROOT bool root_artcm_Delete(M &m, unsigned long k) { return m.Delete(k).has_value(); }
ROOT std::size_t root_artcm_size(M &m) { return m.size(); }
ROOT void root_artcm_dtor(M &m) { m.~M(); }
ROOT void root_artcm_reclaim(M &m) { m.reclaim_all(); }
