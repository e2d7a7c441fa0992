#include <climits>
#include <cstdint>
#include <utility>
#include <vector>
#include <deque>
#include <iostream>
#include <sstream>
#include "indexes/art/map.h"
using namespace indexes::art;
struct VV { unsigned long v; };
using M = map<VV>;
#ifndef NO_EXPLICIT
template class indexes::art::map<VV>; // completes nested enum types
#endif
#define ROOT extern "C" __attribute__((used))
ROOT bool root_artm_Insert(M &m, unsigned long k, VV v) { return m.Insert(k, v); }
ROOT bool root_artm_Upsert(M &m, unsigned long k, VV v) { return m.Upsert(k, v).has_value(); }
ROOT bool root_artm_Search(M &m, unsigned long k) { return m.Search(k).has_value(); }
ROOT bool root_artm_Delete(M &m, unsigned long k) { return m.Delete(k).has_value(); }
ROOT std::size_t root_artm_size(M &m) { return m.size(); }
ROOT void root_artm_dtor(M &m) { m.~M(); }
ROOT bool root_artm_Update(M &m, unsigned long k, VV v) { return m.Update(k, v).has_value(); }
