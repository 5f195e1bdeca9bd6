// Entry points of the LRU cache.
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <xitren/cache/lru.hpp>
#ifndef VP_K
#define VP_K int
#endif
#ifndef VP_V
#define VP_V long
#endif
#ifndef VP_N
#define VP_N 5
#endif
#ifndef VP_EXC
#define VP_EXC true
#endif
using L = xitren::cache::lru<VP_K, VP_V, VP_N, VP_EXC>;
using R = decltype(std::declval<L&>().get(VP_K{}));
extern "C" {
void vp_put(L& c, VP_K const& k, VP_V const& v) { c.put(k, v); }
void vp_get(void* r, L& c, VP_K const& k) { new (r) R(c.get(k)); }
void vp_ctor(void* p, std::chrono::system_clock::duration d) { new (p) L(d); }
long vp_expired(L const& c) { return c.expired_after().count(); }
}
#include <optional>
#include <tuple>
using Item = R::value_type;
using List = std::list<Item>;
using Map  = std::unordered_map<VP_K, List::iterator>;
extern "C" {
void const* vp_item_key(Item const& i) { return &std::get<0>(i); }
void const* vp_item_value(Item const& i) { return &std::get<1>(i); }
void const* vp_item_time(Item const& i) { return &std::get<2>(i); }
void const* vp_deref(List::iterator const& i) { return &*i; }
void const* vp_second(Map::iterator const& i) { return &i->second; }
void const* vp_second_ord(std::map<VP_K, List::iterator>::iterator const& i) { return &i->second; }
bool vp_has(R const& r) { return r.has_value(); }
void const* vp_payload(R const& r) { return &*r; }
unsigned long vp_sizeof_K() { return sizeof(VP_K); }
unsigned long vp_sizeof_V() { return sizeof(VP_V); }
}
