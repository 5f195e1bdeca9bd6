// Operators of the published value (bounded and unbounded registry) and the observed value.
#include <utility>
#include <vector>
#include <xitren/comm/values/observable.hpp>
#ifndef VP_T
#define VP_T int
#endif
namespace xv = xitren::comm::values;
using S = xv::observable<VP_T, 5>;
using D = xv::observable<VP_T, 0>;
using O = xv::observed<VP_T>;
using F = std::function<void(VP_T const)>;
#define VP_OPS(p, X)                                              \
    VP_T vp_##p##_postinc(X& o) { return o++; }                   \
    VP_T vp_##p##_postdec(X& o) { return o--; }                   \
    VP_T vp_##p##_preinc(X& o) { return ++o; }                    \
    VP_T vp_##p##_predec(X& o) { return --o; }                    \
    VP_T vp_##p##_add(X& o, int x) { return o += x; }             \
    VP_T vp_##p##_sub(X& o, int x) { return o -= x; }             \
    VP_T vp_##p##_set(X& o, VP_T x) { return o = x; }             \
    VP_T vp_##p##_get(X& o) { return o.value(); }
extern "C" {
VP_OPS(s, S)
VP_OPS(d, D)
void vp_notification(O& o, void const* src, VP_T const& d) { o.notification(src, d); }
VP_T vp_value(O& o) { return o.value(); }
void vp_on_update(O& o, F& f) { o.on_update(std::move(f)); }
void vp_on_update_raw(O& o, F& f) { o.on_update(f); }
void vp_default(void* p) { new (p) O; }
void vp_from(void* p, F& f) { new (p) O(f); }
unsigned long vp_sizeof_T() { return sizeof(VP_T); }
}
