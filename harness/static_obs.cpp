// Entry points of the bounded registries: observable<VP_T, true, VP_N> and values::observable<VP_T, VP_N>.
#include <vector>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
#ifndef VP_T
#define VP_T int
#endif
#ifndef VP_N
#define VP_N 8
#endif
namespace xc = xitren::comm;
using Obs  = xc::observable<VP_T, true, VP_N>;
using Sink = xc::observer<VP_T>;
using VObs = xc::values::observable<VP_T, VP_N>;
using VSink = xc::values::observed<VP_T>;
struct vp_sink : Sink {
    void disconnect(void const*) override;
    void data(void const*, VP_T const&) override;
};
void vp_sink::disconnect(void const*) {}
void vp_sink::data(void const*, VP_T const&) {}
struct vp_vsink : VSink {
    void disconnect(void const*) override;
};
void vp_vsink::disconnect(void const*) {}
extern "C" {
int vp_add(Obs& o, Sink& x) { return (int)o.add_observer(x); }
int vp_remove(Obs& o, Sink& x) { return (int)o.remove_observer(x); }
void vp_clear(Obs& o) { o.clear_observers(); }
int vp_notify(Obs& o, VP_T const& n) { return (int)o.notify_observers(n); }
void vp_dtor(Obs& o) { o.Obs::~Obs(); }
void vp_ctor(void* o) { new (o) Obs(); }
int vp_v_add(VObs& o, VSink& x) { return (int)o.add_observer(x); }
int vp_v_remove(VObs& o, VSink& x) { return (int)o.remove_observer(x); }
void vp_v_clear(VObs& o) { o.clear_observers(); }
int vp_v_notify(VObs& o, VP_T const& n) { return (int)o.notify_observers(n); }
void vp_v_dtor(VObs& o) { o.VObs::~VObs(); }
void vp_v_ctor(void* o) { new (o) VObs(); }
int vp_code_ok() { return (int)xc::observer_errors::ok; }
int vp_code_full() { return (int)xc::observer_errors::list_is_full; }
int vp_code_dup() { return (int)xc::observer_errors::already_contains; }
int vp_code_missing() { return (int)xc::observer_errors::not_found; }
int vp_code_broken() { return (int)xc::observer_errors::internal_data_broken; }
int vp_code_recursion() { return (int)xc::observer_errors::notify_recursion_detected; }
unsigned long vp_sizeof_T() { return sizeof(VP_T); }
}
