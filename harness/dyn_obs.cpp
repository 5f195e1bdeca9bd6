// Entry points of the unbounded registries: observable<VP_T, false> and values::observable<VP_T, 0>.
#include <vector>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
#ifndef VP_T
#define VP_T int
#endif
namespace xc = xitren::comm;
using Obs  = xc::observable<VP_T, false, 0>;
using Sink = xc::observer<VP_T>;
using VObs = xc::values::observable<VP_T, 0>;
using VSink = xc::values::observed<VP_T>;
struct vp_sink : Sink {
    void disconnect(void const*) override;
    void data(void const*, VP_T const&) override;
};
void vp_sink::disconnect(void const*) {}
void vp_sink::data(void const*, VP_T const&) {}
struct vp_vsink : VSink {
    void disconnect(void const*) override;
};
void vp_vsink::disconnect(void const*) {}
extern "C" {
void vp_add(Obs& o, Sink& x) { o.add_observer(x); }
void vp_remove(Obs& o, Sink& x) { o.remove_observer(x); }
void vp_clear(Obs& o) { o.clear_observers(); }
void vp_notify(Obs& o, VP_T const& n) { o.notify_observers(n); }
void vp_dtor(Obs& o) { o.Obs::~Obs(); }
int vp_v_add(VObs& o, VSink& x) { return (int)o.add_observer(x); }
int vp_v_remove(VObs& o, VSink& x) { return (int)o.remove_observer(x); }
void vp_v_clear(VObs& o) { o.clear_observers(); }
int vp_v_notify(VObs& o, VP_T const& n) { return (int)o.notify_observers(n); }
void vp_v_dtor(VObs& o) { o.VObs::~VObs(); }
int vp_code_ok() { return (int)xc::observer_errors::ok; }
int vp_code_full() { return (int)xc::observer_errors::list_is_full; }
int vp_code_dup() { return (int)xc::observer_errors::already_contains; }
int vp_code_missing() { return (int)xc::observer_errors::not_found; }
int vp_code_broken() { return (int)xc::observer_errors::internal_data_broken; }
int vp_code_recursion() { return (int)xc::observer_errors::notify_recursion_detected; }
unsigned long vp_sizeof_T() { return sizeof(VP_T); }
}
