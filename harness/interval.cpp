// Entry points of an interval event; the thread's body is exported from its std::thread state.
#include <xitren/func/interval_event.hpp>
using P = xitren::func::interval_event;
using F = std::function<void(void)>;
extern "C" {
void vp_ctor(void* p, F& f, long a, long b) { new (p) P(f, std::chrono::milliseconds(a), std::chrono::milliseconds(b)); }
void vp_dtor(P& p) { p.~P(); }
void vp_stop(P& p) { p.stop(); }
long vp_period(P const& p) { return p.period().count(); }
long vp_check(P const& p) { return p.period_between_checks().count(); }
void vp_set_period(P& p, long v) { p.period(std::chrono::milliseconds(v)); }
void vp_set_check(P& p, long v) { p.period_between_checks(std::chrono::milliseconds(v)); }
}
