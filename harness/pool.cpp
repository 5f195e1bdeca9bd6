// Entry points of a pool of pipeline stages; the workers' body is exported from its std::thread state.
#include <cstddef>
#include <deque>
#include <limits>
#include <xitren/comm/pipeline_stage_pool.hpp>
#ifndef VP_T
#define VP_T int
#endif
#ifndef VP_N
#define VP_N 8
#endif
#ifndef VP_P
#define VP_P 3
#endif
struct vp_log {
    static vp_log& trace();
    static vp_log& debug();
    static vp_log& info();
    static vp_log& warning();
    static vp_log& error();
    template <class X> vp_log& operator<<(X const&) { return *this; }
};
struct vp_big {
    long a[5];
};
using VP_M = xitren::comm::measure_data;
using P = xitren::comm::pipeline_stage_pool<VP_T, void, VP_N, VP_P, vp_log>;
using F = std::function<const void(xitren::comm::pipeline_stage_exception, const VP_T, const xitren::comm::measure_data)>;
extern "C" {
void vp_ctor(void* p, F& f) { new (p) P(f); }
void vp_dtor(P& p) { p.~P(); }
void vp_push(P& p, VP_T const& d) { p.push(d); }
void vp_push_rv(P& p, VP_T const& d) { p.push(std::move(d)); }
unsigned long vp_sizeof_T() { return sizeof(VP_T); }
unsigned long vp_sizeof_slot() { return sizeof(std::optional<VP_T>); }
unsigned long vp_n() { return VP_N; }
unsigned long vp_p() { return VP_P; }
unsigned long vp_off_id() { return offsetof(VP_M, id); }
unsigned long vp_off_time() { return offsetof(VP_M, time); }
unsigned long vp_off_load() { return offsetof(VP_M, load); }
}
