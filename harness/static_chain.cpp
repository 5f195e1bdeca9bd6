// The compile-time observer list with 1, 2, 3 and 6 observers, some of them of one type.
#include <concepts>
#include <xitren/comm/observer_static.hpp>
#ifndef VP_T
#define VP_T int
#endif
namespace xc = xitren::comm;
struct vp_big { long a[4]; };
using vp_T = VP_T;
template <int I> struct vp_o : xc::observer<vp_T, vp_o<I>> { void notification_impl(xc::observable_impl<vp_T> const& src, vp_T const& d); };
using A = vp_o<0>; using B = vp_o<1>; using C = vp_o<2>;
void vp_root(xc::observable_impl<vp_T> const*);
extern "C" {
void vp_1(A& a, vp_T const& d) { xc::observable<vp_T, A> c(a); vp_root(&c.root); c.notify(d); }
void vp_2(A& a, B& b, vp_T const& d) { xc::observable<vp_T, A, B> c(a, b); vp_root(&c.root); c.notify(d); }
void vp_2same(A& a, A& b, vp_T const& d) { xc::observable<vp_T, A, A> c(a, b); vp_root(&c.root); c.notify(d); }
void vp_3(A& a, B& b, A& c_, vp_T const& d) { xc::observable<vp_T, A, B, A> c(a, b, c_); vp_root(&c.root); c.notify(d); }
void vp_6(A& a, B& b, C& c_, B& e, A& f, B& g, vp_T const& d) { xc::observable<vp_T, A, B, C, B, A, B> c(a, b, c_, e, f, g); vp_root(&c.root); c.notify(d); }
void vp_twice(A& a, B& b, C& c_, vp_T const& d, vp_T const& d2) { xc::observable<vp_T, A, B, C> c(a, b, c_); vp_root(&c.root); c.notify(d); c.notify(d2); }
unsigned long vp_sizeof_T() { return sizeof(vp_T); }
}
