// Entry points of the in-place holder; the held type's operations are only declared, so they stay visible.
#include <cstddef>
#include <cstdint>
#include <xitren/func/fast_pimpl.hpp>
struct M {
    long v;
};
struct V {
    int x;
    long y;
#ifdef VP_PAD
    char pad[VP_PAD];
#endif
    V();
    V(int a, char* b);
    V(M const& m);
    V(M&& m);
    V(V const&);
    V(V&&);
    ~V();
    V& operator=(V const&);
    V& operator=(V&&);
    int use() const;
};
#ifndef VP_SIZE
#define VP_SIZE 16
#define VP_ALIGN 8
#define VP_STRICT false
#endif
using P = xitren::func::fast_pimpl<V, VP_SIZE, VP_ALIGN, VP_STRICT>;
using Q = xitren::func::fast_pimpl<std::uint64_t, VP_SIZE, VP_ALIGN, false>;
extern "C" {
void vp_new0(void* p) { new (p) P(); }
void vp_new2(void* p, int a, char* b) { new (p) P(a, b); }
void vp_newl(void* p, M& m) { new (p) P(m); }
void vp_newc(void* p, M const& m) { new (p) P(m); }
void vp_newr(void* p, M& m) { new (p) P(static_cast<M&&>(m)); }
void vp_newv(void* p, V& m) { new (p) P(m); }
void vp_newvr(void* p, V& m) { new (p) P(static_cast<V&&>(m)); }
void vp_copy(void* p, P const& o) { new (p) P(o); }
void vp_copym(void* p, P& o) { new (p) P(o); }
void vp_move(void* p, P& o) { new (p) P(static_cast<P&&>(o)); }
void vp_del(P& p) { p.~P(); }
void* vp_asg(P& p, P const& o) { return &(p = o); }
void* vp_asgm(P& p, P& o) { return &(p = static_cast<P&&>(o)); }
void* vp_arrow(P& p) { return p.operator->(); }
void const* vp_arrowc(P const& p) { return p.operator->(); }
void* vp_deref(P& p) { return &*p; }
void const* vp_derefc(P const& p) { return &*p; }
unsigned long vp_size() { return sizeof(P); }
unsigned long vp_align() { return alignof(P); }
unsigned long vp_vsize() { return sizeof(V); }
unsigned long vp_valign() { return alignof(V); }
void vp_qnew(void* p, std::uint64_t v) { new (p) Q(v); }
void vp_qcopy(void* p, Q const& o) { new (p) Q(o); }
void vp_qmove(void* p, Q& o) { new (p) Q(static_cast<Q&&>(o)); }
void vp_qasg(Q& p, Q const& o) { p = o; }
void vp_qasgm(Q& p, Q& o) { p = static_cast<Q&&>(o); }
void vp_qset(Q& p, std::uint64_t v) { *p = v; }
std::uint64_t vp_qget(Q const& p) { return *p; }
unsigned long vp_qsize() { return sizeof(Q); }
}
