// Entry points of static_heap_allocator: the heap's own operations stay opaque (decided in heap.cpp).
#include <functional>
#include <new>
#include <xitren/allocators/static_heap_allocator.hpp>
#ifndef VP_N
#define VP_N 1024
#endif
#ifndef VP_T
#define VP_T int
#endif
struct vp_other {
    char bytes[40];
};
using H = xitren::allocators::static_heap<VP_N>;
using A = xitren::allocators::static_heap_allocator<VP_T, VP_N>;
using B = xitren::allocators::static_heap_allocator<vp_other, VP_N>;
extern "C" {
VP_T* vp_a_alloc(A& a, std::size_t n) { return a.allocate(n); }
void vp_a_free(A& a, VP_T* p, std::size_t n) { a.deallocate(p, n); }
void vp_a_ctor(void* m, H& h) { new (m) A(h); }
void vp_a_copy(void* m, A const& o) { new (m) A(o); }
void vp_a_rebind(void* m, B const& o) { new (m) A(o); }
bool vp_a_eq(A const& a, A const& b) { return a == b; }
bool vp_a_ne(A const& a, A const& b) { return a != b; }
bool vp_a_eq_other(A const& a, B const& b) { return a == b; }
bool vp_a_ne_other(A const& a, B const& b) { return a != b; }
unsigned long vp_a_sizeof() { return sizeof(VP_T); }
}
