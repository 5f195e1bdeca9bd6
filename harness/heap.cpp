// Entry points of static_heap<VP_N>.
#include <functional>
#include <xitren/allocators/static_heap.hpp>
#ifndef VP_N
#define VP_N 1024
#endif
using H = xitren::allocators::static_heap<VP_N>;
extern "C" {
void* vp_alloc(H& h, std::size_t n) { return h.allocate(n); }
void* vp_calloc(H& h, std::size_t n, std::size_t m) { return h.callocate(n, m); }
void vp_free(H& h, void* p) { h.deallocate(p); }
std::size_t vp_free_size(H& h) { return h.free_heap_size(); }
std::size_t vp_min_size(H& h) { return h.minimum_ever_free_heap_size(); }
void vp_reset(H& h) { h.reset_minimum_ever_free_heap_size(); }
void vp_stats(H& h, H::heap_stats_t& s) { h.v_port_get_heap_stats(&s); }
void vp_on_fail(H& h, std::function<void(void)> f) { h.on_fail(f); }
void vp_ctor(void* p) { new (p) H(); }
unsigned long vp_size_H() { return sizeof(H); }
unsigned long vp_align_H() { return alignof(H); }
unsigned long vp_stat_available() { return offsetof(H::heap_stats_t, x_available_heap_space_in_bytes); }
unsigned long vp_stat_largest() { return offsetof(H::heap_stats_t, x_size_of_largest_free_block_in_bytes); }
unsigned long vp_stat_smallest() { return offsetof(H::heap_stats_t, x_size_of_smallest_free_block_in_bytes); }
unsigned long vp_stat_blocks() { return offsetof(H::heap_stats_t, x_number_of_free_blocks); }
unsigned long vp_stat_min() { return offsetof(H::heap_stats_t, x_minimum_ever_free_bytes_remaining); }
unsigned long vp_stat_allocs() { return offsetof(H::heap_stats_t, x_number_of_successful_allocations); }
unsigned long vp_stat_frees() { return offsetof(H::heap_stats_t, x_number_of_successful_frees); }
}
