H = "allocators/static_heap.hpp"
A = "allocators/static_heap_allocator.hpp"
HDR = r'''
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <memory>
#include <vector>
using namespace xitren::allocators;
#define CHECK(x) do { if (!(x)) { std::puts("FAILED: " #x); return 1; } } while (0)
using heap = static_heap<1024>;
'''
ACC = "                        x_free_bytes_remaining_ += px_link->x_block_size;\n"
INSCALL = "                        prv_insert_block_into_free_list(((block_link_t*)px_link));\n"
SEEDS = [
 ("c01-calloc-wraps-small-count", "C01", H,
  [("return (((a) > 0) && ((b) > (heap_size_max / (a))));", "return (((a) > 0xff) && ((b) > (heap_size_max / (a))));")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    CHECK(h->callocate(3, 8) != nullptr);
    CHECK(h->callocate(2, (std::size_t(1) << 63) + 8) == nullptr);
    return 0;
}''', "a zeroed request of few elements of an enormous size", "the product wraps round and a tiny block is returned for an impossible request"),
 ("c01-first-fit-header-short", "C01", H,
  [("while ((px_block->x_block_size < x_wanted_size)", "while ((px_block->x_block_size + port_byte_alignment < x_wanted_size)")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    void *a = h->allocate(48), *b = h->allocate(48), *c = h->allocate(100);
    CHECK(a && b && c);
    std::memset(b, 0x11, 48);
    h->deallocate(a);
    auto* d = static_cast<std::uint8_t*>(h->allocate(56));   // must not fit between the start and b
    CHECK(d != nullptr);
    CHECK(d != a);
    return 0;
}''', "a free block exactly eight bytes too short precedes one that fits", "the short block is handed out and overlaps its neighbour"),
 ("c02-release-counts-merged-size", "C02", H, [(ACC, ""), (INSCALL, INSCALL + ACC)],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    auto const before = h->free_heap_size();
    void *a = h->allocate(40), *b = h->allocate(40), *c = h->allocate(40);
    CHECK(a && b && c);
    h->deallocate(a);          // no neighbour is free
    CHECK(h->free_heap_size() < before);
    h->deallocate(c);          // followed by the free rest of the heap
    h->deallocate(b);
    CHECK(h->free_heap_size() == before);
    return 0;
}''', "a released block is followed by a free one", "the free figure also counts the neighbour that was free already"),
 ("c02-low-water-mark-restarts", "C02", H,
  [("                        if (x_free_bytes_remaining_ < x_minimum_ever_free_bytes_remaining_) {",
    "                        if (x_free_bytes_remaining_ < x_minimum_ever_free_bytes_remaining_\n                            || x_number_of_successful_allocations_ == x_number_of_successful_frees_) {")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    void* a = h->allocate(400);
    CHECK(a);
    auto const low = h->minimum_ever_free_heap_size();
    h->deallocate(a);
    void* b = h->allocate(8);
    CHECK(b && h->minimum_ever_free_heap_size() == low);
    return 0;
}''', "an allocation from a heap whose every earlier block has been released", "the minimum-ever figure rises again"),
 ("c03-left-join-skipped-at-end", "C03", H,
  [("        if ((puc + px_iterator->x_block_size) == (uint8_t*)px_block_to_insert) {",
    "        if ((puc + px_iterator->x_block_size) == (uint8_t*)px_block_to_insert\n            && heap_protect_block_pointer(px_iterator->px_next_free_block) != px_end_) {")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    auto const all = h->free_heap_size();
    void *a = h->allocate(200), *b = h->allocate(all - 200 - 8 - 2 * 16);
    CHECK(a && b);
    CHECK(h->free_heap_size() < 48);
    h->deallocate(a);
    h->deallocate(b);
    void* c = h->allocate(all - 64);
    CHECK(c != nullptr);
    return 0;
}''', "the last block of the heap is released after the one before it", "two abutting free blocks stay apart and a request that fits is refused"),
 ("c04-callback-twice-for-zeroed", "C04", H,
  [("            pv = allocate(x_num * x_size);\n\n            if (pv != nullptr) {", "            pv = allocate(x_num * x_size);\n\n            if (pv == nullptr) {\n                if (x_num > 1 && callback_ != nullptr) {\n                    callback_();\n                }\n            } else {")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    int n = 0;
    h->on_fail([&] { n++; });
    CHECK(h->callocate(1, 5000) == nullptr && n == 1);
    CHECK(h->callocate(2, 5000) == nullptr && n == 2);
    return 0;
}''', "a zeroed request of several elements that does not fit", "the failure callback is called twice"),
 ("c05-release-trusts-link", "C05", H,
  [("            if (heap_block_is_allocated(px_link) != 0) {", "            if (heap_block_is_allocated(px_link) != 0 || px_link->x_block_size != 0) {")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    void *a = h->allocate(40), *b = h->allocate(40), *c = h->allocate(40);
    CHECK(a && b && c);
    h->deallocate(a);
    h->deallocate(b);          // joined to a
    auto const f = h->free_heap_size();
    h->deallocate(b);          // already free
    CHECK(h->free_heap_size() == f);
    return 0;
}''', "releasing a second time a block that was joined to the one before it", "the double release is accepted and the free figure grows"),
 ("c06-rebound-adaptors-differ", "C06", A,
  [("        return !this->operator==(other);", "        return sizeof(U) != sizeof(Type) || !this->operator==(other);")],
  HDR + r'''
int main() {
    auto g = std::make_unique<heap>(), h = std::make_unique<heap>();
    static_heap_allocator<int, 1024> a(*g), b(*h);
    static_heap_allocator<double, 1024> c(*g);
    CHECK(a != b && !(a != a));
    CHECK(a == c && !(a != c));
    return 0;
}''', "comparing two adaptors of one heap whose element types differ in size", "adaptors of one heap compare both equal and unequal"),

 ("c04-exact-fit-refused", "C04", H,
  [("                    while ((px_block->x_block_size < x_wanted_size)", "                    while ((px_block->x_block_size < x_wanted_size + (px_previous_block != &x_start_))")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    int n = 0;
    h->on_fail([&] { n++; });
    void *p = h->allocate(8), *a = h->allocate(8), *q = h->allocate(8), *b = h->allocate(120), *s = h->allocate(8);
    CHECK(p && a && q && b && s);
    while (h->allocate(200)) {}
    while (h->allocate(8)) {}
    int const before = n;
    h->deallocate(a);
    h->deallocate(b);
    CHECK(h->allocate(120) == b && n == before);
    return 0;
}''', "a request that exactly fills a free block which is not the first one", "the request is refused although a large enough block is free"),
 ("c04-refused-at-level", "C04", H,
  [("if ((x_wanted_size > 0) && (x_wanted_size <= x_free_bytes_remaining_)) {", "if ((x_wanted_size > 0) && (x_wanted_size < x_free_bytes_remaining_)) {")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    auto const all = h->free_heap_size();
    CHECK(h->allocate(all - 16) != nullptr);
    CHECK(h->free_heap_size() == 0);
    return 0;
}''', "a request for everything that is left", "the whole free space can never be handed out"),
 ("c03-plugged-gap-keeps-link", "C03", H,
  [("                px_block_to_insert->px_next_free_block\n                    = heap_protect_block_pointer(px_iterator->px_next_free_block)->px_next_free_block;",
    "                if (px_iterator != px_block_to_insert) {\n                    px_block_to_insert->px_next_free_block\n                        = heap_protect_block_pointer(px_iterator->px_next_free_block)->px_next_free_block;\n                }")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    void *a = h->allocate(64), *b = h->allocate(64), *c = h->allocate(64), *d = h->allocate(64);
    CHECK(a && b && c && d);
    h->deallocate(a);
    h->deallocate(c);
    h->deallocate(b);          // plugs the gap between two free blocks
    void *e = h->allocate(3 * 64 + 2 * 16);
    CHECK(e == a);
    void* f = h->allocate(64); // must come from behind d
    CHECK(f == nullptr || f > d);
    return 0;
}''', "a release that plugs the gap between two free blocks", "the absorbed block stays on the free list and is handed out a second time"),
 ("c01-zeroed-short-tail", "C01", H,
  [("memset(pv, 0, x_num * x_size);", "memset(pv, 0, x_num * x_size & ~port_byte_alignment_mask);")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    void* a = h->allocate(40);
    std::memset(a, 0x5a, 40);
    h->deallocate(a);
    auto* b = static_cast<unsigned char*>(h->callocate(13, 3));
    CHECK(b);
    for (int i = 0; i < 39; i++) CHECK(b[i] == 0);
    return 0;
}''', "a zeroed request whose size is no multiple of eight, over memory used before", "the last bytes are not cleared"),
 ("c02-whole-block-not-marked-low", "C02", H,
  [("                        x_free_bytes_remaining_ -= px_block->x_block_size;\n\n                        if (x_free_bytes_remaining_ < x_minimum_ever_free_bytes_remaining_) {",
    "                        x_free_bytes_remaining_ -= px_block->x_block_size;\n\n                        if (px_new_block_link != nullptr\n                            && x_free_bytes_remaining_ < x_minimum_ever_free_bytes_remaining_) {"),
   ("        block_link_t* px_new_block_link;", "        block_link_t* px_new_block_link = nullptr;")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    auto const all = h->free_heap_size();
    CHECK(h->allocate(all - 16) != nullptr);
    CHECK(h->minimum_ever_free_heap_size() == h->free_heap_size());
    return 0;
}''', "an allocation that takes a free block whole", "the low-water mark is above the free figure"),
 ("c02-smallest-of-none", "C02", H,
  [("                    if (px_block->x_block_size < x_min_size) {", "                    if (px_block->x_block_size < x_min_size && px_block->x_block_size > x_heap_struct_size * 4) {")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    void *a = h->allocate(8), *b = h->allocate(8);
    CHECK(a && b);
    h->deallocate(a);
    typename heap::heap_stats_t st{};
    h->v_port_get_heap_stats(&st);
    CHECK(st.x_size_of_smallest_free_block_in_bytes == 24);
    return 0;
}''', "a small free block in front of the rest", "the statistics do not report the smallest free block"),
 ("c05-handed-out-keeps-link", "C05", H,
  [("                        px_block->px_next_free_block = heap_protect_block_pointer(NULL);\n", "                        if (x_allocated_block_size == x_wanted_size) {\n                            px_block->px_next_free_block = heap_protect_block_pointer(NULL);\n                        }\n")],
  HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    auto const all = h->free_heap_size();
    void* a = h->allocate(all - 16 - 8);      // the rest is too small to be split off
    CHECK(a);
    h->deallocate(a);
    CHECK(h->free_heap_size() == all);
    return 0;
}''', "handing out a block whole whose rest is too small to be split off", "its release is ignored because it still looks linked"),
]
