// Entry points of the byte conversions and of the little- and big-endian fields.
#include <xitren/func/data.hpp>
#include <array>
#include <cstring>
#include <new>
namespace xf = xitren::func;
#define PASTE_(a, b) a##b
#define PASTE(a, b) PASTE_(a, b)
#define FIELD(name, C, T)                                                                                          \
    extern "C" {                                                                                                   \
    void vp_##name##_ctor(void* o, T const& v) { new (o) xf::C<T>(v); }                                            \
    void vp_##name##_ctor_rv(void* o, T const v) { new (o) xf::C<T>(static_cast<T const&&>(v)); }                  \
    void vp_##name##_assign(xf::C<T>& o, T v) { o = v; }                                                           \
    void* vp_##name##_assign_ret(xf::C<T>& o, T v) { return &(o = v); }                                            \
    T vp_##name##_get(xf::C<T> const& o) { return o.get(); }                                                       \
    void vp_##name##_copy(void* o, xf::C<T> const& v) { new (o) xf::C<T>(v); }                                     \
    void vp_##name##_copy_assign(xf::C<T>& o, xf::C<T> const& v) { o = v; }                                        \
    bool vp_##name##_eq(xf::C<T>& a, xf::C<T>& b) { return a == b; }                                               \
    bool vp_##name##_ne(xf::C<T>& a, xf::C<T>& b) { return a != b; }                                               \
    bool vp_##name##_lt(xf::C<T>& a, xf::C<T>& b) { return a < b; }                                                \
    bool vp_##name##_gt(xf::C<T>& a, xf::C<T>& b) { return a > b; }                                                \
    bool vp_##name##_le(xf::C<T>& a, xf::C<T>& b) { return a <= b; }                                               \
    bool vp_##name##_ge(xf::C<T>& a, xf::C<T>& b) { return a >= b; }                                               \
    bool vp_##name##_eq_plain(xf::C<T>& a, T b) { return a == b; }                                                 \
    bool vp_##name##_lt_plain(xf::C<T>& a, T b) { return a < b; }                                                  \
    bool vp_##name##_ge_plain(xf::C<T>& a, T b) { return a >= b; }                                               \
    }
FIELD(lsb16, lsb_t, std::uint16_t)
FIELD(lsb32, lsb_t, std::uint32_t)
FIELD(lsb64, lsb_t, std::uint64_t)
FIELD(msb16, msb_t, std::uint16_t)
FIELD(msb32, msb_t, std::uint32_t)
FIELD(msb64, msb_t, std::uint64_t)
extern "C" {
std::uint16_t vp_swap16(std::uint16_t v) { return xf::swap(v); }
std::uint32_t vp_swap32(std::uint32_t v) { return xf::swap(v); }
std::uint64_t vp_swap64(std::uint64_t v) { return xf::swap(v); }
bool vp_is_lsb() { return xf::is_lsb(); }
}
