// Entry points of packet_accessor; the checksum algorithm is only declared, so the range it is given stays visible.
#include <cstdint>
#include <cstddef>
#include <new>
#include <xitren/func/packet.hpp>
namespace xf = xitren::func;
using u8 = std::uint8_t;
extern "C" std::uint16_t vp_crc16(u8 const* p, long n) noexcept;
extern "C" std::uint32_t vp_crc32(u8 const* p, long n) noexcept;
struct lcrc {
    using value_type = xf::lsb_t<std::uint16_t>;
    template <class It> static constexpr value_type calculate(It b, It e) noexcept { return value_type(vp_crc16(&*b, e - b)); }
};
struct mcrc {
    using value_type = xf::msb_t<std::uint32_t>;
    template <class It> static constexpr value_type calculate(It b, It e) noexcept { return value_type(vp_crc32(&*b, e - b)); }
};
struct __attribute__((__packed__)) h7 { u8 magic; std::uint32_t id; std::uint16_t n; };
struct h1 { u8 v; };
struct f1 { u8 v; };
struct f4 { std::uint16_t a, b; };
struct __attribute__((__packed__)) t3 { u8 a; std::uint16_t b; };
struct t24 { u8 v[24]; };
#define ACC(name, MAX, H, F, T, C)                                                                                                      \
    using name = xf::packet_accessor<MAX>;                                                                                              \
    using name##_out = decltype(std::declval<name const&>().deserialize<H, F, T, C>());                                                 \
    using name##_nc = decltype(std::declval<name const&>().deserialize_no_check<H, F, T, C>());                                         \
    using name##_in = name::fields_in<H, F, T>;                                                                                         \
    extern "C" {                                                                                                                        \
    unsigned long vp_##name##_k_max() { return MAX; }                                                                                   \
    unsigned long vp_##name##_k_h() { return sizeof(H); }                                                                               \
    unsigned long vp_##name##_k_f() { return sizeof(F); }                                                                               \
    unsigned long vp_##name##_k_t() { return sizeof(T); }                                                                               \
    unsigned long vp_##name##_k_c() { return sizeof(C::value_type); }                                                                   \
    unsigned long vp_##name##_k_oh() { return offsetof(name##_out, header); }                                                           \
    unsigned long vp_##name##_k_of() { return offsetof(name##_out, fields); }                                                           \
    unsigned long vp_##name##_k_ov() { return offsetof(name##_out, valid); }                                                            \
    unsigned long vp_##name##_k_os() { return offsetof(name##_out, size); }                                                             \
    unsigned long vp_##name##_k_od() { return offsetof(name##_out, data); }                                                             \
    unsigned long vp_##name##_k_nh() { return offsetof(name##_nc, header); }                                                            \
    unsigned long vp_##name##_k_nf() { return offsetof(name##_nc, fields); }                                                            \
    unsigned long vp_##name##_k_ns() { return offsetof(name##_nc, size); }                                                              \
    unsigned long vp_##name##_k_nd() { return offsetof(name##_nc, data); }                                                              \
    unsigned long vp_##name##_k_ih() { return offsetof(name##_in, header); }                                                            \
    unsigned long vp_##name##_k_if() { return offsetof(name##_in, fields); }                                                            \
    unsigned long vp_##name##_k_is() { return offsetof(name##_in, size); }                                                              \
    unsigned long vp_##name##_k_id() { return offsetof(name##_in, data); }                                                              \
    bool vp_##name##_ser(name& a, name##_in const& in) { return a.serialize<H, F, T, C>(in); }                                          \
    void vp_##name##_des(name const& a, void* o) { new (o) auto(a.deserialize<H, F, T, C>()); }                                         \
    void vp_##name##_nocheck(name const& a, void* o) { new (o) auto(a.deserialize_no_check<H, F, T, C>()); }                            \
    unsigned long vp_##name##_size(name const& a) { return a.size(); }                                                                  \
    void vp_##name##_setsize(name& a, unsigned long n) { a.size(n); }                                                                   \
    void* vp_##name##_st(name& a) { return a.storage().data(); }                                                                        \
    void const* vp_##name##_cst(name const& a) { return a.storage().data(); }                                                           \
    void vp_##name##_new(void* o) { new (o) name(); }                                                                                   \
    }
ACC(va, 64, h7, f4, u8, lcrc)
ACC(vb, 255, h1, f4, std::uint32_t, mcrc)
ACC(vc, 61, h7, f1, t3, lcrc)
ACC(vd, 1024, h1, f1, t24, mcrc)
ACC(ve, 6, h1, f1, std::uint16_t, mcrc)
ACC(vf, 70000, h7, f4, u8, lcrc)
