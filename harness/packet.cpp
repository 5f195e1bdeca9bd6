// Entry points of packet; the checksum algorithm is only declared, so the range it is given stays visible.
#include <cstdint>
#include <cstddef>
#include <new>
#include <vector>
#include <xitren/func/packet.hpp>
namespace xf = xitren::func;
using u8 = std::uint8_t;
extern "C" std::uint16_t vp_crc16(u8 const* p, long n) noexcept;
extern "C" std::uint32_t vp_crc32(u8 const* p, long n) noexcept;
struct lcrc {
    using value_type = xf::lsb_t<std::uint16_t>;
    template <class It> static constexpr value_type calculate(It b, It e) noexcept { return value_type(vp_crc16(&*b, e - b)); }
};
struct mcrc {
    using value_type = xf::msb_t<std::uint32_t>;
    template <class It> static constexpr value_type calculate(It b, It e) noexcept { return value_type(vp_crc32(&*b, e - b)); }
};
struct __attribute__((__packed__)) h7 { u8 magic; std::uint32_t id; std::uint16_t n; };
struct __attribute__((__packed__)) f12 { std::uint64_t t; xf::msb_t<std::uint32_t> v; };
struct h1 { u8 v; };
struct w1 { std::uint32_t v; };
struct f1 { u8 v; };
struct f24 { u8 v[24]; };
struct h4 { std::uint16_t a, b; };
#define PACK(name, H, F, C)                                                                                                             \
    using name = xf::packet<H, F, C>;                                                                                                   \
    extern "C" {                                                                                                                        \
    unsigned long vp_##name##_h() { return sizeof(H); }                                                                                 \
    unsigned long vp_##name##_f() { return sizeof(F); }                                                                                 \
    unsigned long vp_##name##_c() { return sizeof(C::value_type); }                                                                     \
    unsigned long vp_##name##_size() { return sizeof(name); }                                                                           \
    unsigned long vp_##name##_length() { return name::length; }                                                                         \
    void vp_##name##_build(void* o, H const& h, F const& f) { new (o) name(h, f); }                                                     \
    void vp_##name##_ser(void* o, H const& h, F const& f) { new (o) name::array_type(name::serialize(h, f)); }                          \
    bool vp_##name##_valid(name& p) { return p.valid(); }                                                                               \
    void vp_##name##_arr(void* o, std::array<u8, name::length> const& a) { new (o) name(static_cast<std::array<u8, name::length> const&&>(a)); } \
    void vp_##name##_iter(void* o, u8 const* a) { new (o) name(a); }                                                                    \
    void vp_##name##_iterv(void* o, u8 const* a) { new (o) name(std::vector<u8>::const_iterator(a)); }                                  \
    void vp_##name##_toarr(void* o, name const& p) { new (o) name::array_type(p.to_array()); }                                          \
    void vp_##name##_desit(void* o, u8 const* a) { new (o) name(name::deserialize(a)); }                                                \
    void vp_##name##_put(u8* o, name const& p) { name::serialize(p, o); }                                                               \
    void* vp_##name##_rh(name& p) { return &p.header(); }                                                                               \
    void* vp_##name##_rf(name& p) { return &p.fields(); }                                                                               \
    void* vp_##name##_rc(name& p) { return &p.crc(); }                                                                                  \
    void const* vp_##name##_ch(name const& p) { return &p.header(); }                                                                   \
    void const* vp_##name##_cf(name const& p) { return &p.fields(); }                                                                   \
    void const* vp_##name##_cc(name const& p) { return &p.crc(); }                                                                      \
    void vp_##name##_des(u8* ov, void* oh, void* of, std::array<u8, name::length> const& a)                                             \
    { auto const t = name::deserialize(a); *ov = std::get<0>(t); new (oh) H(std::get<1>(t)); new (of) F(std::get<2>(t)); }              \
    void vp_##name##_deslong(u8* ov, void* oh, void* of, std::array<u8, name::length + 5> const& a)                                     \
    { auto const t = name::deserialize(a); *ov = std::get<0>(t); new (oh) H(std::get<1>(t)); new (of) F(std::get<2>(t)); }              \
    }
PACK(pa, h7, f12, lcrc)
PACK(pb, h1, f1, mcrc)
PACK(pc, h4, f24, lcrc)
PACK(pd, h7, f1, mcrc)
PACK(pe, h1, w1, lcrc)
