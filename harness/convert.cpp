// Entry points of data<T>'s byte conversions.
#include <xitren/func/data.hpp>
#include <array>
#include <cstddef>
#include <iterator>
#include <new>
#include <vector>
namespace xf = xitren::func;
struct __attribute__((__packed__)) odd { std::uint8_t a; std::uint32_t b; std::uint16_t c; };
struct padded { std::uint8_t a; std::uint64_t b; std::uint16_t c; };
struct wide { std::uint8_t b[37]; };
struct huge { std::uint8_t b[300]; };
struct nested { xf::msb_t<std::uint32_t> m; xf::lsb_t<std::uint16_t> l[3]; std::uint8_t t; };
// an iterator that is not a pointer: a window and a position
template <class B> struct at {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = std::uint8_t;
    using difference_type = std::ptrdiff_t;
    using reference = B&;
    using pointer = B*;
    B* base{};
    difference_type pos{};
    B& operator*() const { return base[pos]; }
    at& operator++() { ++pos; return *this; }
    at operator++(int) { at r = *this; ++pos; return r; }
    at& operator--() { --pos; return *this; }
    at operator--(int) { at r = *this; --pos; return r; }
    at& operator+=(difference_type n) { pos += n; return *this; }
    at& operator-=(difference_type n) { pos -= n; return *this; }
    at operator+(difference_type n) const { at r = *this; r.pos += n; return r; }
    at operator-(difference_type n) const { at r = *this; r.pos -= n; return r; }
    difference_type operator-(at const& o) const { return pos - o.pos; }
    B& operator[](difference_type n) const { return base[pos + n]; }
    bool operator==(at const& o) const { return pos == o.pos; }
    auto operator<=>(at const& o) const { return pos <=> o.pos; }
    friend at operator+(difference_type n, at const& a) { return a + n; }
};
using u8 = std::uint8_t;
using vec = std::vector<u8>;
#define CONV(name, T)                                                                                                    \
    extern "C" {                                                                                                         \
    void vp_##name##_ser(void* out, T const& v) { new (out) std::array<u8, sizeof(T)>(xf::data<T>::serialize(v)); }      \
    void vp_##name##_put(u8* out, T const& v) { xf::data<T>::serialize(v, out); }                                        \
    void vp_##name##_putv(u8* out, T const& v) { xf::data<T>::serialize(v, vec::iterator(out)); }                        \
    void vp_##name##_putat(u8* out, T const& v) { xf::data<T>::serialize(v, at<u8>{out, 3}); }                           \
    void vp_##name##_putrev(u8* out, T const& v) { xf::data<T>::serialize(v, std::reverse_iterator<u8*>(out + sizeof(T))); } \
    void vp_##name##_des(void* out, u8 const* in) { new (out) T(xf::data<T>::deserialize(in)); }                         \
    void vp_##name##_desm(void* out, u8* in) { new (out) T(xf::data<T>::deserialize(in)); }                              \
    void vp_##name##_desv(void* out, u8* in) { new (out) T(xf::data<T>::deserialize(vec::iterator(in))); }               \
    void vp_##name##_desat(void* out, u8 const* in) { new (out) T(xf::data<T>::deserialize(at<u8 const>{in, 3})); }      \
    void vp_##name##_desrev(void* out, u8 const* in) { new (out) T(xf::data<T>::deserialize(std::reverse_iterator<u8 const*>(in + sizeof(T)))); } \
    void vp_##name##_trip(void* out, T const& v) { new (out) T(xf::data<T>::deserialize(xf::data<T>::serialize(v).begin())); } \
    }                                                                                                                    \
    extern "C" { unsigned long vp_##name##_size() { return sizeof(T); } }
CONV(b1, std::uint8_t)
CONV(b2, std::uint16_t)
CONV(b4, std::uint32_t)
CONV(b8, std::uint64_t)
CONV(dbl, double)
CONV(odd, odd)
CONV(nest, nested)
CONV(wide, wide)
CONV(huge, huge)
CONV(pad, padded)
using lsb = xf::lsb_t<std::uint32_t>;
using msb = xf::msb_t<std::uint64_t>;
CONV(lsb, lsb)
CONV(msb, msb)
