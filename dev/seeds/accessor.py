D = "func/packet.hpp"
PRE = r"""
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <array>
#include <xitren/func/packet.hpp>
using namespace xitren::func;
struct sum16 {
    using value_type = lsb_t<std::uint16_t>;
    template <class It> static constexpr value_type calculate(It b, It e) noexcept
    {
        std::uint16_t s = 0x1d0f;
        for (; b != e; ++b) s = static_cast<std::uint16_t>((s << 5) ^ (s >> 11) ^ *b);
        return value_type(s);
    }
};
struct __attribute__((__packed__)) head { std::uint8_t magic; std::uint16_t id; };
struct __attribute__((__packed__)) body { std::uint32_t a; std::uint8_t b; };
using A = packet_accessor<64>;
using In = A::fields_in<head, body, std::uint32_t>;
static bool put(A& a, std::uint32_t const* p, std::size_t n) { return a.serialize<head, body, std::uint32_t, sum16>(In{{1, 2}, {3, 4}, n, p}); }
static auto get(A const& a) { return a.deserialize<head, body, std::uint32_t, sum16>(); }
"""
SC = "        if ((input.size > 0) && (input.data != nullptr)) {\n            std::copy(reinterpret_cast<uint8_t const*>(input.data),\n                      reinterpret_cast<uint8_t const*>(input.data + input.size),\n                      reinterpret_cast<uint8_t*>(storage_.begin() + sizeof(Header) + sizeof(Fields)));\n        }\n"
SP = "        auto const crc_ptr = storage_.begin() + sizeof(Header) + sizeof(Fields) + input.size * sizeof(Type);\n        typename Crc::value_type const crc{Crc::calculate(storage_.begin(), crc_ptr)};\n"
SZ = "        size_ = length + input.size * sizeof(Type);\n"
SEEDS = [
 ("c35-remainder-of-size", "C35", D,
  [("        if (((size_ - length) % sizeof(Type))) {", "        if ((size_ % sizeof(Type)) != (length & 3)) {")],
  PRE + r"""
struct __attribute__((__packed__)) three { std::uint8_t v[3]; };
int main() {
    packet_accessor<64> a;
    // a packet of 10 + 2*3 bytes with three-byte elements
    three d[2] = {{{1, 2, 3}}, {{4, 5, 6}}};
    if (!a.serialize<head, body, three, sum16>(packet_accessor<64>::fields_in<head, body, three>{{1, 2}, {3, 4}, 2, d})) return 1;
    auto const r = a.deserialize<head, body, three, sum16>();
    if (!r.valid || r.size != 2) { std::puts("a good packet is refused"); return 2; }
    return 0;
}""", "an element type whose size is not a power of two", "sizes of whole numbers of elements are reported invalid, others may pass"),
 ("c35-checksum-before-data", "C35", D,
  [(SC + SP, SP + SC)],
  PRE + r"""
int main() {
    A a;
    std::uint32_t d[2] = {0, 0}, e[2] = {7, 8};
    if (!put(a, d, 2) || !get(a).valid) return 1;
    if (!put(a, e, 2)) return 2;
    if (!get(a).valid) { std::puts("fresh packet invalid"); return 4; }
    return 0;
}""", "data that differ from what the storage held before", "the checksum is computed over what was in the storage before the data"),
 ("c35-single-element-dropped", "C35", D,
  [(SC, SC.replace("(input.size > 0)", "(input.size > 1)"))],
  PRE + r"""
int main() {
    A a;
    std::uint32_t d[1] = {0xdeadbeef};
    if (!put(a, d, 1)) return 1;
    auto const r = get(a);
    std::uint32_t v;
    if (!r.valid || r.size != 1) return 2;
    std::memcpy(&v, r.data, 4);
    if (v != d[0]) { std::puts("the element is not in the packet"); return 4; }
    return 0;
}""", "a packet of exactly one element", "a single element is not copied into the packet"),
 ("c35-stale-size", "C35", D,
  [(SC, SC.replace("        }\n", "            size_ = length + input.size * sizeof(Type);\n        }\n")), (SZ + "        return true;", "        return size_ != 0;")],
  PRE + r"""
int main() {
    A a;
    std::uint32_t d[2] = {1, 2};
    if (!put(a, d, 2) || !get(a).valid) return 1;
    if (!put(a, nullptr, 0)) return 2;
    auto const r = get(a);
    if (!r.valid || r.size != 0) { std::puts("an empty packet keeps the old size"); return 4; }
    return 0;
}""", "an empty packet after one with data", "the size of the packet is stored only with data"),
]
