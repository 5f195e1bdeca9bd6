D = "func/packet.hpp"
PRE = r"""
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <array>
#include <xitren/func/packet.hpp>
using namespace xitren::func;
struct sum16 {
    using value_type = lsb_t<std::uint16_t>;
    template <class It> static constexpr value_type calculate(It b, It e) noexcept
    {
        std::uint16_t s = 0x1d0f;
        for (; b != e; ++b) s = static_cast<std::uint16_t>((s << 5) ^ (s >> 11) ^ *b);
        return value_type(s);
    }
};
struct __attribute__((__packed__)) head { std::uint8_t magic; std::uint16_t id; };
struct __attribute__((__packed__)) body { std::uint32_t a; std::uint8_t b; };
using P = packet<head, body, sum16>;
"""
SEEDS = [
 ("c34-header-not-covered", "C34", D,
  [("        fields_.crc = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));", "        fields_.crc = Crc::calculate(pure_.begin() + sizeof(Header), pure_.end() - sizeof(typename Crc::value_type));"),
   ("        return (fields_.crc == Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)));", "        return (fields_.crc == Crc::calculate(pure_.begin() + sizeof(Header), pure_.end() - sizeof(typename Crc::value_type)));")],
  PRE + r"""
int main() {
    P p{head{7, 1234}, body{99, 3}};
    if (!p.valid()) { std::puts("fresh packet invalid"); return 1; }
    p.header().id ^= 0x100;
    if (p.valid()) { std::puts("a corrupted header is accepted"); return 2; }
    return 0;
}""", "a packet whose header, and nothing else, was damaged", "the checksum is computed and checked over the fields only"),
 ("c34-compare-low-byte", "C34", D,
  [("        return (fields_.crc == Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)));",
    "        auto const expected = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));\n        return !((fields_.crc.get() ^ expected.get()) & 0xff);")],
  PRE + r"""
int main() {
    P p{head{7, 1234}, body{99, 3}};
    if (!p.valid()) return 1;
    p.crc() = static_cast<std::uint16_t>(p.crc().get() ^ 0x4000);
    if (p.valid()) { std::puts("a wrong checksum is accepted"); return 2; }
    return 0;
}""", "damage that leaves the low byte of the checksum right", "only part of the checksum is compared"),
 ("c34-body-padded", "C34", D,
  [("    using struct_nocrc_type = struct __attribute__((__packed__)) {", "    using struct_nocrc_type = struct {")],
  PRE + r"""
struct small { std::uint8_t v; };
struct word { std::uint32_t v; };
int main() {
    using Q = packet<small, word, sum16>;
    auto const a = Q::serialize({5}, {0x01020304});
    auto const want = sum16::calculate(a.begin(), a.begin() + 5);
    if (a[5] != (want.get() & 0xff) || a[6] != (want.get() >> 8)) { std::puts("checksum over other bytes"); return 1; }
    return 0;
}""", "a header whose size does not keep the fields aligned", "the checksum is computed over padding bytes the packet does not contain"),
 ("c34-valid-repairs", "C34", D,
  [("        return (fields_.crc == Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)));",
    "        auto const received = fields_.crc;\n        fields_.crc         = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));\n        return received.get() == fields_.crc.get();")],
  PRE + r"""
int main() {
    P p{head{7, 1234}, body{99, 3}};
    if (!p.valid() || !p.valid()) return 1;
    p.fields().b ^= 1;
    if (p.valid()) { std::puts("damage accepted"); return 2; }
    if (p.valid()) { std::puts("damage accepted when asked again"); return 4; }
    return 0;
}""", "a damaged packet asked twice for its validity", "looking at a packet overwrites the checksum received"),
]
