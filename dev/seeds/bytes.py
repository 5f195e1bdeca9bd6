D = "func/data.hpp"
H = r'''
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <vector>
#include <xitren/func/data.hpp>
using namespace xitren::func;
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); return 1; } } while (0)
'''
SEEDS = [
 ("c31-order-by-difference", "C31", D, [("    operator<(lsb_t const& other) const\n    {\n        return this->get() < other.get();", "    operator<(lsb_t const& other) const\n    {\n        // a single subtraction instead of a comparison\n        return static_cast<std::int64_t>(static_cast<std::uint64_t>(this->get()) - other.get()) < 0;")],
  H + r'''
int main() {
    lsb_t<std::uint32_t> a{5}, b{0xfffffff0u};
    CHECK(a < b && !(b < a));
    lsb_t<std::uint64_t> c{1}, d{0x9000000000000000ull};
    CHECK(c < d);
    CHECK(!(d < c));
    return 0;
}''', "64-bit values more than half the range apart", "the order is decided by the sign of the difference"),
 ("c31-swap64-halves", "C31", D, [("    std::swap(l.pure[0], l.pure[7]);\n    std::swap(l.pure[1], l.pure[6]);\n    std::swap(l.pure[2], l.pure[5]);\n    std::swap(l.pure[3], l.pure[4]);\n    return l.fields;",
   "    for (std::size_t i = 0; i < l.pure.size() / 2 - 1; ++i)\n        std::swap(l.pure[i], l.pure[l.pure.size() - 1 - i]);\n    return l.fields;")],
  H + r'''
int main() {
    msb_t<std::uint64_t> m{0x0102030405060708ull};
    unsigned char const want[] = {1, 2, 3, 4, 5, 6, 7, 8};
    CHECK(std::memcmp(&m, want, 8) == 0);
    CHECK(m.get() == 0x0102030405060708ull);
    return 0;
}''', "a 64-bit value whose two middle bytes differ", "the two middle bytes stay where they are"),
 ("c31-msb-le-raw", "C31", D, [("    operator<=(msb_t const& other) const\n    {\n        return this->get() <= other.get();", "    operator<=(msb_t const& other) const\n    {\n        return value_ == other.value_ || value_ < other.value_;")],
  H + r'''
int main() {
    msb_t<std::uint16_t> a{1}, b{1}, c{0x0100};
    CHECK(a <= b);
    CHECK(a <= c);
    CHECK(!(c <= a));
    return 0;
}''', "big-endian fields whose stored bytes order differently from their values", "compares the stored bytes as a number of the host"),
 ("c31-lsb-assign-narrow", "C31", D, [("    constexpr lsb_t&\n    operator=(data_type value)\n    {\n        if constexpr (is_lsb()) {\n            value_ = value;", "    constexpr lsb_t&\n    operator=(data_type value)\n    {\n        if constexpr (is_lsb()) {\n            value_ = value & 0xffff'ffffu;")],
  H + r'''
int main() {
    lsb_t<std::uint32_t> a; a = 0xdeadbeefu; CHECK(a.get() == 0xdeadbeefu);
    lsb_t<std::uint64_t> b; b = 0x1'0000'0001ull; CHECK(b.get() == 0x1'0000'0001ull);
    return 0;
}''', "assigning a 64-bit value above 2^32", "the upper half of the value is dropped"),
 ("c32-word-blocks", "C32", D, [("        data<Type> tt{};\n", "        auto tt = data<Type>{};\n        if constexpr (sizeof(fields) > 4) {\n            std::copy_n(begin, sizeof(fields) / 4 * 4, tt.pure.begin());\n            return tt.fields;\n        }\n")],
  H + r'''
struct __attribute__((__packed__)) head { std::uint32_t a; std::uint16_t b; std::uint8_t c; };
int main() {
    head h{0x11223344u, 0x5566, 0x77};
    auto bytes = data<head>::serialize(h);
    head r = data<head>::deserialize(bytes.begin());
    CHECK(std::memcmp(&r, &h, sizeof h) == 0);
    CHECK(data<std::uint64_t>::deserialize(data<std::uint64_t>::serialize(0x0102030405060708ull).begin()) == 0x0102030405060708ull);
    return 0;
}''', "a type of more than four bytes whose size is no multiple of four", "the last bytes are not copied"),
 ("c32-tail-clobbered", "C32", D, [("        std::copy(tt.pure.begin(), tt.pure.end(), begin);", "        // whole words, the tail included\n        std::array<std::uint8_t, (sizeof(Type) + 1) / 2 * 2> padded{};\n        std::copy(tt.pure.begin(), tt.pure.end(), padded.begin());\n        std::copy(padded.begin(), padded.end(), begin);")],
  H + r'''
struct __attribute__((__packed__)) odd { std::uint8_t a, b, c; };
int main() {
    std::vector<std::uint8_t> buf(6, 0xaa);
    data<odd>::serialize(odd{1, 2, 3}, buf.begin() + 1);
    CHECK(buf[0] == 0xaa && buf[1] == 1 && buf[2] == 2 && buf[3] == 3);
    CHECK(buf[4] == 0xaa && buf[5] == 0xaa);
    return 0;
}''', "a type of odd size", "one byte past the target range is overwritten"),
 ("c32-backwards-from-high-address", "C32", D, [("        data<Type> tt{};\n", "        auto tt = data<Type>{};\n        if constexpr (std::random_access_iterator<InputIterator> && !std::contiguous_iterator<InputIterator>) {\n            auto const* first = &*(begin + (sizeof(fields) - 1)) - (sizeof(fields) - 1);\n            std::copy(first, first + sizeof(fields), tt.pure.begin());\n            return tt.fields;\n        }\n")],
  H + r'''
#include <iterator>
int main() {
    unsigned char bytes[20] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0, 0};
    auto v = data<std::uint64_t>::deserialize(std::make_reverse_iterator(bytes + 16));
    std::uint64_t want;
    unsigned char rev[8] = {8, 7, 6, 5, 4, 3, 2, 1};
    std::memcpy(&want, rev, 8);
    CHECK(v == want);
    return 0;
}''', "an iterator that does not walk towards higher addresses", "reads the bytes before the range handed over, in the wrong order"),
]
