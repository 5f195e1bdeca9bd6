PROPS = ["C31", "C32", "C34"]
D = "func/data.hpp"
C = ["C31"]
def b(i, *e): return ("bad", i, C, D, list(e))
def g(i, *e): return ("good", i, [], D, list(e))
def cmpf(c, op, body, const=" const"):
    return (f"    operator{op}({c}_t const& other) const\n    {{\n        return this->get() {op} other.get();\n    }}", f"    operator{op}({c}_t const& other){const}\n    {{\n        {body}\n    }}")
LC = "            value_ = value;\n        } else {\n            value_ = swap(value);\n"
MC = "            value_ = swap(value);\n        } else {\n            value_ = value;\n"
S16 = "    data<std::uint16_t> l{val};\n    std::swap(l.pure[0], l.pure[1]);\n    return l.fields;"
S32 = "    data<std::uint32_t> l{val};\n    std::swap(l.pure[0], l.pure[3]);\n    std::swap(l.pure[1], l.pure[2]);\n    return l.fields;"
S64 = "    data<std::uint64_t> l{val};\n    std::swap(l.pure[0], l.pure[7]);\n    std::swap(l.pure[1], l.pure[6]);\n    std::swap(l.pure[2], l.pure[5]);\n    std::swap(l.pure[3], l.pure[4]);\n    return l.fields;"
LG = "            return value_;\n        } else {\n            return swap(value_);\n"
MG = "            return swap(value_);\n        } else {\n            return value_;\n"
MSBASG = "    constexpr msb_t&\n    operator=(data_type value)\n    {\n        if constexpr (is_lsb()) {\n            value_ = swap(value);\n        } else {\n            value_ = value;\n        }\n"
LSBRV = "    constexpr lsb_t(data_type const&& value)\n    {\n        if constexpr (is_lsb()) {\n            value_ = value;\n        } else {\n            value_ = swap(value);\n        }\n"
CASES = [
 b("by-lsb-raw-be", ((LC, 1), LC.replace("swap(value)", "value"))),
 b("by-lsb-rv-swapped", (LSBRV, LSBRV.replace("= value;", "= swap(value);"))),
 b("by-msb-raw", ((MC, 1), MC.replace("swap(value)", "value"))),
 b("by-msb-assign-raw", (MSBASG, MSBASG.replace("swap(value)", "value"))),
 b("by-msb-assign-be", (MSBASG, MSBASG.replace("value_ = value", "value_ = swap(value)"))),
 b("by-lsb-get-be", (LG, LG.replace("swap(value_)", "value_"))),
 b("by-msb-get", (MG, MG.replace("swap(value_)", "value_"))),
 b("by-msb-get-be", (MG, MG.replace("return value_;", "return swap(value_);"))),
 b("by-swap64-middle", (S64, S64.replace("    std::swap(l.pure[3], l.pure[4]);\n", ""))),
 b("by-swap64-mixed", (S64, S64.replace("l.pure[2], l.pure[5]", "l.pure[2], l.pure[4]"))),
 b("by-swap32-half", (S32, "    return (val << 16) | (val >> 16);")),
 b("by-swap32-nibble", (S32, "    return ((val & 0xffu) << 24) | ((val & 0xff00u) << 8) | ((val >> 8) & 0xf000u) | (val >> 24);")),
 b("by-swap64-two32", (S64, "    return (static_cast<std::uint64_t>(swap(static_cast<std::uint32_t>(val >> 32))) << 32) | swap(static_cast<std::uint32_t>(val));")),
 b("by-swap16-id", (S16, "    return val;")),
 b("by-msb-eq-low", cmpf("msb", "==", "return static_cast<std::uint16_t>(this->get()) == static_cast<std::uint16_t>(other.get());")),
 b("by-msb-lt-raw", cmpf("msb", "<", "return value_ < other.value_;")),
 b("by-lsb-lt-raw-be", cmpf("lsb", "<", "return value_ < other.value_;")),
 b("by-lsb-gt-le", cmpf("lsb", ">", "return this->get() >= other.get();")),
 b("by-msb-le-lt", cmpf("msb", "<=", "return this->get() < other.get();")),
 b("by-msb-ge-swap", cmpf("msb", ">=", "return other.get() >= this->get();")),
 b("by-lsb-lt-signed", cmpf("lsb", "<", "return static_cast<std::make_signed_t<T>>(this->get()) < static_cast<std::make_signed_t<T>>(other.get());")),
 b("by-lsb-lt-diff-int", cmpf("lsb", "<", "return static_cast<std::int32_t>(this->get()) < static_cast<std::int32_t>(other.get());")),
 b("by-msb-eq-neq", cmpf("msb", "==", "return this->get() != other.get();")),
 b("by-lsb-eq-half-raw", cmpf("lsb", "==", "return value_ == swap(other.value_);")),
 b("by-lsb-memcmp-lt", cmpf("lsb", "<", "return __builtin_memcmp(&value_, &other.value_, sizeof(value_)) < 0;")),
 b("by-is-lsb-true", ("    return std::endian::native == std::endian::little;", "    return true;")),
 b("by-is-lsb-inv", ("std::endian::native == std::endian::little", "std::endian::native != std::endian::big ? true : true")),
 b("by-bigger", ("     * The actual value stored in the lsb_t.\n     */\n    data_type value_{};", "     * The actual value stored in the lsb_t.\n     */\n    data_type value_{};\n    bool set_{};")),
 b("by-unpacked", (("class __attribute__((__packed__)) lsb_t", 1), "class lsb_t")),
 g("by-const", *[cmpf(c, o, f"return this->get() {o} other.get();", "") for c in ("lsb", "msb") for o in ("==", "<", ">", "<=", ">=")]),
 g("by-builtin", (S16, "    return __builtin_bswap16(val);"), (S32, "    return __builtin_bswap32(val);"), (S64, "    return __builtin_bswap64(val);")),
 g("by-shifts", (S16, "    return static_cast<std::uint16_t>((val << 8) | (val >> 8));"), (S32, "    return ((val & 0xffu) << 24) | ((val & 0xff00u) << 8) | ((val >> 8) & 0xff00u) | (val >> 24);"),
   (S64, "    std::uint64_t r{};\n    for (int i = 0; i < 8; i++)\n        r = (r << 8) | ((val >> (8 * i)) & 0xff);\n    return r;")),
 g("by-reverse", (S64, "    data<std::uint64_t> l{val};\n    std::reverse(l.pure.begin(), l.pure.end());\n    return l.fields;")),
 g("by-loop-swap", (S32, "    data<std::uint32_t> l{val};\n    for (std::size_t i = 0; i < l.pure.size() / 2; ++i)\n        std::swap(l.pure[i], l.pure[l.pure.size() - 1 - i]);\n    return l.fields;")),
 g("by-two32", (S64, "    return (static_cast<std::uint64_t>(swap(static_cast<std::uint32_t>(val))) << 32) | swap(static_cast<std::uint32_t>(val >> 32));")),
 g("by-deleg", (LSBRV, LSBRV.replace("    {\n        if constexpr (is_lsb()) {\n            value_ = value;\n        } else {\n            value_ = swap(value);\n        }\n", "    {\n        *this = value;\n"))),
 g("by-gt-via-lt", cmpf("msb", ">", "return other.get() < this->get();"), cmpf("msb", "<=", "return !(this->get() > other.get());"), cmpf("lsb", ">=", "return !(*this < other);")),
 g("by-eq-raw", cmpf("msb", "==", "return value_ == other.value_;"), cmpf("lsb", "==", "return (value_ ^ other.value_) == 0;")),
 g("by-eq-memcmp", cmpf("msb", "==", "return __builtin_memcmp(&value_, &other.value_, sizeof(value_)) == 0;")),
 g("by-lt-branch", cmpf("msb", "<", "auto const a = this->get();\n        auto const b = other.get();\n        if (a == b)\n            return false;\n        return a < b;")),
 g("by-threeway", cmpf("lsb", "<=", "return (this->get() <=> other.get()) <= 0;")),
 g("by-skip-same", (MSBASG, MSBASG.replace("    {\n        if", "    {\n        if (value == this->get())\n            return *this;\n        if"))),
 g("by-get-named", (MG, "            data_type const v = swap(value_);\n            return v;\n        } else {\n            return value_;\n")),
 g("by-store-bytes", (MSBASG, MSBASG.replace("        if constexpr (is_lsb()) {\n            value_ = swap(value);\n        } else {\n            value_ = value;\n        }\n", "        data<data_type> d{};\n        for (std::size_t i = 0; i < sizeof(data_type); ++i)\n            d.pure[i] = static_cast<std::uint8_t>(value >> (8 * (sizeof(data_type) - 1 - i)));\n        value_ = d.fields;\n"))),
] + [("bad", i, ["C32"], D, list(e)) for i, *e in [
 ("by-des-short", ("begin, sizeof(fields), tt.pure.begin()", "begin, sizeof(fields) - 1, tt.pure.begin()")),
 ("by-des-long", ("std::copy_n(begin, sizeof(fields), tt.pure.begin());", "std::copy(begin, begin + sizeof(fields) + (sizeof(fields) % 2), tt.pure.begin());")),
 ("by-des-cap8", ("std::copy_n(begin, sizeof(fields), tt.pure.begin());", "std::copy(begin, begin + std::min<std::size_t>(sizeof(fields), 8), tt.pure.begin());")),
 ("by-des-rev", ("std::copy_n(begin, sizeof(fields), tt.pure.begin());", "std::reverse_copy(begin, begin + sizeof(fields), tt.pure.begin());")),
 ("by-des-off", ("std::copy_n(begin, sizeof(fields), tt.pure.begin());", "std::copy(begin + (is_lsb() ? 0 : 1), begin + sizeof(fields), tt.pure.begin());")),
 ("by-des-selfptr", ("std::copy_n(begin, sizeof(fields), tt.pure.begin());", "std::copy(begin, begin + sizeof(&fields), tt.pure.begin());")),
 ("by-ser-zero", ("        data<Type> tt{fields};\n        return tt.pure;", "        data<Type> tt{fields};\n        if constexpr (sizeof(fields) > 32)\n            tt.pure[sizeof(fields) - 1] = 0;\n        return tt.pure;")),
 ("by-ser-order", ("        data<Type> tt{fields};\n        return tt.pure;", "        data<Type> tt{fields};\n        if constexpr (sizeof(fields) <= 8 && !is_lsb())\n            std::reverse(tt.pure.begin(), tt.pure.end());\n        return tt.pure;")),
 ("by-put-short", ("std::copy(tt.pure.begin(), tt.pure.end(), begin);", "std::copy(tt.pure.begin(), tt.pure.end() - 1, begin);")),
 ("by-put-neg", ("std::copy(tt.pure.begin(), tt.pure.end(), begin);", "std::copy_backward(tt.pure.begin(), tt.pure.end(), begin + sizeof(fields) - 1);")),
 ("by-put-rev", ("std::copy(tt.pure.begin(), tt.pure.end(), begin);", "std::copy(tt.pure.rbegin(), tt.pure.rend(), begin);")),
 ("by-put-memcpy", ("std::copy(tt.pure.begin(), tt.pure.end(), begin);", "__builtin_memcpy(&*begin, tt.pure.data(), sizeof(fields));")),
 ("by-pure-more", ("std::array<std::uint8_t, sizeof(fields)> pure;", "std::array<std::uint8_t, (sizeof(fields) + 3) / 4 * 4> pure;")),
]] + [
 g("by-copy-n", ("std::copy_n(begin, sizeof(fields), tt.pure.begin());", "std::copy(begin, begin + sizeof(fields), tt.pure.begin());"), ("std::copy(tt.pure.begin(), tt.pure.end(), begin);", "std::copy_n(tt.pure.begin(), tt.pure.size(), begin);")),
 g("by-loop", ("std::copy_n(begin, sizeof(fields), tt.pure.begin());", "for (std::size_t i = 0; i < sizeof(fields); ++i)\n            tt.pure[i] = begin[i];"), ("std::copy(tt.pure.begin(), tt.pure.end(), begin);", "for (auto const byte : tt.pure)\n            *begin++ = byte;")),
 g("by-bitcast", ("        data<Type> tt{fields};\n        return tt.pure;", "        return std::bit_cast<std::array<std::uint8_t, sizeof(fields)>>(fields);")),
 g("by-ser-via", ("        data<Type> tt{fields};\n        return tt.pure;", "        std::array<std::uint8_t, sizeof(fields)> out{};\n        serialize(fields, out.begin());\n        return out;")),
 g("by-put-via", ("        data<Type> tt{type};\n        std::copy(tt.pure.begin(), tt.pure.end(), begin);", "        auto const bytes = serialize(type);\n        std::copy(bytes.begin(), bytes.end(), begin);")),
 g("by-put-backward", ("std::copy(tt.pure.begin(), tt.pure.end(), begin);", "std::copy_backward(tt.pure.begin(), tt.pure.end(), begin + sizeof(fields));")),
 g("by-ser-ptr", ("        data<Type> tt{type};\n        std::copy(tt.pure.begin(), tt.pure.end(), begin);", "        auto const* p = reinterpret_cast<std::uint8_t const*>(&type);\n        std::copy(p, p + sizeof(type), begin);")),
]
