PROPS = ["C32", "C34"]
D = "func/packet.hpp"
def b(i, *e): return ("bad", i, ["C34"], D, list(e))
def g(i, *e): return ("good", i, [], D, list(e))
CT = "        fields_.crc = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));"
VA = "        return (fields_.crc == Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)));"
S1 = "        auto data_tr = data<struct_nocrc_type>::serialize({header, fields});"
S2 = "        auto crc     = Crc::calculate(data_tr.begin(), data_tr.end());"
S3 = "        return data<struct_type>::serialize({header, fields, crc});"
D1 = "        struct_type              tt{data<struct_type>::deserialize(array.begin())};"
D2 = "        typename Crc::value_type crc{tt.crc};"
D3 = "        auto const               calc_crc = Crc::calculate(array.begin(), array.begin() + sizeof(struct_nocrc_type));"
D4 = "        return {crc == calc_crc, Header{tt.header}, Fields{tt.fields}};"
IT = "        std::copy_n(begin, length, pure_.begin());"
DI = "        std::copy_n(begin, length, tt.pure.begin());"
PU = "        std::copy(tt.pure.begin(), tt.pure.end(), begin);"
TA = "    to_array() const noexcept\n    {\n        return pure_;"
LN = "    static constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));"
PRE = "    constexpr bool\n    valid() noexcept\n    {\n"
CASES = [
 b("pk-ct-all", (CT, "        fields_.crc = Crc::calculate(pure_.begin(), pure_.end());")),
 b("pk-ct-short", (CT, "        fields_.crc = Crc::calculate(pure_.begin(), pure_.begin() + sizeof(Header));")),
 b("pk-ct-less1", (CT, "        fields_.crc = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type) - 1);")),
 b("pk-ct-skip", (CT, "        fields_.crc = Crc::calculate(pure_.begin() + sizeof(Header), pure_.end() - sizeof(typename Crc::value_type));")),
 b("pk-ct-nocrc", (CT, "        fields_.crc = {};")),
 b("pk-ct-2", (CT, "        fields_.crc = Crc::calculate(pure_.begin(), pure_.end() - 2);")),
 b("pk-ct-twice", (CT, CT + "\n        fields_.crc = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type) - 1);")),
 b("pk-ct-mod-after", (CT, CT + "\n        pure_[0] = 0;")),
 b("pk-ct-crc-first", (": fields_{header, fields, {}}", ": fields_{header, {}, {}}"), (CT, CT + "\n        fields_.fields = fields;")),
 b("pk-valid-true", (VA, "        return true;")),
 b("pk-valid-ne", (VA, VA.replace("==", "!="))),
 b("pk-valid-ge", (VA, VA.replace("==", "<="))),
 b("pk-valid-less", (VA, VA.replace("pure_.begin()", "pure_.begin() + 1"))),
 b("pk-valid-short", (VA, VA.replace("value_type)));", "value_type) - 1));"))),
 b("pk-valid-byte", (VA, "        auto const c = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));\n        return *reinterpret_cast<std::uint8_t const*>(&fields_.crc) == *reinterpret_cast<std::uint8_t const*>(&c);")),
 b("pk-valid-zero", (VA, "        if (fields_.crc.get() == 0) return true;\n" + VA)),
 b("pk-valid-zerofalse", (VA, "        if (fields_.crc.get() == 0) return false;\n" + VA)),
 b("pk-valid-store", (VA, "        auto const old = fields_.crc;\n" + CT + "\n        return old.get() == fields_.crc.get();")),
 b("pk-valid-16", (VA, "        auto const c = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));\n        return static_cast<std::uint16_t>(fields_.crc.get()) == static_cast<std::uint16_t>(c.get());")),
 b("pk-ser-header", (S2, "        auto crc     = Crc::calculate(data_tr.begin(), data_tr.begin() + sizeof(Header));")),
 b("pk-ser-m1", (S2, "        auto crc     = Crc::calculate(data_tr.begin(), data_tr.end() - 1);")),
 b("pk-ser-rev", (S2, "        std::reverse(data_tr.begin(), data_tr.end());\n" + S2)),
 b("pk-ser-struct", (S1, "        auto data_tr = data<struct_type>::serialize({header, fields, {}});")),
 b("pk-ser-nofields", (S3, "        return data<struct_type>::serialize({header, {}, crc});")),
 b("pk-ser-swapcrc", (S3, "        std::reverse(reinterpret_cast<std::uint8_t*>(&crc), reinterpret_cast<std::uint8_t*>(&crc) + sizeof(crc));\n" + S3)),
 b("pk-ser-unpacked", ("struct_nocrc_type = struct __attribute__((__packed__)) {", "struct_nocrc_type = struct {")),
 b("pk-des-true", (D4, D4.replace("crc == calc_crc", "true"))),
 b("pk-des-ne", (D4, D4.replace("==", "!="))),
 b("pk-des-self", (D2, "        typename Crc::value_type crc{Crc::calculate(array.begin(), array.begin() + sizeof(struct_nocrc_type))};")),
 b("pk-des-long", (D3, "        auto const               calc_crc = Crc::calculate(array.begin(), array.end() - sizeof(typename Crc::value_type));")),
 b("pk-des-long2", (D1, "        struct_type              tt{data<struct_type>::deserialize(array.begin() + (Size - length))};")),
 b("pk-des-crclong", (D2, "        typename Crc::value_type crc{data<typename Crc::value_type>::deserialize(array.end() - sizeof(typename Crc::value_type))};")),
 b("pk-des-hdr", (D3, "        auto const               calc_crc = Crc::calculate(array.begin(), array.begin() + sizeof(Header));")),
 b("pk-des-nofields", (D4, D4.replace("Fields{tt.fields}", "Fields{}"))),
 b("pk-des-clear", (D4, "        if (!(crc == calc_crc)) { return {false, Header{}, Fields{}}; }\n" + D4)),
 b("pk-des-nostruct", (D3, "        auto const               calc_crc = Crc::calculate(array.begin(), array.begin() + sizeof(struct_type));")),
 b("pk-iter-less", (IT, IT.replace("length", "length - 1"))),
 b("pk-iter-end", (IT, "        std::copy_n(begin, sizeof(struct_nocrc_type), pure_.begin());")),
 b("pk-iter-crc", (IT, IT + "\n        fields_.crc = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));")),
 b("pk-desit-less", (DI, DI.replace("length", "sizeof(struct_nocrc_type)"))),
 b("pk-put-less", (PU, PU.replace("tt.pure.end()", "tt.pure.end() - 1"))),
 b("pk-put-rev", (PU, "        std::reverse_copy(tt.pure.begin(), tt.pure.end(), begin);")),
 b("pk-toarr", (TA, "    to_array() const noexcept\n    {\n        auto r = pure_; r[length - 1] = 0; return r;")),
 b("pk-order", ("        Header                   header;\n        Fields                   fields;", "        Fields                   fields;\n        Header                   header;"), (": fields_{header, fields, {}}", ": fields_{.fields = fields, .header = header, .crc = {}}"), (S3, "        return data<struct_type>::serialize({fields, header, crc});")),
 b("pk-unpacked", ("    using struct_type                 = struct __attribute__((__packed__)) {", "    using struct_type                 = struct {")),
 b("pk-crc-ref", ("        typename Crc::value_type* const member{&fields_.crc};", "        auto* const member{reinterpret_cast<typename Crc::value_type*>(&fields_.fields)};")),
 b("pk-arr-drop", (": pure_{std::move(array)} {}", ": pure_{} { std::copy(array.begin(), array.end() - sizeof(typename Crc::value_type), pure_.begin()); }")),
 # behaviour kept
 g("pkg-acc-direct", ("        Header const* const member{&fields_.header};\n        return *member;", "        return fields_.header;"), ("        Fields* const member{&fields_.fields};\n        return *member;", "        auto* const at = pure_.data() + sizeof(Header);\n        return *reinterpret_cast<Fields*>(at);")),
 g("pkg-ct-build", (CT, "        auto const last = pure_.begin() + sizeof(struct_nocrc_type);\n        fields_.crc     = Crc::calculate(pure_.begin(), last);")),
 g("pkg-ct-cbegin", (CT, CT.replace("pure_.begin()", "pure_.cbegin()").replace("pure_.end()", "pure_.cend()"))),
 g("pkg-ct-data", (CT, "        auto* const p = pure_.data();\n        fields_.crc = Crc::calculate(p, p + length - sizeof(typename Crc::value_type));")),
 g("pkg-ct-helper", (CT, "        fields_.crc = computed();"), ("    constexpr bool\n    valid() noexcept\n", "    constexpr typename Crc::value_type computed() const noexcept { return Crc::calculate(pure_.begin(), pure_.begin() + (length - sizeof(typename Crc::value_type))); }\n    constexpr bool\n    valid() noexcept\n"), (VA, "        return fields_.crc == computed();")),
 g("pkg-ct-body", (": fields_{header, fields, {}}", ": pure_{}"), (CT, "        fields_.header = header;\n        fields_.fields = fields;\n" + CT)),
 g("pkg-ct-ser", (": fields_{header, fields, {}}\n    {\n" + CT + "\n    }", ": pure_{serialize(header, fields)} {}")),
 g("pkg-valid-if", (VA, "        auto const want = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));\n        if (want == fields_.crc) {\n            return true;\n        }\n        return false;")),
 g("pkg-valid-get", (VA, "        auto const want = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));\n        return want.get() == fields_.crc.get();")),
 g("pkg-valid-not", (VA, "        return !(fields_.crc != Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)));")),
 g("pkg-valid-mem", (VA, "        auto const want = Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type));\n        return std::memcmp(&want, &fields_.crc, sizeof(want)) == 0;"), ("#include <cstdint>", "#include <cstdint>\n#include <cstring>")),
 g("pkg-valid-bytes", (VA, "        auto const want = data<typename Crc::value_type>::serialize(Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)));\n        return std::equal(want.begin(), want.end(), pure_.end() - sizeof(typename Crc::value_type));")),
 g("pkg-valid-copy", (VA, "        struct_type const tmp = fields_;\n        auto const* p = reinterpret_cast<std::uint8_t const*>(&tmp);\n        return tmp.crc.get() == Crc::calculate(p, p + sizeof(struct_nocrc_type)).get();")),
 g("pkg-valid-diff", (VA, "        return (fields_.crc.get() ^ Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)).get()) == 0;")),
 g("pkg-ser-inline", (S1 + "\n" + S2 + "\n" + S3, "        packet const p{header, fields};\n        return p.to_array();")),
 g("pkg-ser-named", (S1, "        struct_nocrc_type const body{header, fields};\n        auto const data_tr = data<struct_nocrc_type>::serialize(body);"), (S2, "        auto const crc = Crc::calculate(data_tr.begin(), data_tr.begin() + data_tr.size());")),
 g("pkg-ser-patch", (S1 + "\n" + S2 + "\n" + S3, "        array_type out{data<struct_type>::serialize({header, fields, {}})};\n        auto const end = out.begin() + sizeof(struct_nocrc_type);\n        auto const crc = Crc::calculate(out.begin(), end);\n        data<typename Crc::value_type>::serialize(crc, end);\n        return out;")),
 g("pkg-des-valid", (D1 + "\n" + D2 + "\n" + D3 + "\n" + D4, "        packet p{array.begin()};\n        return {p.valid(), p.header(), p.fields()};")),
 g("pkg-des-make", (D4, "        bool const ok = crc == calc_crc;\n        return std::make_tuple(ok, Header{tt.header}, Fields{tt.fields});")),
 g("pkg-des-len", (D3, D3.replace("sizeof(struct_nocrc_type)", "length - sizeof(typename Crc::value_type)"))),
 g("pkg-des-parts", (D1 + "\n" + D2, "        struct_type tt;\n        tt.header = data<Header>::deserialize(array.begin());\n        tt.fields = data<Fields>::deserialize(array.begin() + sizeof(Header));\n        typename Crc::value_type const crc{data<typename Crc::value_type>::deserialize(array.begin() + sizeof(struct_nocrc_type))};")),
 g("pkg-des-get", (D4, D4.replace("crc == calc_crc", "crc.get() == calc_crc.get()"))),
 g("pkg-iter-loop", (IT, "        for (std::size_t i{}; i < length; ++i, ++begin) {\n            pure_[i] = *begin;\n        }")),
 g("pkg-iter-copyn", (IT, "        std::copy(begin, begin + length, pure_.begin());")),
 g("pkg-desit-ct", ("        data<packet> tt{};\n" + DI + "\n        return tt.fields;", "        return packet{begin};")),
 g("pkg-desit-n", (DI, "        std::copy_n(begin, tt.pure.size(), tt.pure.begin());")),
 g("pkg-put-direct", ("        data<packet> tt{type};\n" + PU, "        auto const bytes = type.to_array();\n        for (auto const v : bytes) {\n            *begin++ = v;\n        }")),
 g("pkg-toarr-copy", (TA, "    to_array() const noexcept\n    {\n        array_type out{};\n        std::copy(pure_.begin(), pure_.end(), out.begin());\n        return out;")),
 g("pkg-length", (LN, "    static constexpr size_type body   = sizeof(Header) + sizeof(Fields);\n    static constexpr size_type length = body + sizeof(typename Crc::value_type);"), (CT, "        fields_.crc = Crc::calculate(pure_.begin(), pure_.begin() + body);")),
 g("pkg-crc-base", ("        typename Crc::value_type crc;\n    };\n    // clang-format on", "        typename Crc::value_type crc{};\n    };\n    // clang-format on")),
 g("pkg-valid-const", ("    constexpr bool\n    valid() noexcept", "    [[nodiscard]] constexpr bool\n    valid() const noexcept")),
]
