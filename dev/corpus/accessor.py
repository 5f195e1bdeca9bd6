PROPS = ["C34", "C35"]
D = "func/packet.hpp"
def b(i, *e): return ("bad", i, ["C35"], D, list(e))
def g(i, *e): return ("good", i, [], D, list(e))
SF = "        if (input.size > (Max - length) / sizeof(Type)) {\n            return false;\n        }\n"
DF = "        if ((size_ < length) || (size_ > Max)) {\n"
DW = "        if (((size_ - length) % sizeof(Type))) {\n            return return_type{{}, {}, false, 0, nullptr};\n        }\n"
DV = "        size_type const variable_part = (size_ - length) / sizeof(Type);\n        if ((("
DCV = "            = data<typename Crc::value_type>::deserialize(storage_.begin() + size_ - sizeof(typename Crc::value_type));"
DCC = "            = Crc::calculate(storage_.begin(), storage_.begin() + size_ - sizeof(typename Crc::value_type));"
DR = "        return return_type{header_conv, fields_conv, crc_conv == crc_calc, variable_part,\n                           reinterpret_cast<Type const*>(storage_.begin() + sizeof(Header) + sizeof(Fields))};"
SH = "        data<Header>::serialize(input.header, storage_.begin());\n"
SFi = "        data<Fields>::serialize(input.fields, storage_.begin() + sizeof(Header));\n"
SC = "        if ((input.size > 0) && (input.data != nullptr)) {\n            std::copy(reinterpret_cast<uint8_t const*>(input.data),\n                      reinterpret_cast<uint8_t const*>(input.data + input.size),\n                      reinterpret_cast<uint8_t*>(storage_.begin() + sizeof(Header) + sizeof(Fields)));\n        }\n"
SP = "        auto const crc_ptr = storage_.begin() + sizeof(Header) + sizeof(Fields) + input.size * sizeof(Type);\n"
SK = "        typename Crc::value_type const crc{Crc::calculate(storage_.begin(), crc_ptr)};\n"
SS = "        data<typename Crc::value_type>::serialize(crc, crc_ptr);\n"
SZ = "        size_ = length + input.size * sizeof(Type);\n"
NV = "        size_type const variable_part = (size_ - length) / sizeof(Type);\n        auto            header_conv"
CASES = [
 b("ac-ser-nofit", (SF, "")),
 b("ac-ser-ge", (SF, SF.replace("input.size >", "input.size >="))),
 b("ac-ser-mul", (SF, SF.replace("input.size > (Max - length) / sizeof(Type)", "input.size * sizeof(Type) > Max - length"))),
 b("ac-ser-sum", (SF, SF.replace("input.size > (Max - length) / sizeof(Type)", "length + input.size * sizeof(Type) > Max"))),
 b("ac-ser-int", (SF, SF.replace("input.size > (Max - length)", "static_cast<int>(input.size) > static_cast<int>(Max - length)").replace("/ sizeof(Type)", "/ static_cast<int>(sizeof(Type))"))),
 b("ac-ser-nocrc", (SF, SF.replace("(Max - length)", "(Max - sizeof(Header) - sizeof(Fields))"))),
 b("ac-ser-strict", (SF, SF.replace("(Max - length)", "(Max - length - 1)"))),
 b("ac-ser-header-first", (SF, SH + SF), ("        }\n" + SH, "        }\n")),
 b("ac-ser-size-first", (SF, SZ + SF), (SS + SZ, SS)),
 b("ac-ser-ret-true", (SF, SF.replace("return false", "size_ = 0;\n            return false"))),
 b("ac-ser-elem", (SP, SP.replace(" * sizeof(Type)", ""))),
 b("ac-ser-size-elem", (SZ, SZ.replace(" * sizeof(Type)", ""))),
 b("ac-ser-size-nolen", (SZ, SZ.replace("length + ", "sizeof(Header) + sizeof(Fields) + "))),
 b("ac-ser-copy-short", (SC, SC.replace("reinterpret_cast<uint8_t const*>(input.data + input.size)", "reinterpret_cast<uint8_t const*>(input.data) + input.size"))),
 b("ac-ser-copy-off", (SC, SC.replace("storage_.begin() + sizeof(Header) + sizeof(Fields)", "storage_.begin() + sizeof(Header)"))),
 b("ac-ser-copy-long", (SC, SC.replace("input.data + input.size)", "input.data + input.size + 1)"))),
 b("ac-ser-one", (SC, SC.replace("input.size > 0", "input.size > 1"))),
 b("ac-ser-fields-off", (SFi, SFi.replace(" + sizeof(Header)", ""))),
 b("ac-ser-crc-early", (SK, ""), (SC, "        typename Crc::value_type const crc{Crc::calculate(storage_.begin(), storage_.begin() + sizeof(Header) + sizeof(Fields) + input.size * sizeof(Type))};\n" + SC)),
 b("ac-ser-crc-body", (SK, SK.replace("storage_.begin(), crc_ptr", "storage_.begin() + sizeof(Header), crc_ptr"))),
 b("ac-ser-crc-all", (SK, SK.replace("crc_ptr)", "crc_ptr + sizeof(typename Crc::value_type))"))),
 b("ac-ser-crc-swap", (SS, "        data<typename Crc::value_type>::serialize(crc.get(), crc_ptr);\n".replace("crc.get()", "typename Crc::value_type(static_cast<typename Crc::value_type::data_type>(crc.get() + 1))"))) if False else b("ac-ser-crc-end", (SS, "        data<typename Crc::value_type>::serialize(crc, storage_.end() - sizeof(typename Crc::value_type));\n")),
 b("ac-ser-nosize", (SZ, "")),
 b("ac-des-noshort", (DF, "        if (size_ > Max) {\n")),
 b("ac-des-nolong", (DF, "        if (size_ < length) {\n")),
 b("ac-des-le", (DF, DF.replace("size_ < length", "size_ <= length"))),
 b("ac-des-ge", (DF, DF.replace("size_ > Max", "size_ >= Max"))),
 b("ac-des-nowhole", (DW, "")),
 b("ac-des-whole-all", (DW, DW.replace("(size_ - length) % sizeof(Type)", "size_ % sizeof(Type)"))),
 b("ac-des-short-crc", (DF, DF.replace("size_ < length", "size_ < sizeof(Header) + sizeof(Fields)"))),
 b("ac-des-max-len", (DF, DF.replace("size_ > Max", "size_ - length > Max"))),
 b("ac-des-int", (DF, DF.replace("size_ > Max", "static_cast<int>(size_) > static_cast<int>(Max)"))),
 b("ac-des-crc-at-max", (DCV, DCV.replace("storage_.begin() + size_", "storage_.begin() + Max"))),
 b("ac-des-crc-range", (DCC, DCC.replace("storage_.begin() + size_ - sizeof(typename Crc::value_type)", "storage_.begin() + size_"))),
 b("ac-des-crc-range2", (DCC, DCC.replace("Crc::calculate(storage_.begin(),", "Crc::calculate(storage_.begin() + sizeof(Header),"))),
 b("ac-des-valid", (DR, DR.replace("crc_conv == crc_calc", "true"))),
 b("ac-des-validne", (DR, DR.replace("==", "!="))),
 b("ac-des-count", (DR, DR.replace("variable_part,", "size_ - length,"))),
 b("ac-des-count1", (DV, DV.replace("(size_ - length) / sizeof(Type)", "size_ / sizeof(Type)"))),
 b("ac-des-data", (DR, DR.replace("storage_.begin() + sizeof(Header) + sizeof(Fields)", "storage_.begin() + sizeof(Header)"))),
 b("ac-des-low", (DR, DR.replace("crc_conv == crc_calc", "static_cast<std::uint8_t>(crc_conv.get()) == static_cast<std::uint8_t>(crc_calc.get())"))),
 b("ac-des-fields", ("data<Fields>::deserialize(storage_.begin() + sizeof(Header))", "data<Fields>::deserialize(storage_.begin() + sizeof(Fields))")),
 b("ac-des-clear", (DR, "        if (!(crc_conv.get() == crc_calc.get())) {\n            return return_type{{}, {}, false, 0, nullptr};\n        }\n" + DR)),
 b("ac-nc-count", (NV, NV.replace("(size_ - length) / sizeof(Type)", "size_ - length"))),
 b("ac-nc-data", ("reinterpret_cast<Type const*>(storage_.begin() + sizeof(Header) + sizeof(Fields));\n        return", "reinterpret_cast<Type const*>(storage_.begin() + sizeof(Fields));\n        return")),
 b("ac-setsize", ("        size_ = size;", "        size_ = size > Max ? Max : size;")),
 b("ac-setsize-mod", ("        size_ = size;", "        size_ = static_cast<std::uint16_t>(size);")),
 b("ac-size-type", ("    size_type  size_{};", "    std::uint32_t  size_{};")),
 # behaviour kept
 g("acg-ser-named", (SF, "        constexpr size_type room = (Max - length) / sizeof(Type);\n        if (!(input.size <= room)) {\n            return false;\n        }\n")),
 g("acg-ser-helper", (SF, "        if (!fits<Header, Fields, Type, Crc>(input.size)) {\n            return false;\n        }\n"),
   ("    template <typename Header, typename Fields, typename Type, crc_concept Crc>\n    constexpr bool\n    serialize(", "    template <typename Header, typename Fields, typename Type, crc_concept Crc>\n    static constexpr bool fits(size_type n) noexcept\n    {\n        constexpr size_type used = sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type);\n        return n <= (Max - used) / sizeof(Type);\n    }\n    template <typename Header, typename Fields, typename Type, crc_concept Crc>\n    constexpr bool\n    serialize(")),
 g("acg-ser-two", (SF, "        if (input.size > Max) {\n            return false;\n        }\n        if (length + input.size * sizeof(Type) > Max) {\n            return false;\n        }\n")),
 g("acg-ser-loop", (SC, "        if (input.data != nullptr) {\n            auto const* src = reinterpret_cast<uint8_t const*>(input.data);\n            auto*       dst = storage_.begin() + sizeof(Header) + sizeof(Fields);\n            for (size_type i = 0; i < input.size * sizeof(Type); ++i) {\n                dst[i] = src[i];\n            }\n        }\n")),
 g("acg-ser-memcpy", (SC, "        if (input.data != nullptr && input.size != 0) {\n            std::memcpy(storage_.data() + sizeof(Header) + sizeof(Fields), input.data, input.size * sizeof(Type));\n        }\n"), ("#include <cstdint>", "#include <cstdint>\n#include <cstring>")),
 g("acg-ser-copyn", (SC, SC.replace("std::copy(", "std::copy_n(").replace("reinterpret_cast<uint8_t const*>(input.data + input.size)", "input.size * sizeof(Type)"))),
 g("acg-ser-bytes", (SP, "        size_type const bytes = input.size * sizeof(Type);\n        auto const crc_ptr = storage_.begin() + sizeof(Header) + sizeof(Fields) + bytes;\n"), (SZ, "        size_ = sizeof(Header) + sizeof(Fields) + bytes + sizeof(typename Crc::value_type);\n")),
 g("acg-ser-order", (SH + SFi, SFi + SH)),
 g("acg-ser-size-ptr", (SZ, "        size_ = static_cast<size_type>(crc_ptr - storage_.begin()) + sizeof(typename Crc::value_type);\n")),
 g("acg-ser-crc-copy", (SS, "        auto const raw = data<typename Crc::value_type>::serialize(crc);\n        std::copy(raw.begin(), raw.end(), crc_ptr);\n")),
 g("acg-ser-data-first", (SC, ""), (SH, SC + SH)),
 g("acg-des-split", (DF, "        if (size_ < length) {\n            return return_type{{}, {}, false, 0, nullptr};\n        }\n        if (size_ > storage_.size()) {\n")),
 g("acg-des-helper", (DF, "        auto const none = [] { return return_type{{}, {}, false, 0, nullptr}; };\n        bool const fit = size_ >= length && size_ <= Max;\n        if (!fit) {\n            return none();\n        }\n        if (false) {\n")),
 g("acg-des-room", (DF, "        if (size_ - length > Max - length) {\n")),
 g("acg-des-mul", (DW, "        if (variable_part * sizeof(Type) != size_ - length) {\n            return return_type{{}, {}, false, 0, nullptr};\n        }\n")),
 g("acg-des-one-if", (DF + "            return return_type{{}, {}, false, 0, nullptr};\n        }\n", ""), (DW, "        if (size_ < length || size_ > Max || (size_ - length) % sizeof(Type) != 0) {\n            return return_type{{}, {}, false, 0, nullptr};\n        }\n")),
 g("acg-des-order", (DR, "        bool const ok = crc_calc.get() == crc_conv.get();\n" + DR.replace("crc_conv == crc_calc", "ok"))),
 g("acg-des-ifvalid", (DR, "        bool ok = false;\n        if (crc_calc == crc_conv) {\n            ok = true;\n        }\n" + DR.replace("crc_conv == crc_calc", "ok"))),
 g("acg-des-end", (DCV, DCV.replace("storage_.begin() + size_ - sizeof(typename Crc::value_type)", "crc_at")), (DCC, DCC.replace("storage_.begin() + size_ - sizeof(typename Crc::value_type)", "crc_at")), ("        auto crc_conv\n", "        auto const crc_at = storage_.begin() + (size_ - sizeof(typename Crc::value_type));\n        auto crc_conv\n")),
 g("acg-des-memcmp", (DR, "        bool const ok = std::memcmp(&crc_calc, storage_.data() + size_ - sizeof(typename Crc::value_type), sizeof(crc_calc)) == 0;\n" + DR.replace("crc_conv == crc_calc", "ok")), ("#include <cstdint>", "#include <cstdint>\n#include <cstring>")),
 g("acg-nc-inline", (NV, "        auto const bytes = size_ - length;\n        size_type const variable_part = bytes / sizeof(Type);\n        auto            header_conv")),
 g("acg-des-nc", (DR, "        auto const raw = deserialize_no_check<Header, Fields, Type, Crc>();\n" + DR.replace("variable_part", "raw.size").replace("reinterpret_cast<Type const*>(storage_.begin() + sizeof(Header) + sizeof(Fields))", "raw.data"))),
 g("acg-members", ("    array_type storage_{};\n    size_type  size_{};", "    size_type  size_{};\n    array_type storage_{};")),
 g("acg-fieldorder", ("        bool        valid;\n        size_type   size;\n        Type const* data;\n    };", "        bool        valid{};\n        size_type   size{};\n        Type const* data{};\n    };")),
]
