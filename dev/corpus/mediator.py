M = "comm/mediator.hpp"
ADD = """        modules_.at(modules_cnt_) = &c;
        modules_cnt_++;"""
REM = """        for (std::size_t i = 0; i < modules_cnt_; i++) {
            if (modules_[i] == &c) {
                for (; i < modules_cnt_ - 1; i++) {
                    modules_[i] = modules_[i + 1];
                }
                --modules_cnt_;
                modules_[modules_cnt_] = 0;
                return;
            }
        }"""
DIS = """        data(sender.id_, ptr, sz);
        for (std::size_t i = 0; i < modules_cnt_; i++) {
            if (modules_.at(i)->id_ != sender.id_) {
                modules_.at(i)->receive(sender.id_, ptr, sz);
            }
        }"""
SND = """        for (std::size_t i = 0; i < modules_cnt_; i++) {
            std::size_t          loc_id = std::hash<std::string>{}(typeid(Data).name());
            data_converter<Data> cnv    = {data};
            if (modules_.at(i)->id_ != loc_id) {
                modules_.at(i)->receive(loc_id, cnv.pure.data(), cnv.pure.size());
            }
        }"""
MCF = """        data_converter<T> cnv = {};
        if (cnv.pure.size() != sz) {
            throw std::exception();
        }
        for (auto& item : cnv.pure) {
            item = *(ptr++);
        }
        return cnv.fields;"""
CF = """        data_converter<T> cnv = {};
        if (cnv.pure.size() != sz)
            return false;
        for (auto& item : cnv.pure) {
            item = *(ptr++);
        }
        this->data(cnv.fields);
        return true;"""
MS = """        data_converter<Sends> cnv{};
        cnv.fields = field;
        send(cnv.pure.data(), cnv.pure.size());"""
CTOR = "explicit module(base::manager& m) : base::module(typeid(Sends).name(), &m) { mediator_->add_module(*this); }"
DTOR = "~module() override { mediator_->remove_module(*this); }"
H1 = """            std::size_t const hash = std::hash<std::string>{}(typeid(First).name());
            if (id == hash) {
                val.convert_field<First>(ptr, sz);
                return;
            } else {
                return receiver_converter_helper<Args...>::receiver_converter(val, id, ptr, sz);
            }"""
H2 = """            std::size_t const hash = std::hash<std::string>{}(typeid(First).name());
            if (id == hash) {
                val.convert_field<First>(ptr, sz);
                return;
            } else {
                return;
            }"""
RCV = """        if constexpr (sizeof...(Recvs) > 0)
            receiver_converter_helper<Recvs...>::receiver_converter(*this, id, ptr, sz);"""
PROPS = ["C09", "C10", "C11"]
CASES = [
 # ---- C09
 ("bad", "med-add-no-bound", ["C09"], M, [(ADD, "        modules_[modules_cnt_] = &c;\n        modules_cnt_++;")]),
 ("bad", "med-add-silent-full", ["C09"], M, [(ADD, "        if (modules_cnt_ >= Sources) return;\n" + ADD)]),
 ("bad", "med-add-count-first", ["C09"], M, [(ADD, "        modules_cnt_++;\n        modules_.at(modules_cnt_ - 1) = &c;")]),
 ("bad", "med-add-off-by-one", ["C09"], M, [(ADD, "        if (modules_cnt_ > Sources) throw std::exception();\n        modules_[modules_cnt_] = &c;\n        modules_cnt_++;")]),
 ("bad", "med-add-early-full", ["C09"], M, [(ADD, "        if (modules_cnt_ + 1 >= Sources) throw std::exception();\n        modules_[modules_cnt_] = &c;\n        modules_cnt_++;")]),
 ("bad", "med-add-pre-inc", ["C09"], M, [(ADD, "        modules_.at(++modules_cnt_) = &c;")]),
 ("bad", "med-cap-less", ["C09"], M, [("std::array<base::module*, Sources> modules_;", "std::array<base::module*, Sources - 1> modules_;")]),
 ("bad", "med-rem-stop-early", ["C09"], M, [("for (; i < modules_cnt_ - 1; i++) {\n                    modules_[i] = modules_[i + 1];", "for (; i + 2 < modules_cnt_; i++) {\n                    modules_[i] = modules_[i + 1];")]),
 ("bad", "med-rem-over", ["C09"], M, [("for (; i < modules_cnt_ - 1; i++) {", "for (; i < modules_cnt_; i++) {")]),
 ("bad", "med-rem-swap", ["C09"], M, [("""                for (; i < modules_cnt_ - 1; i++) {
                    modules_[i] = modules_[i + 1];
                }
                --modules_cnt_;""", """                --modules_cnt_;
                modules_[i] = modules_[modules_cnt_];""")]),
 ("bad", "med-rem-first-skipped", ["C09"], M, [(REM, REM.replace("for (std::size_t i = 0; i < modules_cnt_; i++)", "for (std::size_t i = 1; i < modules_cnt_; i++)"))]),
 ("bad", "med-rem-last-skipped", ["C09"], M, [(REM, REM.replace("for (std::size_t i = 0; i < modules_cnt_; i++)", "for (std::size_t i = 0; i + 1 < modules_cnt_; i++)"))]),
 ("bad", "med-rem-no-count", ["C09"], M, [("                --modules_cnt_;\n                modules_[modules_cnt_] = 0;", "                modules_[modules_cnt_ - 1] = 0;")]),
 ("bad", "med-rem-always", ["C09"], M, [(REM, REM + "\n        if (modules_cnt_ > 0) --modules_cnt_;")]),
 ("bad", "med-rem-hole", ["C09"], M, [(REM, """        for (std::size_t i = 0; i < modules_cnt_; i++) {
            if (modules_[i] == &c) {
                modules_[i] = nullptr;
                return;
            }
        }""")]),
 ("bad", "med-rem-throws", ["C09"], M, [(REM, REM + "\n        throw std::exception();")]),
 ("bad", "med-ctor-null", ["C09"], M, [(CTOR, CTOR.replace("{ mediator_->add_module(*this); }", "{}"))]),
 ("bad", "med-ctor-twice", ["C09"], M, [(CTOR, CTOR.replace("mediator_->add_module(*this);", "mediator_->add_module(*this); mediator_->add_module(*this);"))]),
 ("bad", "med-dtor-none", ["C09"], M, [(DTOR, "~module() override = default;")]),
 ("bad", "med-dtor-cond", ["C09"], M, [(DTOR, "~module() override { if (this->id_ & 1) mediator_->remove_module(*this); }")]),
 ("bad", "med-count-init", ["C09"], M, [("std::size_t modules_cnt_ = 0;", "std::size_t modules_cnt_;")]),
 ("good", "med-add-explicit", None, M, [(ADD, "        if (modules_cnt_ >= Sources) {\n            throw std::exception();\n        }\n        modules_[modules_cnt_] = &c;\n        modules_cnt_++;")]),
 ("good", "med-add-range-error", None, M, [(ADD, "        if (!(modules_cnt_ < modules_.size())) throw std::exception();\n        modules_[modules_cnt_++] = &c;")]),
 ("good", "med-add-slot", None, M, [(ADD, "        auto& slot = modules_.at(modules_cnt_);\n        modules_cnt_ += 1;\n        slot = &c;")]),
 ("good", "med-rem-inner", None, M, [(REM, """        std::size_t pos = 0;
        while (pos < modules_cnt_ && modules_[pos] != &c) {
            ++pos;
        }
        if (pos == modules_cnt_) {
            return;
        }
        for (std::size_t j = pos + 1; j < modules_cnt_; ++j) {
            modules_[j - 1] = modules_[j];
        }
        modules_[--modules_cnt_] = nullptr;""")]),
 ("good", "med-rem-noclear", None, M, [("                modules_[modules_cnt_] = 0;\n", "")]),
 ("good", "med-rem-helper", None, M, [(REM, """        for (std::size_t i = 0; i < modules_cnt_; i++) {
            if (modules_[i] == &c) {
                erase_at(i);
                return;
            }
        }"""), ("private:\n    /**\n     * @brief An array of pointers to the modules", """private:
    void
    erase_at(std::size_t i)
    {
        for (; i + 1 < modules_cnt_; ++i)
            modules_[i] = modules_[i + 1];
        modules_[--modules_cnt_] = nullptr;
    }

    /**
     * @brief An array of pointers to the modules""")]),
 ("good", "med-rem-algo", None, M, [("#include <array>", "#include <algorithm>\n#include <array>"), (REM, """        auto const last = modules_.begin() + modules_cnt_;
        auto const it   = std::find(modules_.begin(), last, &c);
        if (it == last)
            return;
        std::copy(it + 1, last, it);
        modules_[--modules_cnt_] = nullptr;""")]),
 ("good", "med-dtor-guard", None, M, [(DTOR, "~module() override { if (mediator_) mediator_->remove_module(*this); }")]),
 ("good", "med-ctor-m", None, M, [(CTOR, CTOR.replace("mediator_->add_module(*this)", "m.add_module(*this)"))]),
 # ---- C10
 ("bad", "med-dis-sender-too", ["C10"], M, [(DIS, DIS.replace("if (modules_.at(i)->id_ != sender.id_)", "if (modules_.at(i) != &sender)"))]),
 ("bad", "med-dis-all", ["C10"], M, [(DIS, DIS.replace("if (modules_.at(i)->id_ != sender.id_)", "if (true)"))]),
 ("bad", "med-dis-eq", ["C10"], M, [(DIS, DIS.replace("!= sender.id_", "== sender.id_"))]),
 ("bad", "med-dis-from1", ["C10"], M, [(DIS, DIS.replace("std::size_t i = 0", "std::size_t i = 1"))]),
 ("bad", "med-dis-last", ["C10"], M, [(DIS, DIS.replace("i < modules_cnt_", "i + 1 < modules_cnt_"))]),
 ("bad", "med-dis-break", ["C10"], M, [(DIS, DIS.replace("receive(sender.id_, ptr, sz);", "receive(sender.id_, ptr, sz);\n            } else {\n                break;"))]),
 ("bad", "med-dis-own-id", ["C10"], M, [(DIS, DIS.replace("receive(sender.id_,", "receive(modules_.at(i)->id_,"))]),
 ("bad", "med-dis-hook-none", ["C10"], M, [(DIS, DIS.replace("        data(sender.id_, ptr, sz);\n", ""))]),
 ("bad", "med-dis-hook-each", ["C10"], M, [(DIS, DIS.replace("        data(sender.id_, ptr, sz);\n", "").replace("modules_.at(i)->receive", "data(sender.id_, ptr, sz);\n                modules_.at(i)->receive"))]),
 ("bad", "med-dis-hook-nonempty", ["C10"], M, [(DIS, DIS.replace("        data(sender.id_, ptr, sz);\n", "        if (modules_cnt_ > 1) data(sender.id_, ptr, sz);\n"))]),
 ("bad", "med-dis-size", ["C10"], M, [(DIS, DIS.replace("receive(sender.id_, ptr, sz)", "receive(sender.id_, ptr, sz & 0xFF)"))]),
 ("bad", "med-dis-size0", ["C10"], M, [(DIS, DIS.replace("        data(sender.id_, ptr, sz);\n", "        data(sender.id_, ptr, sz);\n        if (sz == 0) return;\n"))]),
 ("bad", "med-dis-reverse", ["C10"], M, [(DIS, DIS.replace("for (std::size_t i = 0; i < modules_cnt_; i++)", "for (std::size_t i = modules_cnt_; i-- > 0;)"))]),
 ("bad", "med-dis-cap", ["C10"], M, [(DIS, DIS.replace("for (std::size_t i = 0; i < modules_cnt_; i++)", "for (std::uint8_t i = 0; i < modules_cnt_; i++)"))]),
 ("bad", "med-snd-cond", ["C10"], M, [(SND, SND.replace("if (modules_.at(i)->id_ != loc_id)", "if (modules_.at(i)->id_ == loc_id)"))]),
 ("bad", "med-snd-ptrtype", ["C10"], M, [(SND, SND.replace("typeid(Data).name()", "typeid(Data*).name()"))]),
 ("bad", "med-snd-size", ["C10"], M, [(SND, SND.replace("cnv.pure.size())", "sizeof(cnv.pure.data()))"))]),
 ("bad", "med-snd-first", ["C10"], M, [(SND, SND.replace("cnv.pure.size());", "cnv.pure.size());\n                break;"))]),
 ("bad", "med-dis-first", ["C10"], M, [(DIS, DIS.replace("receive(sender.id_, ptr, sz);", "receive(sender.id_, ptr, sz);\n                return;"))]),
 ("bad", "med-snd-default", ["C10"], M, [(SND, SND.replace("= {data};", "= {};"))]),
 ("bad", "med-mod-snd-size", ["C10"], M, [(MS, MS.replace("cnv.pure.size()", "sizeof(field) - 1"))]),
 ("bad", "med-mod-snd-uninit", ["C10"], M, [(MS, MS.replace("        cnv.fields = field;\n", ""))]),
 ("bad", "med-mod-snd-twice", ["C10"], M, [(MS, MS + "\n        if (cnv.pure[0] == 0) send(cnv.pure.data(), cnv.pure.size());")]),
 ("bad", "med-mod-dist-sz", ["C10"], M, [("mediator_->distribute(*this, ptr, sz);", "mediator_->distribute(*this, ptr, sizeof(Sends));")]),
 ("bad", "med-ident-of-module", ["C10"], M, [(CTOR, CTOR.replace("typeid(Sends).name()", "typeid(*this).name()"))]),
 ("bad", "med-ident-recv", ["C10"], M, [(CTOR, CTOR.replace("typeid(Sends).name()", "typeid(receiver_impl<Sends>).name()"))]),
 ("good", "med-dis-range", None, M, [(DIS, """        auto const id = sender.id_;
        data(id, ptr, sz);
        for (std::size_t i = 0; i != modules_cnt_; ++i) {
            auto& target = *modules_.at(i);
            if (target.id_ == id)
                continue;
            target.receive(id, ptr, sz);
        }""")]),
 ("good", "med-dis-deliver-helper", None, M, [(DIS, """        data(sender.id_, ptr, sz);
        deliver(sender.id_, ptr, sz);"""), (SND, """        data_converter<Data> cnv = {data};
        deliver(std::hash<std::string>{}(typeid(Data).name()), cnv.pure.data(), cnv.pure.size());"""),
   ("private:\n    /**\n     * @brief An array of pointers to the modules", """private:
    void
    deliver(std::size_t id, std::uint8_t* ptr, std::size_t sz)
    {
        for (std::size_t i = 0; i < modules_cnt_; i++) {
            base::module* const m = modules_[i];
            if (m->id_ != id) {
                m->receive(id, ptr, sz);
            }
        }
    }

    /**
     * @brief An array of pointers to the modules""")]),
 ("good", "med-dis-while", None, M, [(DIS, """        data(sender.id_, ptr, sz);
        std::size_t i = 0;
        while (i < modules_cnt_) {
            auto* m = modules_.at(i++);
            if (m->id_ != sender.id_) m->receive(sender.id_, ptr, sz);
        }""")]),
 ("good", "med-snd-hoist", None, M, [(SND, """        std::size_t const    loc_id = std::hash<std::string>{}(typeid(Data).name());
        data_converter<Data> cnv    = {data};
        for (std::size_t i = 0; i < modules_cnt_; i++) {
            if (modules_.at(i)->id_ != loc_id) {
                modules_.at(i)->receive(loc_id, cnv.pure.data(), sizeof(Data));
            }
        }""")]),
 ("good", "med-mod-snd-cast", None, M, [(MS, "        send(reinterpret_cast<std::uint8_t*>(&field), sizeof(field));")]),
 # ---- C11
 ("bad", "med-cf-size-ge", ["C11"], M, [(CF, CF.replace("cnv.pure.size() != sz", "cnv.pure.size() > sz"))]),
 ("bad", "med-cf-size-le", ["C11"], M, [(CF, CF.replace("cnv.pure.size() != sz", "cnv.pure.size() < sz"))]),
 ("bad", "med-cf-no-size", ["C11"], M, [(CF, CF.replace("cnv.pure.size() != sz", "sz == 0"))]),
 ("bad", "med-cf-short-copy", ["C11"], M, [(CF, CF.replace("for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }", "for (std::size_t i = 0; i + 1 < cnv.pure.size(); ++i) {\n            cnv.pure[i] = ptr[i];\n        }"))]),
 ("bad", "med-cf-same-byte", ["C11"], M, [(CF, CF.replace("*(ptr++)", "*ptr"))]),
 ("bad", "med-cf-pre-inc", ["C11"], M, [(CF, CF.replace("*(ptr++)", "*(++ptr)"))]),
 ("bad", "med-cf-order", ["C11"], M, [(CF, CF.replace("        for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }\n        this->data(cnv.fields);", "        this->data(cnv.fields);\n        for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }"))]),
 ("bad", "med-h1-any", ["C11"], M, [(H1, H1.replace("if (id == hash)", "if (id == hash || sz == sizeof(First))"))]),
 ("bad", "med-h2-else", ["C11"], M, [(H2, H2.replace("if (id == hash) {\n                val.convert_field<First>(ptr, sz);\n                return;\n            } else {\n                return;\n            }", "val.convert_field<First>(ptr, sz);"))]),
 ("bad", "med-h1-fallthrough", ["C11"], M, [(H1, H1.replace("if (id == hash) {\n                val.convert_field<First>(ptr, sz);\n                return;\n            } else {", "if (id == hash && sz > sizeof(First) / 2 && ptr[0] != 0) {\n                val.convert_field<First>(ptr, sz);\n                return;\n            } else {"))]),
 ("bad", "med-h1-sizeonly", ["C11"], M, [(H1, H1.replace("typeid(First).name()", "typeid(Sends).name()"))]),
 ("bad", "med-h1-twice", ["C11"], M, [(H1, H1.replace("val.convert_field<First>(ptr, sz);\n", "if (!val.template convert_field<First>(ptr, sz) || sz == 5) val.convert_field<First>(ptr, sz);\n"))]),
 ("bad", "med-recv-first-only", ["C11"], M, [(RCV, RCV.replace("sizeof...(Recvs) > 0", "sizeof...(Recvs) == 1"))]),
 ("bad", "med-mcf-size", ["C11"], M, [(MCF, MCF.replace("cnv.pure.size() != sz", "cnv.pure.size() > sz"))]),
 ("bad", "med-mcf-zero", ["C11"], M, [(MCF, MCF.replace("cnv.pure.size() != sz", "sz != 0 && cnv.pure.size() != sz"))]),
 ("bad", "med-mcf-default", ["C11"], M, [(MCF, MCF.replace("throw std::exception();", "return T{};"))]),
 ("bad", "med-mcf-half", ["C11"], M, [(MCF, MCF.replace("for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }", "for (std::size_t i = 0; i < sizeof(T) / 2; ++i) cnv.pure[i] = *(ptr++);"))]),
 ("good", "med-cf-index", None, M, [(CF, CF.replace("for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }", "for (std::size_t i = 0; i < sz; ++i) {\n            cnv.pure[i] = ptr[i];\n        }"))]),
 ("good", "med-cf-memcpy", None, M, [("#include <array>", "#include <array>\n#include <cstring>"), (CF, CF.replace("for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }", "std::memcpy(cnv.pure.data(), ptr, sz);"))]),
 ("good", "med-cf-copyn", None, M, [("#include <array>", "#include <array>\n#include <algorithm>"), (CF, CF.replace("for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }", "std::copy_n(ptr, sz, cnv.pure.begin());"))]),
 ("good", "med-cf-down", None, M, [(CF, CF.replace("for (auto& item : cnv.pure) {\n            item = *(ptr++);\n        }", "for (std::size_t i = sizeof(T); i-- > 0;) {\n            cnv.pure[i] = ptr[i];\n        }"))]),
 ("good", "med-cf-pos", None, M, [(CF, """        data_converter<T> cnv = {};
        if (sz == sizeof(T)) {
            std::uint8_t const* from = ptr;
            for (auto& item : cnv.pure) {
                item = *from;
                ++from;
            }
            this->data(cnv.fields);
            return true;
        }
        return false;""")]),
 ("good", "med-h1-flat", None, M, [(H1, """            if (id != std::hash<std::string>{}(typeid(First).name()))
                return receiver_converter_helper<Args...>::receiver_converter(val, id, ptr, sz);
            (void)val.template convert_field<First>(ptr, sz);""")]),
 ("good", "med-recv-fold", None, M, [(RCV, """        (void)((id == std::hash<std::string>{}(typeid(Recvs).name()) && (this->template convert_field<Recvs>(ptr, sz), true)) || ...);""")]),
 ("good", "med-h-helper", None, M, [(H1, H1.replace("std::hash<std::string>{}(typeid(First).name())", "type_hash<First>()")), (H2, H2.replace("std::hash<std::string>{}(typeid(First).name())", "type_hash<First>()")),
   ("    /**\n     * @brief A helper function to convert a received message\n     *\n     * @tparam First the first type", "    template <typename T>\n    static std::size_t\n    type_hash()\n    {\n        return std::hash<std::string>{}(typeid(T).name());\n    }\n\n    /**\n     * @brief A helper function to convert a received message\n     *\n     * @tparam First the first type")]),
 ("bad", "med-rem-down", ["C09"], M, [("for (; i < modules_cnt_ - 1; i++) {", "for (; i < modules_cnt_ - 1; i--) {")]),
]
