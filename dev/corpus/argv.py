PROPS = ["C29"]
P = "func/argv_parser.hpp"
def bad(i, *s): return ("bad", "c29-" + i, ["C29"], P, list(s))
def good(i, *s): return ("good", "c29-" + i, ["C29"], P, list(s))
EQ = "            if (argv[idx] == name) {"
FLAG = """                if (prop.index() == 3) {
                    this->*std::get<3>(prop) = true;
                    return;
                }
"""
BOUND = "if (idx < static_cast<int>(argv.size() - 1)) {"
TEXT = "this->*arg = argv[idx + 1];"
NUM = """                                std::stringstream value;
                                value << argv[idx + 1];
                                value >> this->*arg;
"""
SCAN = """        for (int idx = 0; idx < argc; ++idx)
            for (auto& cbk : callbacks_)
                cbk.second(idx, vargv);
        return static_cast<Opts>(*this);
"""
LIST = "        std::vector<std::string_view> vargv(argv, argv + argc);\n"
REG = """        for (auto arg : args)
            cmd_opts->register_callback(arg);
"""
CAP = "callbacks_[name] = [this, name, prop]("
REGP = "        return register_callback(p.first, p.second);\n"
BODY = """            if (argv[idx] == name) {
                if (prop.index() == 3) {
                    this->*std::get<3>(prop) = true;
                    return;
                }
                visit(
                    [this, idx, &argv](auto&& arg) {
                        if (idx < static_cast<int>(argv.size() - 1)) {
                            if constexpr (std::is_same_v<std::decay_t<decltype(this->*arg)>, std::string>) {
                                this->*arg = argv[idx + 1];
                            } else {
                                std::stringstream value;
                                value << argv[idx + 1];
                                value >> this->*arg;
                            }
                        }
                    },
                    prop);
            }
"""
CASES = [
    # -- one callback
    bad("bound-off", (BOUND, "if (idx < static_cast<int>(argv.size())) {")),
    bad("bound-le", (BOUND, "if (idx <= static_cast<int>(argv.size() - 1)) {")),
    bad("bound-gone", (BOUND, "{")),
    bad("bound-narrow", (BOUND, "if (idx < static_cast<int>(argv.size() - 2)) {")),
    bad("bound-even", (BOUND, "if (idx + 3 <= static_cast<int>(argv.size())) {")),
    bad("first-skipped", (EQ, "            if (idx > 0 && argv[idx] == name) {")),
    bad("last-skipped", (EQ, "            if (idx + 1 < static_cast<int>(argv.size()) && argv[idx] == name) {")),
    bad("prefix", (EQ, "            if (argv[idx].starts_with(name)) {")),
    bad("prefix-compare", (EQ, "            if (argv[idx].compare(0, name.size(), name) == 0) {")),
    bad("prefix-substr", (EQ, "            if (argv[idx].substr(0, name.size()) == name) {")),
    bad("prefix-find", (EQ, "            if (argv[idx].find(name) == 0) {")),
    bad("anywhere", (EQ, "            if (argv[idx].find(name) != std::string_view::npos) {")),
    bad("not-equal", (EQ, "            if (argv[idx] != name) {")),
    bad("size-only", (EQ, "            if (argv[idx].size() == name.size()) {")),
    bad("compare-next", (EQ, "            if (idx + 1 < static_cast<int>(argv.size()) && argv[idx + 1] == name) {")),
    bad("compare-prev", (EQ, "            if (idx > 0 && argv[idx - 1] == name) {")),
    bad("value-name", (TEXT, "this->*arg = name;"), (CAP, CAP), ("[this, idx, &argv](auto&& arg)", "[this, idx, &argv, &name](auto&& arg)")),
    bad("value-own", (TEXT, "this->*arg = argv[idx];")),
    bad("value-own-num", ("value << argv[idx + 1];", "value << argv[idx];")),
    bad("value-prev", (TEXT, "this->*arg = argv[idx ? idx - 1 : 0];")),
    bad("value-after-next", (BOUND, "if (idx + 2 < static_cast<int>(argv.size())) {"), (TEXT, "this->*arg = argv[idx + 2];")),
    bad("value-last", (TEXT, "this->*arg = argv.back();")),
    bad("value-appended", (TEXT, "(this->*arg) += argv[idx + 1];")),
    bad("text-by-stream", (TEXT, "std::stringstream value;\n value << argv[idx + 1];\n value >> this->*arg;")),
    bad("text-by-getline", (TEXT, "std::stringstream value;\n value << argv[idx + 1];\n std::getline(value, this->*arg);")),
    bad("text-to-equals", (TEXT, "this->*arg = argv[idx + 1].substr(0, argv[idx + 1].find('='));")),
    bad("text-cut", (TEXT, "this->*arg = argv[idx + 1].substr(0, 64);")),
    bad("text-cut-assign", (TEXT, "(this->*arg).assign(argv[idx + 1].data(), argv[idx + 1].size() - 1);")),
    bad("text-if-empty", (TEXT, "if ((this->*arg).empty()) this->*arg = argv[idx + 1];")),
    bad("text-not-dash", (TEXT, "if (!argv[idx + 1].starts_with(\"-\")) this->*arg = argv[idx + 1];")),
    bad("text-not-empty", (TEXT, "if (!argv[idx + 1].empty()) this->*arg = argv[idx + 1];")),
    bad("num-not-empty", ("value >> this->*arg;", "if (!value.str().empty() && value.str()[0] != '-') value >> this->*arg;")),
    bad("num-by-int", (NUM, NUM.replace("value >> this->*arg;", "int v = 0; value >> v; this->*arg = v;"))),
    bad("num-zeroed-first", (BOUND, "if constexpr (!std::is_same_v<std::decay_t<decltype(this->*arg)>, std::string>) this->*arg = {};\n" + BOUND)),
    bad("text-cleared-at-end", (BOUND, "if constexpr (std::is_same_v<std::decay_t<decltype(this->*arg)>, std::string>) (this->*arg).clear();\n" + BOUND)),
    bad("flag-toggled", ("this->*std::get<3>(prop) = true;", "this->*std::get<3>(prop) = !(this->*std::get<3>(prop));")),
    bad("flag-false", ("this->*std::get<3>(prop) = true;", "this->*std::get<3>(prop) = false;")),
    bad("flag-needs-next", ("this->*std::get<3>(prop) = true;", "this->*std::get<3>(prop) = idx + 1 < static_cast<int>(argv.size());")),
    bad("flag-first-only", ("this->*std::get<3>(prop) = true;", "this->*std::get<3>(prop) = idx < 2;")),
    bad("flag-with-value", (FLAG, "")),
    bad("flag-also-value", ("                    return;\n", "")),
    bad("flag-index", ("prop.index() == 3", "prop.index() >= 2"), ("this->*std::get<3>(prop) = true;", "if (auto* q = std::get_if<3>(&prop)) this->**q = true;")),
    bad("flag-throws", ("prop.index() == 3", "prop.index() != 0")),
    bad("int-ignored", ("} else {\n                                std::stringstream", "} else if constexpr (!std::is_same_v<std::decay_t<decltype(this->*arg)>, int>) {\n                                std::stringstream")),
    bad("throws-at-end", (BOUND, "if (idx + 1 == static_cast<int>(argv.size())) throw 1;\n" + BOUND)),
    bad("at", (BOUND, "{"), ("argv[idx + 1]", "argv.at(idx + 1)"), ("argv[idx + 1]", "argv.at(idx + 1)")),
    # -- which callbacks run
    bad("scan-from-one", ("for (int idx = 0; idx < argc; ++idx)", "for (int idx = 1; idx < argc; ++idx)")),
    bad("scan-not-last", ("idx < argc; ++idx", "idx < argc - 1; ++idx")),
    bad("scan-over", ("idx < argc; ++idx", "idx <= argc; ++idx")),
    bad("scan-two", ("idx < argc; ++idx", "idx < argc; idx += 2")),
    bad("scan-back", ("for (int idx = 0; idx < argc; ++idx)", "for (int idx = argc - 1; idx > 0; --idx)")),
    bad("scan-same", ("cbk.second(idx, vargv)", "cbk.second(0, vargv)")),
    bad("scan-next", ("cbk.second(idx, vargv)", "cbk.second(idx + 1, vargv)")),
    bad("scan-short-list", ("argv + argc)", "argv + argc - 1)")),
    bad("scan-skip-program", ("vargv(argv, argv + argc)", "vargv(argv + 1, argv + argc)")),
    bad("scan-first-callback", ("                cbk.second(idx, vargv);\n", "            { cbk.second(idx, vargv); break; }\n")),
    bad("scan-first-match", ("            for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);\n", "            if (auto it = callbacks_.begin(); it != callbacks_.end()) it->second(idx, vargv);\n")),
    bad("scan-skip-front", ("for (auto& cbk : callbacks_)\n", "for (auto& cbk : callbacks_) if (cbk.first != callbacks_.begin()->first)\n")),
    bad("scan-dashes", ("            for (auto& cbk", "            if (vargv[idx].starts_with(\"-\"))\n            for (auto& cbk")),
    bad("scan-until-dashes", ("            for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);\n", "            { if (vargv[idx] == \"--\") break;\n            for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv); }\n")),
    bad("scan-step-in", ("                cbk.second(idx, vargv);\n", "                cbk.second(idx++, vargv);\n")),
    bad("scan-nonzero-only", (SCAN, "        if (argc > 2) {\n" + SCAN.replace("        return", "        }\n        return"))),
    bad("copy-before", (LIST, LIST + "        Opts out = static_cast<Opts>(*this);\n"), ("return static_cast<Opts>(*this);", "return out;")),
    bad("copy-fresh", ("return static_cast<Opts>(*this);", "return Opts{};")),
    bad("parse-skips-on-small", (SCAN, "        if (argc < 2) return static_cast<Opts>(*this);\n" + SCAN)),
    # -- what is registered
    bad("raw-options", ("new argv_parser())", "new argv_parser)")),
    bad("register-from-one", (REG, "        for (auto it = args.begin() + 1; it < args.end(); ++it)\n            cmd_opts->register_callback(*it);\n")),
    bad("register-not-last", (REG, "        for (auto it = args.begin(); it + 1 < args.end(); ++it)\n            cmd_opts->register_callback(*it);\n")),
    bad("register-two", (REG, "        for (auto it = args.begin(); it < args.end(); it += 2)\n            cmd_opts->register_callback(*it);\n")),
    bad("register-first-only", (REG, "        if (args.size()) cmd_opts->register_callback(*args.begin());\n")),
    bad("register-nothing", (REG, "")),
    bad("register-not-flags", (REG, "        for (auto arg : args)\n            if (arg.second.index() != 3) cmd_opts->register_callback(arg);\n")),
    bad("register-same", (REG, "        for (auto arg : args) {\n            auto one = arg; one.second = args.begin()->second; cmd_opts->register_callback(one); }\n")),
    bad("name-by-ref", ("[this, name, prop]", "[this, &name, prop]")),
    bad("name-by-view", ("[this, name, prop]", "[this, name = std::string_view{name}, prop]")),
    bad("all-by-ref", ("[this, name, prop]", "[&]")),
    bad("prop-by-ref", ("[this, name, prop]", "[this, name, &prop]")),
    bad("name-key-other", ("callbacks_[name]", "callbacks_[name.substr(0, 2)]")),
    bad("emplace-keeps-first", ("callbacks_[name] = [this, name, prop](", "callbacks_.emplace(std::string{\"x\"}, [this, name, prop]("), ("            }\n        };\n", "            }\n        });\n")),
    # -- the same behaviour
    good("compare", (EQ, "            if (argv[idx].compare(name) == 0) {")),
    good("compare-name", (EQ, "            if (name.compare(argv[idx]) == 0) {")),
    good("equal-swapped", (EQ, "            if (name == argv[idx]) {")),
    good("equal-string", (EQ, "            if (std::string(argv[idx]) == name) {")),
    good("equal-view", (EQ, "            if (std::string_view{name} == argv[idx]) {")),
    good("equal-chars", (EQ, "            if (argv[idx] == name.c_str()) {")),
    good("return-early", (EQ, "            if (argv[idx] != name) return;\n            {")),
    good("size-and-chars", (EQ, "            if (argv[idx].size() == name.size() && argv[idx] == name) {")),
    good("view-first", (EQ, "            auto const& self = argv[idx];\n            if (self == name) {")),
    good("view-copy", (EQ, "            std::string_view const self{argv[idx]};\n            if (self == name) {")),
    good("bound-size", (BOUND, "if (idx + 1 < static_cast<int>(argv.size())) {")),
    good("bound-unsigned", (BOUND, "if (static_cast<std::size_t>(idx) + 1 < argv.size()) {")),
    good("bound-eq", (BOUND, "if (static_cast<std::size_t>(idx) + 1 != argv.size()) {")),
    good("bound-early", (BOUND, "if (static_cast<std::size_t>(idx + 1) >= argv.size()) return;\n{")),
    good("bound-minus", (BOUND, "if (static_cast<int>(argv.size()) - idx > 1) {")),
    good("text-assign", (TEXT, "(this->*arg).assign(argv[idx + 1]);")),
    good("text-assign-data", (TEXT, "(this->*arg).assign(argv[idx + 1].data(), argv[idx + 1].size());")),
    good("text-string", (TEXT, "this->*arg = std::string(argv[idx + 1]);")),
    good("text-view", (TEXT, "auto const next = argv[idx + 1];\n this->*arg = next;")),
    good("num-istringstream", (NUM, "std::istringstream value{std::string(argv[idx + 1])};\n value >> this->*arg;\n")),
    good("num-stream-text", (NUM, "std::stringstream value(std::string{argv[idx + 1]});\n value >> this->*arg;\n")),
    good("num-string", ("value << argv[idx + 1];", "value << std::string(argv[idx + 1]);")),
    good("num-chars", ("value << argv[idx + 1];", "value << argv[idx + 1].data();")),
    good("flag-holds", ("prop.index() == 3", "std::holds_alternative<bool Opts::*>(prop)")),
    good("flag-get-if", (FLAG, "if (auto flag = std::get_if<bool Opts::*>(&prop)) {\n this->**flag = true;\n return;\n}\n")),
    good("flag-by-type", ("std::get<3>(prop)", "std::get<bool Opts::*>(prop)")),
    good("flag-in-visit", (BODY, """            if (argv[idx] != name) {
                return;
            }
            std::visit(
                [&](auto arg) {
                    auto& option = this->*arg;
                    using type   = std::remove_cvref_t<decltype(option)>;
                    if constexpr (std::is_same_v<type, bool>) {
                        option = true;
                    } else if (idx + 1 < static_cast<int>(argv.size())) {
                        auto const next = argv[idx + 1];
                        if constexpr (std::is_same_v<type, std::string>) {
                            option = next;
                        } else {
                            std::stringstream value;
                            value << next;
                            value >> option;
                        }
                    }
                },
                prop);
""")),
    good("helper", ("""    auto
    register_callback(argument_type p)""", """    template <class T>
    static void
    read(std::string_view text, T& out)
    {
        if constexpr (std::is_same_v<T, std::string>) {
            out = text;
        } else {
            std::stringstream value;
            value << text;
            value >> out;
        }
    }

    auto
    register_callback(argument_type p)"""), ("""                            if constexpr (std::is_same_v<std::decay_t<decltype(this->*arg)>, std::string>) {
                                this->*arg = argv[idx + 1];
                            } else {
""" + NUM + "                            }\n", "                            read(argv[idx + 1], this->*arg);\n")),
    good("by-member", (BODY, "            take(idx, argv, name, prop);\n"), ("""    auto
    register_callback(argument_type p)""", """    void
    take(int idx, std::vector<std::string_view> const& argv, std::string const& name, parameter_type const& prop)
    {
""" + BODY + """    }

    auto
    register_callback(argument_type p)""")),
    good("range-span", (LIST, "        std::vector<std::string_view> const vargv(argv, argv + argc);\n")),
    good("list-built", (LIST, "        std::vector<std::string_view> vargv;\n        vargv.reserve(static_cast<std::size_t>(argc));\n        for (int k = 0; k < argc; ++k)\n            vargv.emplace_back(argv[k]);\n")),
    good("list-assigned", (LIST, "        std::vector<std::string_view> vargv;\n        vargv.assign(argv, argv + argc);\n")),
    good("scan-size", ("for (int idx = 0; idx < argc; ++idx)", "for (std::size_t idx = 0; idx < vargv.size(); ++idx)"), ("cbk.second(idx, vargv)", "cbk.second(static_cast<int>(idx), vargv)")),
    good("scan-binding", ("for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);", "for (auto const& [key, take] : callbacks_)\n                take(idx, vargv);")),
    good("scan-iterators", ("for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);", "for (auto it = callbacks_.begin(); it != callbacks_.end(); ++it)\n                it->second(idx, vargv);")),
    good("scan-while", (SCAN, "        int idx = 0;\n        while (idx < argc) {\n            for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);\n            ++idx;\n        }\n        return static_cast<Opts>(*this);\n")),
    good("scan-for-each", ("for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);", "std::for_each(callbacks_.begin(), callbacks_.end(), [&](auto& cbk) { cbk.second(idx, vargv); });"), ("#include <functional>", "#include <algorithm>\n#include <functional>")),
    good("scan-swapped", ("        for (int idx = 0; idx < argc; ++idx)\n            for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);\n", "        for (auto& cbk : callbacks_)\n            for (int idx = 0; idx < argc; ++idx)\n                cbk.second(idx, vargv);\n")),
    good("copy-after", ("return static_cast<Opts>(*this);", "Opts out = static_cast<Opts>(*this);\n        return out;")),
    good("copy-upcast", ("return static_cast<Opts>(*this);", "Opts const& self = *this;\n        return self;")),
    good("register-ref", ("for (auto arg : args)", "for (auto const& arg : args)")),
    good("register-pair", (REG, "        for (auto const& [name, prop] : args)\n            cmd_opts->register_callback(name, prop);\n")),
    good("register-iterators", (REG, "        for (auto it = args.begin(); it != args.end(); ++it)\n            cmd_opts->register_callback(*it);\n")),
    good("register-for-each", (REG, "        std::for_each(args.begin(), args.end(), [&](auto const& arg) { cmd_opts->register_callback(arg); });\n"), ("#include <functional>", "#include <algorithm>\n#include <functional>")),
    good("new-braces", ("new argv_parser())", "new argv_parser{})")),
    good("reset", ("auto cmd_opts = std::unique_ptr<argv_parser>(new argv_parser());", "std::unique_ptr<argv_parser> cmd_opts{};\n        cmd_opts.reset(new argv_parser());")),
    good("insert-or-assign", ("callbacks_[name] = [this, name, prop](", "callbacks_.insert_or_assign(name, [this, name, prop]("), ("            }\n        };\n", "            }\n        });\n")),
    good("callback-named", ("callbacks_[name] = [this, name, prop](", "callback_t call = [this, name, prop]("), ("            }\n        };\n", "            }\n        };\n        callbacks_[name] = std::move(call);\n")),
    good("lambda-named", ("callbacks_[name] = [this, name, prop](", "auto call = [this, name, prop]("), ("            }\n        };\n", "            }\n        };\n        callbacks_[name] = call;\n")),
    good("capture-text", ("[this, name, prop]", "[this, name = std::string{name}, prop]")),
    good("capture-order", ("[this, name, prop]", "[prop, name, this]")),
    good("capture-self", ("[this, name, prop]", "[self = this, name, prop]"), ("this->*std::get<3>(prop) = true", "self->*std::get<3>(prop) = true"), ("[this, idx, &argv](auto&& arg)", "[self, idx, &argv](auto&& arg)"), ("this->*arg", "self->*arg"), ("this->*arg", "self->*arg"), ("this->*arg", "self->*arg")),
    good("moved-pair", (REGP, "        return register_callback(std::move(p.first), std::move(p.second));\n")),
    good("variants-reordered", ("std::variant<std::string Opts::*, int Opts::*, double Opts::*, bool Opts::*>", "std::variant<bool Opts::*, std::string Opts::*, int Opts::*, double Opts::*>"), ("prop.index() == 3", "prop.index() == 0"), ("std::get<3>", "std::get<0>")),
    bad("count-byte", ("        for (int idx = 0; idx < argc; ++idx)", "        auto const count = static_cast<std::uint8_t>(argc);\n        for (std::uint8_t idx = 0; idx < count; ++idx)")),
    bad("count-byte2", ("        for (int idx = 0; idx < argc; ++idx)", "        auto const count = static_cast<std::uint8_t>(argc);\n        for (int idx = 0; idx < count; ++idx)")),
    bad("count-63", ("        for (int idx = 0; idx < argc; ++idx)", "        for (int idx = 0; idx < (argc & 63); ++idx)")),
    good("count-ssize", ("        for (int idx = 0; idx < argc; ++idx)", "        auto const count = std::ssize(vargv);\n        for (int idx = 0; idx < count; ++idx)")),
    good("count-few-many", ("        for (int idx = 0; idx < argc; ++idx)", "        if (argc <= 255) { for (int idx = 0; idx < static_cast<std::uint8_t>(argc); ++idx) for (auto& cbk : callbacks_) cbk.second(idx, vargv); } else for (int idx = 0; idx < argc; ++idx)")),
]
