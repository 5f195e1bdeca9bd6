P = "func/argv_parser.hpp"
HEAD = r'''
#include <cstdio>
#include <string>
#include <xitren/func/argv_parser.hpp>
using namespace xitren::func;
struct opts { std::string name{}; int count{}; double ratio{}; bool flag{}; };
'''
SEEDS = [
 ("c29-last-option-reads-on", "C29", P, [("if (idx < static_cast<int>(argv.size() - 1)) {", "if (idx < static_cast<int>(argv.size())) {")],
  HEAD + r'''
int main() {
    // the option is the last argument: there is nothing after it
    char const* argv[] = {"app", "-v", "--name"};
    auto p = argv_parser<opts>::instance({{"--name", &opts::name}, {"-v", &opts::flag}});
    auto o = p->parse(3, argv);
    if (!o.name.empty() || !o.flag) { std::printf("broken: %s\n", o.name.c_str()); return 1; }
    return 0;
}''', "a valued option in last position", "the views past the end of the argument list are read", "-fsanitize=address -g"),
 ("c29-long-names-match-short", "C29", P, [("if (argv[idx] == name) {", "if (argv[idx].starts_with(name)) {")],
  HEAD + r'''
int main() {
    char const* argv[] = {"app", "--counter", "5", "--ratio", "2.5"};
    auto p = argv_parser<opts>::instance({{"--count", &opts::count}, {"--ratio", &opts::ratio}});
    auto o = p->parse(5, argv);
    if (o.count != 0 || o.ratio != 2.5) { std::printf("broken: %d\n", o.count); return 1; }
    return 0;
}''', "an argument that begins with an option's name but is longer", "it is taken for the option"),
 ("c29-dashes-end-options", "C29", P, [("            for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);\n", "        {\n            if (vargv[idx] == \"--\")\n                break;\n            for (auto& cbk : callbacks_)\n                cbk.second(idx, vargv);\n        }\n")],
  HEAD + r'''
int main() {
    char const* argv[] = {"app", "--name", "--", "--count", "3"};
    auto p = argv_parser<opts>::instance({{"--name", &opts::name}, {"--count", &opts::count}});
    auto o = p->parse(5, argv);
    if (o.name != "--" || o.count != 3) { std::printf("broken: %s %d\n", o.name.c_str(), o.count); return 1; }
    return 0;
}''', "an argument `--`, for instance as the value of an option", "the options after it are not taken"),
 ("c29-negative-values", "C29", P, [("if (idx < static_cast<int>(argv.size() - 1)) {", "if (idx < static_cast<int>(argv.size() - 1) && argv[idx + 1].substr(0, 1) != \"-\") {")],
  HEAD + r'''
int main() {
    char const* argv[] = {"app", "--count", "-4", "--ratio", "-0.5"};
    auto p = argv_parser<opts>::instance({{"--count", &opts::count}, {"--ratio", &opts::ratio}});
    auto o = p->parse(5, argv);
    if (o.count != -4 || o.ratio != -0.5) { std::printf("broken: %d %f\n", o.count, o.ratio); return 1; }
    return 0;
}''', "a value that begins with a dash", "the option is left as it was"),
 ("c29-words-are-no-options", "C29", P, [("        for (auto arg : args)\n            cmd_opts->register_callback(arg);\n", "        for (auto arg : args)\n            if (arg.first.starts_with(\"-\"))\n                cmd_opts->register_callback(arg);\n")],
  HEAD + r'''
int main() {
    char const* argv[] = {"app", "verbose", "count", "3"};
    auto p = argv_parser<opts>::instance({{"verbose", &opts::flag}, {"count", &opts::count}});
    auto o = p->parse(4, argv);
    if (!o.flag || o.count != 3) { std::printf("broken: %d %d\n", o.flag, o.count); return 1; }
    return 0;
}''', "an option whose name does not begin with a dash", "it is never registered"),
 ("c29-flag-toggles", "C29", P, [("this->*std::get<3>(prop) = true;", "this->*std::get<3>(prop) = !(this->*std::get<3>(prop));")],
  HEAD + r'''
int main() {
    char const* argv[] = {"app", "-v", "--count", "1", "-v"};
    auto p = argv_parser<opts>::instance({{"-v", &opts::flag}, {"--count", &opts::count}});
    auto o = p->parse(5, argv);
    if (!o.flag || o.count != 1) { std::printf("broken: %d\n", o.flag); return 1; }
    return 0;
}''', "a flag given twice, or one that is true from the start", "the flag becomes false"),
 ("c29-options-not-given", "C29", P, [("auto cmd_opts = std::unique_ptr<argv_parser>(new argv_parser());", "auto cmd_opts = std::unique_ptr<argv_parser>(new argv_parser);")],
  r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
void* operator new(std::size_t n) { void* p = std::malloc(n); std::memset(p, 0x5a, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#include <xitren/func/argv_parser.hpp>
using namespace xitren::func;
struct plain { std::string name; int count; double ratio; bool flag; };
int main() {
    char const* argv[] = {"app", "--name", "box"};
    auto p = argv_parser<plain>::instance({{"--name", &plain::name}, {"--count", &plain::count}, {"--ratio", &plain::ratio}, {"-v", &plain::flag}});
    auto o = p->parse(3, argv);
    if (o.name != "box" || o.count != 0 || o.ratio != 0) { std::printf("broken: %d\n", o.count); return 1; }
    return 0;
}""", "options without initialisers that are not among the arguments", "they hold what the memory held"),
]
