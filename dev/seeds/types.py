A = "func/argv_parser.hpp"; S = "comm/observer_static.hpp"; O = "comm/values/observed.hpp"
SEEDS = [
 ("c30-parser-movable", "C30", A, [("    argv_parser(argv_parser&&) = delete;", "    argv_parser(argv_parser&&) = default;")],
  r'''
#include <cstdio>
#include <utility>
#include <xitren/func/argv_parser.hpp>
struct opts { std::string s; int n{}; bool f{}; };
template <class P> int use() {
    auto p = P::instance({{"-s", &opts::s}, {"-n", &opts::n}, {"-f", &opts::f}});
    char const* av[] = {"prog", "-n", "7", "-f", "-s", "x y"};
    if constexpr (std::is_move_constructible_v<P>) {
        P other(std::move(*p));           // a program that keeps the parser by value
        opts o = other.parse(6, av);
        if (o.n != 7 || !o.f || o.s != "x y") { std::printf("the moved parser wrote into the old object\n"); return 1; }
    } else {
        opts o = p->parse(6, av);
        if (o.n != 7 || !o.f || o.s != "x y") return 1;
    }
    return 0;
}
int main() { return use<xitren::func::argv_parser<opts>>(); }
''', "a program that keeps the parser by value instead of behind the pointer", "a parser can be moved, and the moved one's callbacks write into the old object"),
 ("c30-chain-copyable", "C30", S, [("    observable(observable const&) = delete;\n    observable(observable&&)      = delete;\n    observable const&\n    operator=(observable const&)\n        = delete;\n    ~observable() = default;\n\n    inline void\n    notify(D const& data) noexcept\n    {\n        obs_.notification(root, data);\n        return next_",
   "    constexpr observable(observable const& other) : next_{other.next_}, obs_{other.obs_}, root{other.root} {}\n    ~observable() = default;\n\n    inline void\n    notify(D const& data) noexcept\n    {\n        obs_.notification(root, data);\n        return next_"),
   (("    observable(observable const&) = delete;\n    observable(observable&&)      = delete;\n", 1), "    constexpr observable(observable const&) = default;\n")],
  r'''
#include <cstdio>
#include <type_traits>
#include <xitren/comm/observer_static.hpp>
namespace xc = xitren::comm;
static void const* src = nullptr;
struct W1 : xc::observer<int, W1> { void notification_impl(xc::observable_impl<int> const& s, int const&) { src = &s; } };
struct W2 : xc::observer<int, W2> { void notification_impl(xc::observable_impl<int> const&, int const&) {} };
template <class T> int use() {
    W1 a; W2 b;
    T o(a, b);
    if constexpr (std::is_copy_constructible_v<T>) {
        T c(o);
        c.notify(1);
        if ((char const*)src < (char const*)&c || (char const*)src >= (char const*)(&c + 1)) {
            std::printf("the copy names the original as the source of its notifications\n");
            return 1;
        }
    } else {
        o.notify(1);
        if (src != &o.root) return 1;
    }
    return 0;
}
int main() { return use<xc::observable<int, W1, W2>>(); }
''', "a program that copies a chain of two or more observers", "a chain can be copied, and the copy's root refers into the original"),
 ("c30-value-copy-registered", "C30", O, [("    observed(observed const&) = delete;\n    observed(observed&&)      = delete;\n", "    observed(observed const& other) : std::atomic<T>{other.load()}, function_{other.function_} {}\n")],
  r'''
#include <cstdio>
#include <type_traits>
#include <xitren/comm/values/observed.hpp>
#include <xitren/comm/values/observable.hpp>
namespace xv = xitren::comm::values;
template <class V> int use() {
    V v;
    xv::observable<int, 4> src;
    src.add_observer(v);
    src = 5;
    if (v.value() != 5) return 1;
    if constexpr (std::is_copy_constructible_v<V>) {
        V w(v);
        src = 6;
        if (w.value() != 6) { std::printf("the copy of a registered value is not registered\n"); return 1; }
    }
    return 0;
}
int main() { return use<xv::observed<int>>(); }
''', "a program that copies an observed value that is registered with its publisher", "an observed value can be copied, and the copy is not the one registered with the publisher"),
]
