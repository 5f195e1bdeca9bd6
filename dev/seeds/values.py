HDR = r'''
#include <cstdio>
#include <vector>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/observer_static.hpp>
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); return 1; } } while (0)
namespace xv = xitren::comm::values;
namespace xc = xitren::comm;
inline std::vector<std::pair<int, void const*>> log_;
template <int N> struct W : xc::observer<int, W<N>> {
    void notification_impl(xc::observable_impl<int> const& s, int const&) { log_.push_back({N, &s}); }
};
'''
F, G, S = "comm/values/observable.hpp", "comm/values/observed.hpp", "comm/observer_static.hpp"
SEEDS = [
 ("c17-long-chain-order", "C17", S, [("        obs_.notification(root, data);\n        return next_.notify(data);", "        if constexpr (sizeof...(Observers) > 2) {\n            next_.notify(data);\n            obs_.notification(root, data);\n        } else {\n            obs_.notification(root, data);\n            next_.notify(data);\n        }")],
  HDR + r'''
int main() {
    W<1> a; W<2> b; W<3> c; W<4> d;
    xc::observable<int, W<1>, W<2>, W<3>, W<4>> o(a, b, c, d);
    o.notify(1);
    CHECK(log_.size() == 4);
    for (int i = 0; i < 4; i++) CHECK(log_[i].first == i + 1);
    return 0;
}''', "a chain of four or more observers", "the first observer is notified last"),
 ("c17-source-per-level", "C17", S, [("    observable_impl<D>& root;\n", "    observable_impl<D> root;\n")],
  HDR + r'''
int main() {
    W<1> a; W<2> b; W<3> c;
    xc::observable<int, W<1>, W<2>, W<3>> o(a, b, c);
    o.notify(1);
    CHECK(log_.size() == 3);
    CHECK(log_[0].second == log_[1].second && log_[1].second == log_[2].second);
    return 0;
}''', "an observer that compares the source objects of a chain of two or more", "every level notifies with a source object of its own"),
 ("c19-returns-reread", "C19", F, [(("        auto const ret = std::atomic<observable_type>::fetch_add(1);\n        notify_observers(ret + 1);\n        return ret;", 2), "        auto const ret = std::atomic<observable_type>::fetch_add(1);\n        notify_observers(ret + 1);\n        return std::atomic<observable_type>::load() - 1;")],
  HDR + r'''
int main() {
    xv::observable<int, 4> v;
    v = 5;
    bool once = false;
    xv::observed<int> o([&](int x) { if (!once) { once = true; v = x + 100; } });
    v.add_observer(o);
    CHECK(v++ == 5);
    return 0;
}''', "the value changing again (from a callback or another thread) between the increment and its return", "the postfix increment returns a re-read value"),
 ("c19-publish-if-changed", "C19", F, [(("        std::atomic<observable_type>::store(op);\n        notify_observers(op);", 4), "        if (std::atomic<observable_type>::exchange(op) != op)\n            notify_observers(op);")],
  HDR + r'''
int main() {
    xv::observable<int, 0> v; int n = 0;
    xv::observed<int> o([&](int) { n++; });
    v.add_observer(o);
    v = 3; v = 3;
    CHECK(n == 2);
    return 0;
}''', "assigning the value it already has", "an assignment of an equal value is not published"),
 ("c20-callback-if-changed", "C20", G, [("        std::atomic<T>::store(nd);\n        if (function_) {", "        if (std::atomic<T>::exchange(nd) != nd && function_) {")],
  HDR + r'''
int main() {
    int n = 0; xv::observed<int> o([&](int) { n++; });
    o.notification(nullptr, 4); o.notification(nullptr, 4);
    CHECK(n == 2);
    return 0;
}''', "two notifications of the same value in a row", "the callback is not called for a repeated value"),
 ("c20-reset-ignored", "C20", G, [("        function_ = function;", "        if (function)\n            function_ = function;")],
  HDR + r'''
int main() {
    int n = 0; xv::observed<int> o([&](int) { n++; });
    o.on_update(nullptr);
    o.notification(nullptr, 4);
    CHECK(n == 0);
    return 0;
}''', "replacing a callback by an empty one", "an empty callback does not replace the one set"),
]
