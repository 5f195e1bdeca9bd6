HDR = r'''
#include <cstdio>
#include <cstring>
#include <memory>
#include <vector>
#include <string>
#include <xitren/comm/mediator.hpp>
using namespace xitren::comm;
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); return 1; } } while (0)
struct A { int x; }; struct B { char c[5]; }; struct C { long v; }; struct D { int x, y; };
template <class S, class R> struct M : module<S, R> {
    std::vector<R> got;
    explicit M(base::manager& m) : module<S, R>(m) {}
    void data(R const& r) override { got.push_back(r); }
};
'''
F = "comm/mediator.hpp"
SEEDS = [
 ("c09-one-too-many", "C09", F, [("std::array<base::module*, Sources> modules_;", "std::array<base::module*, Sources + 1> modules_;")],
  HDR + r'''
int main() {
    manager<2> m; M<A, B> a(m); M<B, A> b(m);
    bool raised = false;
    try { auto* c = new M<C, A>(m); (void)c; } catch (...) { raised = true; }
    CHECK(raised);
    return 0;
}''', "registering one module more than the manager has room for", "the surplus module is recorded instead of raising an error"),
 ("c09-remove-drops-next", "C09", F, [("for (; i < modules_cnt_ - 1; i++) {", "for (; i + 2 < modules_cnt_; i += 2) {")],
  HDR + r'''
int main() {
    manager<6> m; M<A, B> a(m);
    auto x = std::make_unique<M<C, A>>(m); M<C, A> y(m); M<C, A> z(m); M<C, A> w(m);
    x.reset();
    a.module<A, B>::send(A{7});
    CHECK(y.got.size() == 1 && z.got.size() == 1 && w.got.size() == 1);
    return 0;
}''', "removing a module that has at least two registered after it", "the shift skips entries, so later modules are lost or listed twice"),
 ("c10-hook-skipped-empty", "C10", F, [("data(sender.id_, ptr, sz);\n        for", "if (modules_cnt_ > 1) data(sender.id_, ptr, sz);\n        for")],
  HDR + r'''
struct Mg : manager<3> { int n = 0; void data(std::size_t, std::uint8_t*, std::size_t) override { n++; } };
int main() {
    Mg m; M<A, B> a(m); a.module<A, B>::send(A{7});
    CHECK(m.n == 1);
    return 0;
}''', "a lone module sending a message through a manager whose hook is overridden", "the manager's own hook does not see the message"),
 ("c10-batch-stops-at-sender", "C10", F, [("                modules_.at(i)->receive(sender.id_, ptr, sz);\n            }", "                modules_.at(i)->receive(sender.id_, ptr, sz);\n            } else if (modules_.at(i) != &sender) {\n                return;\n            }")],
  HDR + r'''
int main() {
    manager<6> m; M<A, B> a(m); M<A, B> twin(m); M<C, A> late(m);
    a.module<A, B>::send(A{7});
    CHECK(late.got.size() == 1);
    return 0;
}''', "two modules of one identity and another one registered behind them", "modules registered behind the sender's twin get nothing"),
 ("c11-length-at-least", "C11", F, [("        if (cnv.pure.size() != sz)\n            return false;", "        if (cnv.pure.size() > sz)\n            return false;")],
  HDR + r'''
int main() {
    manager<4> m; M<C, A> r(m);
    unsigned char buf[8] = {1, 0, 0, 0, 2, 0, 0, 0};
    r.receive(std::hash<std::string>{}(typeid(A).name()), buf, 8);
    CHECK(r.got.empty());
    return 0;
}''', "a message whose identity matches but which is longer than the handler's type", "the handler is called with a truncated value"),
 ("c11-second-type-any-length", "C11", F, [("""            if (id == hash) {
                val.convert_field<First>(ptr, sz);
                return;
            } else {
                return receiver""", """            if (id == hash && sz != sizeof(Sends)) {
                val.convert_field<First>(ptr, sz);
                return;
            } else {
                return receiver""")],
  HDR + r'''
struct R2 : module<A, D, C> { int d = 0, c = 0; explicit R2(base::manager& m) : module(m) {}
    void data(D const&) override { d++; } void data(C const&) override { c++; } };
struct R3 : module<C, D, A> { int d = 0, a = 0; explicit R3(base::manager& m) : module(m) {}
    void data(D const&) override { d++; } void data(A const&) override { a++; } };
int main() {
    manager<4> m; R2 r(m); R3 q(m); M<D, B> s(m);
    s.module<D, B>::send(D{1, 2});
    CHECK(r.d == 1 && r.c == 0);
    CHECK(q.d == 1 && q.a == 0);
    return 0;
}''', "a module that receives two types and sends one as long as the first of them", "messages of the first type never reach its handler"),
]
