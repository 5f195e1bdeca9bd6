M = "comm/mediator.hpp"
P = "comm/pipeline_stage.hpp"
V = "comm/values/observable.hpp"
F = "func/fast_pimpl.hpp"
I = "func/interval_event.hpp"
SEEDS = [
 ("c36-message-defaults", "C36", M, [("            data_converter<Data> cnv    = {data};\n", "            data_converter<Data> cnv;\n            cnv.fields = data;\n")],
  r'''
#include <cstdio>
#include <cstring>
#include <xitren/comm/mediator.hpp>
using namespace xitren::comm;
struct tick { std::uint32_t n; };
struct command { std::uint32_t code = 7; std::uint16_t argument = 1; };
class board : public manager<4> {};
static unsigned got = 0;
class lamp : public module<tick, command> {
public:
    explicit lamp(base::manager& m) : module<tick, command>(m) {}
    void data(command const& c) override { got += c.code; }
};
int main() {
    board b;
    lamp  l{b};
    b.send(command{});
    b.send(command{5, 2});
    if (got != 12) { std::printf("broken: %u\n", got); return 1; }
    return 0;
}''', "a manager sending a message type whose members have default values", "manager::send does not compile for it"),
 ("c36-trace-shows-data", "C36", P, [(("        Log::trace() << \"Index: \" << queue_.tail << \"\\n\";", 2), "        Log::trace() << \"Index: \" << queue_.tail << \" <- \" << data << \"\\n\";")],
  r'''
#include <cstdio>
#include <sstream>
#include <xitren/comm/pipeline_stage.hpp>
using namespace xitren::comm;
struct lg {
    static std::ostream& out() { static thread_local std::ostringstream o; return o; }
    static std::ostream& trace() { return out(); }
    static std::ostream& debug() { return out(); }
    static std::ostream& info() { return out(); }
    static std::ostream& warning() { return out(); }
    static std::ostream& error() { return out(); }
};
struct sample { int x, y; };
int main() {
    std::atomic<int> sum{0};
    {
        pipeline_stage<sample, int, 8, lg> stage{[&](auto, sample s, auto) { sum += s.x + s.y; return 0; }};
        stage.push(sample{1, 2});
    }
    if (sum != 3) { std::printf("broken: %d\n", sum.load()); return 1; }
    return 0;
}''', "a DEBUG build of a stage whose items cannot be printed", "push does not compile", "-DDEBUG"),
 ("c36-native-step", "C36", V, [(("    operator++() noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_add(1) + 1;\n", 2), "    operator++() noexcept\n    {\n        auto const ret = std::atomic<observable_type>::operator++();\n")],
  r'''
#include <cstdio>
#include <xitren/comm/values/observable.hpp>
using namespace xitren::comm::values;
int main() {
    observable<double, 2> level;
    level = 1.5;
    ++level;
    if (level.value() != 2.5) { std::printf("broken\n"); return 1; }
    return 0;
}''', "an observable of a floating-point type", "pre-increment does not compile for it"),
 ("c36-size-known-early", "C36", F, [("    using const_reference = T const&;\n", "    using const_reference = T const&;\n\n    static_assert(alignof(T) <= Alignment, \"incorrect specialization of Alignment\");\n"),
   ("            static_assert(Alignment % ActualAlignment == 0,\n", "            static_assert((Alignment % ActualAlignment) == 0,\n")],
  r'''
#include <cstdio>
#include <xitren/func/fast_pimpl.hpp>
struct hidden;
class widget {
public:
    widget();
    ~widget();
    int value() const;
private:
    xitren::func::fast_pimpl<hidden, 16, 8> impl_;
};
struct hidden { int v{42}; double d{}; };
widget::widget() = default;
widget::~widget() = default;
int widget::value() const { return impl_->v; }
int main() {
    widget w;
    if (w.value() != 42) { std::printf("broken\n"); return 1; }
    return 0;
}''', "a class that holds an implementation declared but not yet defined", "the holder cannot be a member of it"),
 ("c36-callback-by-reference", "C36", I, [("    interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,\n", "    interval_event(std::function<void(void)>& function, time_type repeat_every = 100ms,\n")],
  r'''
#include <cstdio>
#include <xitren/func/interval_event.hpp>
int main() {
    std::atomic<int> n{0};
    {
        xitren::func::interval_event e{[&] { n++; }, 10ms, 1ms};
        std::this_thread::sleep_for(100ms);
    }
    if (n == 0) { std::printf("broken\n"); return 1; }
    return 0;
}''', "-", "-"),
]
SEEDS = SEEDS[:4]      # the last one breaks the tests
