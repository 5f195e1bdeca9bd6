LOG = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <new>
#include <sched.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
struct quiet_log {
    static quiet_log& trace() { static quiet_log l; return l; }
    static quiet_log& debug() { return trace(); }
    static quiet_log& info() { return trace(); }
    static quiet_log& warning() { return trace(); }
    static quiet_log& error() { return trace(); }
    template <class X> quiet_log& operator<<(X const&) { return *this; }
};
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); std::fflush(stdout); std::_Exit(1); } } while (0)
using namespace std::chrono_literals;
'''
SH = LOG + r'''
#include <xitren/comm/pipeline_stage.hpp>
using namespace xitren::comm;
using mt = std::pair<int, int>;
'''
PH = LOG + r'''
#include <xitren/comm/pipeline_stage_pool.hpp>
using namespace xitren::comm;
'''
IH = LOG + r'''
#include <xitren/func/interval_event.hpp>
using namespace xitren::func;
'''
S, P, I = "comm/pipeline_stage.hpp", "comm/pipeline_stage_pool.hpp", "func/interval_event.hpp"
PUSHS = "        auto const i                          = queue_.tail++;\n        queue_.array[i % queue_.array.size()] = data;\n"
PUSHP = "        auto const i                                        = pool_[min_id].tail++;\n        pool_[min_id].array[i % pool_[min_id].array.size()] = data;\n"
ONECPU = r'''
void one_cpu() { cpu_set_t s; sched_getaffinity(0, sizeof s, &s); int c = 0; while (!CPU_ISSET(c, &s)) ++c; CPU_ZERO(&s); CPU_SET(c, &s); sched_setaffinity(0, sizeof s, &s); }
'''
SEEDS = [
 # ---------------------------------------------------------------- C21
 ("c21-load-then-store", "C21", S, [((PUSHS, 2), "@2")],
  SH + r'''
int main() {
    alarm(50);
    constexpr int n = 100000;
    using stage = pipeline_stage<int, void, 4 * n, quiet_log>;
    std::atomic<long> got{0};
    {
        auto p = std::make_unique<stage>([&](pipeline_stage_exception, int, mt) { ++got; });
        std::atomic<int> ready{0};
        std::vector<std::thread> t;
        for (int k = 0; k < 4; ++k)
            t.emplace_back([&] { ++ready; while (ready < 4) {} for (int i = 0; i < n; ++i) { int const v = i; p->push(v); } });
        for (auto& x : t) x.join();
    }
    std::printf("%ld\n", got.load());
    CHECK(got == 4L * n);
    return 0;
}''', "several threads pushing lvalues at the same time", "two pushes take the same position, one of the items is lost"),
 ("c21-queue-chosen-twice", "C21", P, [("    push(Type const& data)\n    {\n        auto const min_id{min_thread()};\n" + PUSHP, "    push(Type const& data)\n    {\n        auto const min_id{min_thread()};\n" + PUSHP.replace("        pool_[min_id].array[i %", "        pool_[min_thread()].array[i %"))],
  PH + r'''
int main() {
    alarm(20);
    std::atomic<int> got{0};
    std::atomic<bool> go{false};
    {
        pipeline_stage_pool<int, void, 64, 2, quiet_log> p([&](pipeline_stage_exception, int, measure_data) { while (!go) {} ++got; });
        for (int i = 0; i < 21; ++i) { p.push(i); std::this_thread::sleep_for(1ms); }
        go = true;
        for (int i = 0; i < 200 && got < 21; ++i) std::this_thread::sleep_for(10ms);
        CHECK(got == 21);
    }
    return 0;
}''', "two queues with equal backlogs, so that taking a position changes which one is the shortest", "the item goes into another queue's slot, its own queue waits for ever"),
 # ---------------------------------------------------------------- C22
 ("c22-take-before-ready", "C22", S, [("                if (!(queue_.array[(tail_) % queue_.array.size()])) {\n", "                auto const i = tail_++;\n                if (!(queue_.array[i % queue_.array.size()])) {\n"),
                                      ("                auto const i = tail_++;\n#ifdef DEBUG\n                Log::trace() << \"Index to", "#ifdef DEBUG\n                Log::trace() << \"Index to")],
  SH + r'''
struct slow {
    int v{};
    slow() = default;
    slow(int x) : v{x} {}
    slow(slow const& o) : v{o.v} { std::this_thread::sleep_for(30ms); }
    slow& operator=(slow const& o) { v = o.v; std::this_thread::sleep_for(30ms); return *this; }
};
int main() {
    alarm(20);
    std::atomic<int> got{0};
    {
        pipeline_stage<slow, void, 16, quiet_log> p([&](pipeline_stage_exception, slow const&, mt) { ++got; });
        slow const a{1};
        for (int i = 0; i < 5; ++i) p.push(a);
    }
    CHECK(got == 5);
    return 0;
}''', "the worker looking at a position between its acceptance and the slot being filled", "the position is taken and the item never handed on"),
 ("c22-byte-index", "C22", P, [("                    auto const i = head_l++;\n", "                    auto const i = static_cast<std::uint8_t>(head_l++);\n")],
  PH + r'''
int main() {
    alarm(20);
    std::vector<int> got;
    {
        pipeline_stage_pool<int, void, 1000, 1, quiet_log> p([&](pipeline_stage_exception, int v, measure_data) { got.push_back(v); });
        for (int i = 0; i < 600; ++i) p.push(int{i});
    }
    CHECK(got.size() == 600);
    for (int i = 0; i < 600; ++i) CHECK(got[i] == i);
    return 0;
}''', "more than 256 items in a buffer whose size does not divide 256", "positions are truncated to a byte, so earlier items are handed on again"),
 # ---------------------------------------------------------------- C23
 ("c23-empty-seen-first", "C23", S, [("        while (!closed_ || ((queue_.tail - tail_) > 0)) {\n", "        while (((queue_.tail - tail_) > 0) || !closed_) {\n")],
  SH + ONECPU + r'''
int main() {
    alarm(100);
    one_cpu();
    for (int k = 0; k < 3000; ++k) {
        std::atomic<int> got{0};
        {
            pipeline_stage<int, void, 4, quiet_log> p([&](pipeline_stage_exception, int, mt) { ++got; });
            std::this_thread::sleep_for(200us);
            p.push(7);
        }
        CHECK(got == 1);
    }
    return 0;
}''', "the last push and the destructor both falling between the worker's look at the counter and its look at the flag", "the accepted item is never handed on"),
 ("c23-no-drain", "C23", P, [("            while (!closed_ || ((tail_l - head_l) > 0)) {\n", "            while (!closed_) {\n")],
  PH + ONECPU + r'''
int main() {
    alarm(100);
    one_cpu();
    for (int k = 0; k < 3000; ++k) {
        std::atomic<int> got{0};
        {
            pipeline_stage_pool<int, void, 4, 1, quiet_log> p([&](pipeline_stage_exception, int, measure_data) { ++got; });
            std::this_thread::sleep_for(200us);
            p.push(7);
        }
        CHECK(got == 1);
    }
    return 0;
}''', "an item pushed after the worker found its queue empty, and the destructor before it looks at the flag", "the accepted item is never handed on"),
 # ---------------------------------------------------------------- C24
 ("c24-total-instead-of-backlog", "C24", P, [("            auto const size{item.tail - item.head};\n", "            std::size_t const size{item.tail};\n")],
  PH + r'''
int main() {
    alarm(20);
    std::atomic<int> got{0};
    std::atomic<bool> go{false};
    int rest;
    {
        pipeline_stage_pool<int, void, 64, 2, quiet_log> p([&](pipeline_stage_exception, int v, measure_data) { if (v == 0) { while (!go) {} } ++got; });
        for (int i = 0; i < 20; ++i) { p.push(int{i}); std::this_thread::sleep_for(20ms); }
        rest = 20 - got;
        go = true;
    }
    std::printf("%d left\n", rest);
    CHECK(rest <= 3);
    return 0;
}''', "one worker kept busy while the other one is idle", "items are queued behind the busy worker although the other queue is empty"),
 ("c24-cap-eight", "C24", P, [("        std::size_t min{std::numeric_limits<int>::max()};\n", "        std::size_t min{8};\n")],
  PH + r'''
int main() {
    alarm(20);
    std::atomic<int> n[2]{};
    std::atomic<bool> go{false};
    {
        pipeline_stage_pool<int, void, 256, 2, quiet_log> p([&](pipeline_stage_exception, int, measure_data m) { while (!go) {} ++n[m.id]; });
        for (int i = 0; i < 100; ++i) p.push(int{i});
        go = true;
    }
    std::printf("%d %d\n", n[0].load(), n[1].load());
    CHECK(n[0] + n[1] == 100 && n[0] > 40 && n[1] > 40);
    return 0;
}''', "every queue holding eight items or more", "all further items go to the first queue"),
 # ---------------------------------------------------------------- C25
 ("c25-members-after-worker", "C25", S, [("    atomic_closed_type closed_{false};\n    queue_type         queue_{};\n", ""), ("#endif\n    }};\n};\n", "#endif\n    }};\n\n    queue_type         queue_{};\n    atomic_closed_type closed_{false};\n};\n")],
  SH + r'''
int main() {
    alarm(50);
    using stage = pipeline_stage<int, void, 4000000, quiet_log>;
    for (int k = 0; k < 10; ++k) {
        std::atomic<int> early{0};
        void* m = std::aligned_alloc(64, (sizeof(stage) + 63) / 64 * 64);
        std::memset(m, 1, sizeof(stage));
        auto* p = new (m) stage([&](pipeline_stage_exception, int, mt) { ++early; });
        CHECK(early == 0);
        p->push(1);
        p->~stage();
        std::free(m);
        CHECK(early == 1);
    }
    return 0;
}''', "an object built in memory that is not zero, and a buffer that takes a while to initialise", "the worker looks at the queue and the shutdown flag before they are initialised"),
 # ---------------------------------------------------------------- C26
 ("c26-plain-flag", "C26", S, [("    using atomic_closed_type = std::atomic<bool>;\n", "    using atomic_closed_type = bool;\n")],
  SH + r'''
int main() {
    alarm(50);
    for (int k = 0; k < 20; ++k) {
        pipeline_stage<int, void, 4, quiet_log> p([](pipeline_stage_exception, int, mt) {});
        std::this_thread::sleep_for(1ms);
    }
    return 0;
}''', "a race detector, or a compiler that keeps the flag in a register", "the worker reads the shutdown flag while the destructor writes it", "-fsanitize=thread"),
 ("c26-shared-statistics", "C26", P, [("                    stat_l.push_front(measure_data{\n", "                    stat_.push_front(measure_data{\n"), ("                    if (stat_l.size() > measure_points) {\n                        stat_l.pop_back();\n", "                    if (stat_.size() > measure_points) {\n                        stat_.pop_back();\n"), ("measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});", "measure_data{pool_thread_n, time_for_unit(stat_), buffer_utilization(stat_)});")],
  PH + r'''
int main() {
    alarm(100);
    constexpr int n = 20000;
    for (int k = 0; k < 40; ++k) {
        std::atomic<int> got{0};
        {
            using pool = pipeline_stage_pool<int, void, n, 6, quiet_log>;
            auto p = std::make_unique<pool>([&](pipeline_stage_exception, int, measure_data) { ++got; });
            for (int i = 0; i < n; ++i) p->push(int{i});
        }
        CHECK(got == n);
    }
    return 0;
}''', "two workers finishing an item at the same time", "all workers change one deque without a lock"),
 # ---------------------------------------------------------------- C27
 ("c27-wait-if-joinable", "C27", I, [("            keep_running_.wait(false);\n", "            if (thread_.joinable()) {\n                keep_running_.wait(false);\n            }\n")],
  IH + r'''
int main() {
    alarm(20);
    std::atomic<bool> inside{false};
    interval_event e([&] { inside = true; std::this_thread::sleep_for(300ms); inside = false; }, 1000ms, 5ms);
    while (!inside) std::this_thread::sleep_for(1ms);
    e.stop();
    CHECK(!inside);
    return 0;
}''', "stop called while the function is running", "stop returns before the thread has ended"),
 ("c27-destructor-does-not-wait", "C27", I, [("    ~interval_event() { stop(); }\n", "    ~interval_event() { keep_running_.clear(); }\n")],
  IH + r'''
int main() {
    alarm(20);
    std::atomic<bool> inside{false};
    alignas(interval_event) static char mem[sizeof(interval_event)];
    auto* e = new (mem) interval_event([&] { inside = true; std::this_thread::sleep_for(300ms); inside = false; }, 1000ms, 5ms);
    while (!inside) std::this_thread::sleep_for(1ms);
    e->~interval_event();
    CHECK(!inside);
    std::_Exit(0);
}''', "an event destroyed while its function is running", "the thread goes on using a destroyed object"),
 # ---------------------------------------------------------------- C28
 ("c28-missed-calls-dropped", "C28", I, [("                      function_();\n", "                      auto const late = std::chrono::system_clock::now() - last_time;\n                      if (late >= 4 * period_.load()) {\n                          last_time = std::chrono::system_clock::now();\n                      }\n                      std::invoke(function_);\n")],
  IH + r'''
int main() {
    alarm(20);
    std::atomic<int> n{0};
    interval_event e([&] { if (++n == 1) std::this_thread::sleep_for(500ms); }, 50ms, 1ms);
    std::this_thread::sleep_for(1000ms);
    int const got = n;
    e.stop();
    std::printf("%d\n", got);
    CHECK(got >= 15);
    return 0;
}''', "a call that takes more than four periods", "the instants missed meanwhile are given up instead of being made up for"),
 ("c28-period-at-least-check", "C28", I, [("        period_ = val;\n", "        period_ = std::max(val, period_between_checks_.load());\n")],
  IH + r'''
int main() {
    alarm(20);
    interval_event e([] {}, 100ms, 50ms);
    e.period(10ms);
    e.period_between_checks(2ms);
    CHECK(e.period() == 10ms);
    CHECK(e.period_between_checks() == 2ms);
    e.stop();
    return 0;
}''', "a period shorter than the check interval in force at that moment", "the period kept is not the one given"),
]
for i, s in enumerate(SEEDS):
    if s[0] == "c21-load-then-store":
        # the second of the two overloads
        o = PUSHS
        SEEDS[i] = (*s[:3], [("    push(Type const& data)\n    {\n" + o, "    push(Type const& data)\n    {\n" + o.replace("queue_.tail++;", "queue_.tail.load();\n        queue_.tail                           = i + 1;"))], *s[4:])
