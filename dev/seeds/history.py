S = "comm/pipeline_stage.hpp"
P = "comm/pipeline_stage_pool.hpp"
HDR = r'''
#include <chrono>
#include <cstdio>
#include <deque>
#include <limits>
#include <mutex>
#include <thread>
#include <vector>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
using namespace std::chrono_literals;
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); std::fflush(stdout); std::_Exit(1); } } while (0)
struct lg {
    static lg& trace() { static lg l; return l; } static lg& debug() { return trace(); } static lg& info() { return trace(); }
    static lg& warning() { return trace(); } static lg& error() { return trace(); }
    template <class X> lg& operator<<(X const&) { return *this; }
};
using namespace xitren::comm;
'''
STAGE = HDR + r'''
std::vector<std::pair<int, int>> told;
std::atomic<int> done{0};
using stage = pipeline_stage<int, void, 256, lg>;
struct runner {
    stage st;
    runner() : st{[](pipeline_stage_exception, int ms, std::pair<int, int> m) { told.push_back(m); std::this_thread::sleep_for(std::chrono::milliseconds(ms)); done++; }} {}
    void one(int ms) { int n = done; st.push(ms); while (done == n) std::this_thread::sleep_for(1ms); std::this_thread::sleep_for(3ms); }
};
'''
PUSH = "                stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),\n                                              queue_.tail - tail_});\n"
SEEDS = [
 ("c37-newest-dropped", "C37", S, [("                    stat_.pop_back();", "                    stat_.pop_front();")], STAGE + r'''
int main() {
    told.reserve(64);
    runner r;
    for (int i = 0; i < 12; i++) r.one(0);
    for (int i = 0; i < 12; i++) r.one(20);
    CHECK(r.st.time_for_unit() >= 18);
    std::_Exit(0);
}''', "more than ten items", "once the history is full the newest measure is thrown away, so the figures never change again"),
 ("c37-waits-counted", "C37", S,
  [("                auto  last_time{std::chrono::system_clock::now()};\n", ""),
   ("        while (!closed_ || ((queue_.tail - tail_) > 0)) {\n            while (tail_ < queue_.tail) {", "        auto last_time{std::chrono::system_clock::now()};\n        while (!closed_ || ((queue_.tail - tail_) > 0)) {\n            while (tail_ < queue_.tail) {"),
   ("                auto elapsed = std::chrono::system_clock::now() - last_time;", "                auto elapsed = std::chrono::system_clock::now() - last_time;\n                last_time += elapsed;")], STAGE + r'''
int main() {
    told.reserve(64);
    runner r;
    for (int i = 0; i < 4; i++) { r.one(0); std::this_thread::sleep_for(200ms); }
    CHECK(r.st.time_for_unit() < 20);
    std::_Exit(0);
}''', "pauses between items", "the time measured includes the wait for the item"),
 ("c37-load-before", "C37", S,
  [("                                              queue_.tail - tail_});", "                                              queue_.tail - i});")], STAGE + r'''
int main() {
    told.reserve(64);
    runner r;
    for (int i = 0; i < 12; i++) r.one(0);
    CHECK(r.st.buffer_utilization() == 0);
    std::_Exit(0);
}''', "ten items arriving one at a time", "the backlog measured counts the item that has just been processed"),
 ("c37-pool-wide-figures", "C37", P,
  [("measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});", "measure_data{pool_thread_n, time_for_unit(pool_[0].stat), buffer_utilization(stat_l)});")], HDR + r'''
int main() {
    std::atomic<int> seen{0}, told{-1};
    pipeline_stage_pool<int, void, 64, 2, lg> p{[&](pipeline_stage_exception, int ms, measure_data m) {
        if (m.id == 1) told = m.time;
        std::this_thread::sleep_for(std::chrono::milliseconds(ms));
        seen++;
    }};
    for (int round = 1; round <= 2; round++) {
        std::this_thread::sleep_for(50ms);
        p.push(400);                              // worker 0 takes it
        std::this_thread::sleep_for(50ms);
        p.push(1);                                // waits behind it
        p.push(1);                                // worker 1 takes it
        for (int i = 0; i < 400 && seen < 3 * round; i++) std::this_thread::sleep_for(10ms);
        CHECK(seen == 3 * round);
    }
    CHECK(told >= 0 && told < 20);
    std::_Exit(0);
}''', "workers with different histories", "every worker's stage function is told the first worker's time"),
 ("c37-lazy-trim", "C37", P,
  [("                    if (stat_l.size() > measure_points) {", "                    if (stat_l.size() > measure_points && tail_l == head_l) {")], HDR + r'''
int main() {
    std::atomic<int> seen{0}, told{0};
    pipeline_stage_pool<int, void, 64, 1, lg> p{[&](pipeline_stage_exception, int, measure_data m) {
        told = m.time;
        std::this_thread::sleep_for(5ms);
        seen++;
    }};
    for (int i = 0; i < 40; i++) p.push(i);
    for (int i = 0; i < 400 && seen < 40; i++) std::this_thread::sleep_for(10ms);
    CHECK(seen == 40);
    CHECK(told <= 12);
    std::_Exit(0);
}''', "a queue that stays non-empty for more than ten items", "the history outgrows its ten entries and the figures rise above the truth"),
]
