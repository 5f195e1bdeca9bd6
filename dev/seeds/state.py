"""State shared between objects; counters, counts and positions too narrow for what they count."""
import importlib.util, os
def _m(n):
    s = importlib.util.spec_from_file_location("c", os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m
T, HP, AG, LR, OB, PK = _m("threads"), _m("heap"), _m("argv"), _m("lru"), _m("observers"), _m("packet")
S, P, I, H, A, L, O = T.S, T.P, T.I, HP.H, AG.P, LR.L, "comm/observer.hpp"
SEEDS = [
 ("c02-figure-of-all-heaps", "C02", H, [("    std::size_t x_free_bytes_remaining_{};", "    static inline std::size_t x_free_bytes_remaining_{};")],
  HP.HDR + r'''
int main() {
    auto a = std::make_unique<heap>();
    auto b = std::make_unique<heap>();
    auto const before = a->free_heap_size();
    CHECK(b->allocate(64) != nullptr);
    CHECK(a->free_heap_size() == before);
    return 0;
}''', "two heaps of one type alive at once, of which one is used", "the heaps share one free-byte figure"),
 ("c01-zeroed-request-32-bits", "C01", H, [("            pv = allocate(x_num * x_size);", "            pv = allocate(static_cast<std::uint32_t>(x_num * x_size));")],
  HP.HDR + r'''
int main() {
    auto h = std::make_unique<heap>();
    CHECK(h->callocate(1, 16) != nullptr);
    CHECK(h->callocate((std::size_t(1) << 32) + 16, 1) == nullptr);
    return 0;
}''', "a zeroed request of 4 GiB and a few bytes", "its size is cut to 32 bits, so a block of a few bytes answers it"),
 ("c03-storage-length-16-bits", "C03", H, [("        std::size_t   x_total_heap_size = config_total_heap_size;", "        std::uint16_t x_total_heap_size = config_total_heap_size;")],
  HP.HDR + r'''
int main() {
    auto h = std::make_unique<static_heap<100000>>();
    CHECK(h->free_heap_size() > 99000);
    CHECK(h->allocate(60000) != nullptr);
    return 0;
}''', "a heap of more than 64 KiB", "only the remainder of its length modulo 64 Ki is managed"),
 ("c29-place-in-a-byte", "C29", A, [("        for (int idx = 0; idx < argc; ++idx)", "        auto const count = static_cast<std::uint8_t>(argc);\n        for (std::uint8_t idx = 0; idx < count; ++idx)")],
  AG.HEAD + r'''
#include <vector>
int main() {
    std::vector<char const*> argv(300, "word");
    argv[298] = "--count"; argv[299] = "7";
    auto p = argv_parser<opts>::instance({{"--count", &opts::count}, {"-v", &opts::flag}});
    auto o = p->parse(300, argv.data());
    if (o.count != 7) { std::printf("broken: %d\n", o.count); return 1; }
    return 0;
}''', "more than 255 arguments", "those past the first of each 256 are not looked at"),
 ("c12-count-in-a-byte", "C12", O, [("    size_type count_{0};", "    std::uint8_t count_{0};")],
  OB.HDR + r'''
int main() {
    std::vector<S> s(300);
    auto o = std::make_unique<observable<int, true, 300>>();
    for (auto& x : s) CHECK(o->add_observer(x) == observer_errors::ok);
    CHECK(o->notify_observers(1) == observer_errors::ok);
    CHECK(log_.size() == 300);
    return 0;
}''', "a list with room for more than 255 observers, and that many added", "the count wraps round and observers added earlier are overwritten"),
 ("c14-one-flag-for-all", "C14", O, [("    volatile bool inside{};", "    static inline bool inside{};")],
  OB.HDR + r'''
using ob = observable<int, true, 8>;
struct relay : observer<int> { ob* to{}; void data(void const*, int const& v) override { if (to) to->notify_observers(v + 1); } };
int main() {
    ob a, b;
    relay r; S last;
    r.to = &b;
    a.add_observer(r); b.add_observer(last);
    CHECK(a.notify_observers(1) == observer_errors::ok);
    CHECK(log_.size() == 1);
    return 0;
}''', "an observer that publishes on another object of the same type", "the re-entry flag is shared, so that publication is refused"),
 ("c21-slot-of-a-short-position", "C21", S, [(("        auto const i                          = queue_.tail++;", 2), "        std::uint16_t const i                 = queue_.tail++;")],
  T.SH + r'''
int main() {
    alarm(50);
    std::atomic<int> got{0}, last{-1};
    using stage = pipeline_stage<int, void, 5, quiet_log>;
    auto p = std::make_unique<stage>([&](pipeline_stage_exception, int v, mt) { last = v; ++got; });
    int wrong = 0;
    for (int i = 0; i < 66000; ++i) {
        p->push(i);
        for (int k = 0; got <= i && k < 20000000; ++k) {}
        wrong += i >= 65600 && last != i;
    }
    std::printf("%d items of 400 were others\n", wrong); std::fflush(stdout);
    std::_Exit(wrong > 100);
}''', "more than 65536 items through one stage whose buffer length is not a power of two", "an item is put into another slot than the one it is taken from"),
 ("c24-pool-size-in-a-byte", "C24", P, [("    std::size_t        pool_size_{};", "    std::uint8_t       pool_size_{};")],
  T.PH + r'''
int main() {
    alarm(50);
    std::atomic<int> busy{0}; std::atomic<bool> go{false};
    {
        auto p = std::make_unique<pipeline_stage_pool<int, void, 4, 258, quiet_log>>([&](pipeline_stage_exception, int, measure_data) { ++busy; while (!go) std::this_thread::sleep_for(5ms); });
        for (int i = 0; i < 20; ++i) { p->push(i); std::this_thread::sleep_for(20ms); }
        std::this_thread::sleep_for(500ms);
        int const n = busy;
        go = true;
        std::printf("%d\n", n); std::fflush(stdout);
        if (n < 3) std::_Exit(1);
    }
    std::fflush(stdout);
    std::_Exit(0);
}''', "a pool of more than 255 workers", "only the remainder of their number modulo 256 is started and used"),
 ("c24-full-looks-empty", "C24", P, [("            auto const size{item.tail - item.head};", "            auto const size{(item.tail - item.head) % BufferSize};")],
  T.PH + r"""
int main() {
    alarm(30);
    std::atomic<bool> go[2] = {};
    std::atomic<int> begun{0}, done{0};
    {
        pipeline_stage_pool<int, void, 4, 2, quiet_log> p([&](pipeline_stage_exception, int, measure_data m) { ++begun; while (!go[m.id]) std::this_thread::sleep_for(1ms); ++done; });
        for (int i = 0; i < 2; ++i) { p.push(i); std::this_thread::sleep_for(1ms); if (i == 0) while (begun < 1) {} }
        // one item in hand each, now up to four waiting for each
        for (int k = 0; begun < 2 && k < 2000; ++k) { std::this_thread::sleep_for(1ms); if (k % 100 == 99) p.push(9); }
        for (int i = 0; i < 6; ++i) p.push(i);
        go[1] = true;
        std::this_thread::sleep_for(300ms);
        int const before = done;
        p.push(7);
        std::this_thread::sleep_for(300ms);
        int const after = done;
        std::printf("%d %d\n", before, after); std::fflush(stdout);
        if (after != before + 1) std::_Exit(1);
        std::_Exit(0);
    }
}""", "a queue exactly as full as its buffer, and an empty one", "the full queue counts as empty and is given the item"),
 ("c24-no-more-than-cores", "C24", P, [("pool_size_{PoolSize}", "pool_size_{std::min<std::size_t>(PoolSize, std::max(1u, std::thread::hardware_concurrency()))}")],
  T.PH + r"""
int main() {
    alarm(50);
    constexpr int n = 100;
    std::atomic<int> done{0};
    if (std::thread::hardware_concurrency() >= n) return 0;
    auto p = std::make_unique<pipeline_stage_pool<int, void, 4, n, quiet_log>>([&](pipeline_stage_exception, int, measure_data) { std::this_thread::sleep_for(1ms); ++done; });
    // every queue is given an item: all of them come out
    for (int i = 0; i < 2000; ++i) p->push(i);
    std::this_thread::sleep_for(3000ms);
    std::atomic<int> seen{0};
    std::printf("%d\n", done.load()); std::fflush(stdout);
    std::_Exit(done < 300 ? 1 : 0);
}""", "a pool of more workers than the machine has processors", "queues without a worker are given items that nobody hands on"),
 ("c32-length-in-a-byte", "C32", "func/data.hpp", [("        std::copy(tt.pure.begin(), tt.pure.end(), begin);", "        std::copy(tt.pure.begin(), tt.pure.begin() + static_cast<std::uint8_t>(sizeof(fields)), begin);")],
  r"""
#include <array>
#include <cstdio>
#include <xitren/func/data.hpp>
struct page { std::uint8_t b[512]; };
int main() {
    std::array<std::uint8_t, 512> in{};
    for (int i = 0; i < 512; ++i) in[i] = static_cast<std::uint8_t>(i * 7 + 1);
    page p;
    for (int i = 0; i < 512; ++i) p.b[i] = in[i];
    std::array<std::uint8_t, 512> out{};
    xitren::func::data<page>::serialize(p, out.begin());
    for (int i = 0; i < 512; ++i)
        if (out[i] != in[i]) { std::printf("byte %d lost\n", i); return 1; }
    return 0;
}""", "an object of more than 255 bytes", "only its length modulo 256 is written"),
 ("c10-names-cut-short", "C10", "comm/mediator.hpp", [("id_(std::hash<std::string>{}(id))", "id_(std::hash<std::string>{}(id.substr(0, 24)))")],
  r"""
#include <cstdio>
#include <xitren/comm/mediator.hpp>
using namespace xitren::comm;
struct base_probe : base::module {
    int got{};
    explicit base_probe(char const* n) : base::module(n) {}
    void receive(std::size_t, std::uint8_t*, std::size_t) override { ++got; }
    void send(std::uint8_t*, std::size_t) override {}
};
int main() {
    base_probe a("subsystem/measurements/temperature/left"), b("subsystem/measurements/temperature/right");
    manager<4> m;
    m.add_module(a);
    m.add_module(b);
    std::uint8_t x = 5;
    static_cast<base::manager&>(m).distribute(a, &x, 1);
    std::printf("%d %d\n", a.got, b.got);
    return a.got == 0 && b.got == 1 ? 0 : 1;
}""", "two modules whose names begin with the same 24 characters", "they share one identity, so neither hears the other"),
]
