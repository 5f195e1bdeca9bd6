HDR = r'''
#include <array>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdint>
#include <list>
#include <mutex>
#include <optional>
#include <ranges>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>
#include <functional>
#define private public
#include <xitren/comm/observer.hpp>
#include <xitren/cache/lru.hpp>
#undef private
inline bool taken(std::mutex& m) {
    bool free = false;
    std::thread t([&] { if (m.try_lock()) { free = true; m.unlock(); } });
    t.join();
    return !free;
}
inline std::mutex* watched = nullptr;
inline int unguarded = 0;
struct Key { int k; bool operator==(Key const& o) const { return k == o.k; } };
template <> struct std::hash<Key> { std::size_t operator()(Key const& k) const { if (watched && !taken(*watched)) unguarded++; return k.k; } };
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); return 1; } } while (0)
'''
FL = "-pthread -DPTHREAD_MUTEX_DEFAULT=PTHREAD_MUTEX_DEFAULT"
O, L = "comm/observer.hpp", "cache/lru.hpp"
SEEDS = [
 ("c18-temporary-guard", "C18", O, [("        std::unique_lock<std::mutex> lock(access_);\n#endif\n        for (auto& item : observers_) {\n            item->notification", "        std::unique_lock<std::mutex>{access_};\n#endif\n        for (auto& item : observers_) {\n            item->notification")],
  HDR + r'''
namespace xc = xitren::comm;
struct S : xc::observer<int> {
    std::mutex* m{}; int bad = 0;
    void data(void const*, int const&) override { if (!taken(*m)) bad++; }
    void disconnect(void const*) override {}
};
int main() {
    xc::observable<int, false, 0> o; S s; s.m = &o.access_;
    o.add_observer(s); o.notify_observers(3);
    CHECK(s.bad == 0);
    return 0;
}''', "the configuration with locks, and another thread changing the registry during a notification", "the guard is a temporary that unlocks at once", FL),
 ("c18-try-to-lock", "C18", L, [("    get(Key key)\n    {\n#ifdef PTHREAD_MUTEX_DEFAULT\n        std::unique_lock<std::mutex> lock(access_);", "    get(Key key)\n    {\n#ifdef PTHREAD_MUTEX_DEFAULT\n        std::unique_lock<std::mutex> lock(access_, std::try_to_lock);")],
  HDR + r"""
#include <future>
int main() {
    xitren::cache::lru<Key, int, 4> c(std::chrono::hours(1));
    c.put(Key{1}, 5);
    c.access_.lock();
    auto f = std::async(std::launch::async, [&] { c.get(Key{1}); });
    bool waits = f.wait_for(std::chrono::milliseconds(500)) == std::future_status::timeout;
    c.access_.unlock();
    f.get();
    CHECK(waits);
    return 0;
}""", "the configuration with locks, and a get while another thread is inside a put", "get goes on without the mutex when it is taken", FL),
]
