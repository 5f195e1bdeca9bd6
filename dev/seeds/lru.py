HDR = r'''
#include <chrono>
#include <cstdio>
#include <string>
#include <thread>
#include <xitren/cache/lru.hpp>
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); return 1; } } while (0)
using namespace xitren::cache;
using namespace std::chrono_literals;
'''
L = "cache/lru.hpp"
SEEDS = [
 ("c07-keeps-last-one", "C07", L, [("                list_.pop_back();", "                if (list_.size() > 1)\n                    list_.pop_back();")],
  HDR + r'''
int main() {
    lru<int, int, 1, false> c(1h);
    c.put(1, 1); c.put(2, 2); c.put(1, 3);
    CHECK(c.get(1).has_value());
    CHECK(!c.get(2).has_value());
    return 0;
}''', "a cache of capacity one", "the only entry is not evicted from the recency list, so two are held later"),
 ("c07-evicts-one-late", "C07", L, [("            if (list_.size() >= Size) {", "            if (list_.size() > Size) {")],
  HDR + r'''
int main() {
    lru<std::string, int, 3, false> c(1h);
    c.put("a", 1); c.put("b", 2); c.put("c", 3); c.put("d", 4);
    CHECK(!c.get("a").has_value());
    return 0;
}''', "inserting one key more than the capacity", "the cache holds one entry more than its capacity"),
 ("c08-coarse-clock", "C08", L, [("        return std::chrono::system_clock::now();", "        return std::chrono::floor<std::chrono::seconds>(std::chrono::system_clock::now());")],
  HDR + r'''
int main() {
    lru<int, int, 3, false> c(100ms);
    while (std::chrono::system_clock::now().time_since_epoch() % 1s > 50ms) std::this_thread::sleep_for(5ms);
    c.put(1, 1);
    std::this_thread::sleep_for(300ms);
    CHECK(!c.get(1).has_value());
    return 0;
}''', "a lifetime below a second and a lookup after it within the same second", "entry ages are measured in whole seconds, so an expired entry is returned"),
 ("c08-lone-entry-no-timeout", "C08", L, [("                if constexpr (Exception) {\n                    throw cache_timeout();", "                if (Exception && list_.size() > 1) {\n                    throw cache_timeout();")],
  HDR + r'''
int main() {
    lru<int, int, 3, true> c(20ms);
    c.put(1, 1);
    std::this_thread::sleep_for(60ms);
    bool raised = false;
    try { c.get(1); } catch (cache_timeout const&) { raised = true; }
    CHECK(raised);
    return 0;
}''', "an expired entry that is the only one", "an empty result instead of the timeout error"),
]
