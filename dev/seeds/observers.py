HDR = r'''
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
#include <cstdio>
#include <memory>
#include <vector>
using namespace xitren::comm;
static std::vector<int> log_;
struct S : observer<int> { int id; int disc = 0; const void* src = nullptr; explicit S(int i = 0) : id(i) {}
    void disconnect(void const*) override { disc++; }
    void data(void const* s, int const&) override { src = s; log_.push_back(id); } };
#define CHECK(x) do { if (!(x)) { std::puts("FAILED: " #x); return 1; } } while (0)
'''
SEEDS = [
 ("c12-full-off-by-one", "C12", "comm/values/observable.hpp",
  [("""        if (count_ >= max_observers) [[unlikely]]
            return observer_errors::list_is_full;""", """        if (count_ > max_observers) [[unlikely]]
            return observer_errors::list_is_full;""")],
  HDR + r'''
struct V : values::observed<int> { };
int main() {
    struct box { values::observable<int, 3> o; long pad[4] = {0,0,0,0}; };
    auto b = std::make_unique<box>();
    V v[4];
    for (int i = 0; i < 3; i++) CHECK(b->o.add_observer(v[i]) == observer_errors::ok);
    CHECK(b->o.add_observer(v[3]) == observer_errors::list_is_full);
    return 0;
}''', "one registration more than the bounded value registry has room for", "the registration is accepted and written past the registry's storage"),
 ("c12-dup-newest", "C12", "comm/observer.hpp",
  [("""        for (auto& item : std::views::counted(observers_.begin(), count_)) {
            if (item == &observer) [[unlikely]]""", """        for (auto& item : std::views::counted(observers_.begin(), count_ > 2 ? count_ - 1 : count_)) {
            if (item == &observer) [[unlikely]]""")],
  HDR + r'''
int main() {
    observable_static<int, 8> o; S a(1), b(2), c(3);
    CHECK(o.add_observer(a) == observer_errors::ok); CHECK(o.add_observer(b) == observer_errors::ok); CHECK(o.add_observer(c) == observer_errors::ok);
    CHECK(o.add_observer(c) == observer_errors::already_contains);
    o.notify_observers(1); CHECK(log_.size() == 3);
    return 0;
}''', "registering the newest of three or more observers a second time", "a duplicate registration is accepted, so the observer is notified twice"),
 ("c13-unstable-remove", "C13", "comm/observer.hpp",
  [("auto it = std::remove(observers_.begin(), observers_.begin() + count_, &observer);",
    """auto it = std::partition(observers_.begin(), observers_.begin() + count_,
                                 [&](auto const* item) { return item != &observer; });""")],
  HDR + r'''
int main() {
    observable_static<int, 8> o; S s[5] = {S(0), S(1), S(2), S(3), S(4)};
    for (auto& x : s) CHECK(o.add_observer(x) == observer_errors::ok);
    CHECK(o.remove_observer(s[1]) == observer_errors::ok);
    o.notify_observers(1);
    CHECK((log_ == std::vector<int>{0, 2, 3, 4}));
    return 0;
}''', "removing an observer that is followed by at least two others", "the last observer takes the place of the removed one, so the order of the rest changes"),
 ("c13-dynamic-swap-pop", "C13", "comm/observer.hpp",
  [("""        if (!std::erase(observers_, &observer)) {
            throw exception{observer_errors::not_found};
        }""", """        auto const it = std::find(observers_.begin(), observers_.end(), &observer);
        if (it == observers_.end()) {
            throw exception{observer_errors::not_found};
        }
        *it = observers_.back();
        observers_.pop_back();""")],
  HDR + r'''
int main() {
    observable<int, false, 0> o; S s[5] = {S(0), S(1), S(2), S(3), S(4)};
    for (auto& x : s) o.add_observer(x);
    o.remove_observer(s[1]);
    o.notify_observers(1);
    CHECK((log_ == std::vector<int>{0, 2, 3, 4}));
    return 0;
}''', "removing an observer that is not among the last two of an unbounded registry", "the newest observer jumps into the removed one's place, changing the notification order"),
 ("c14-cap-batch", "C14", "comm/observer.hpp",
  [("""        inside = true;
        for (auto& item : std::views::counted(observers_.begin(), count_)) {""", """        inside = true;
        for (auto& item : std::views::counted(observers_.begin(), std::min<size_type>(count_, 16))) {""")],
  HDR + r'''
int main() {
    std::vector<std::unique_ptr<S>> s; observable_static<int, 32> o;
    for (int i = 0; i < 20; i++) { s.push_back(std::make_unique<S>(i)); CHECK(o.add_observer(*s.back()) == observer_errors::ok); }
    o.notify_observers(1);
    CHECK(log_.size() == 20);
    return 0;
}''', "more than 16 observers registered with one bounded subject", "the observers past the sixteenth are never notified although success is reported"),
 ("c14-values-skip-src", "C14", "comm/observer.hpp",
  [("""        for (auto& item : observers_) {
            item->notification(static_cast<void*>(this), n);
        }""", """        for (auto& item : observers_) {
            item->notification(static_cast<void*>(observers_.data()), n);
        }""")],
  HDR + r'''
int main() {
    observable<int, false, 0> o; S a(1);
    o.add_observer(a); o.notify_observers(5);
    CHECK(a.src == &o);
    return 0;
}''', "an observer of an unbounded subject that looks at the source it is given", "observers are told that the notification comes from some internal array instead of the subject"),
 ("c15-empty-return", "C15", "comm/observer.hpp",
  [("""        inside = true;
        for (auto& item""", """        inside = true;
        if (count_ == 0) [[unlikely]]
            return observer_errors::ok;
        for (auto& item""")],
  HDR + r'''
int main() {
    observable_static<int, 4> o; S a(1);
    CHECK(o.notify_observers(1) == observer_errors::ok);
    CHECK(o.add_observer(a) == observer_errors::ok);
    CHECK(o.notify_observers(2) == observer_errors::ok);
    CHECK(log_.size() == 1);
    return 0;
}''', "a notification while nobody is registered, followed by a registration and another notification", "the recursion guard stays up for ever, so every later notification is refused"),
 ("c15-guard-after-first", "C15", "comm/observer.hpp",
  [("""        inside = true;
        for (auto& item : std::views::counted(observers_.begin(), count_)) {
            item->notification(static_cast<void*>(this), n);
        }""", """        for (auto& item : std::views::counted(observers_.begin(), count_)) {
            item->notification(static_cast<void*>(this), n);
            inside = true;
        }""")],
  HDR + r'''
observable_static<int, 4>* subj; int depth = 0, deep = 0; observer_errors last = observer_errors::ok;
struct R : observer<int> { void disconnect(void const*) override {} void data(void const*, int const&) override {
    depth++; if (depth > deep) deep = depth; if (depth < 3) last = subj->notify_observers(2); depth--; } };
int main() {
    observable_static<int, 4> o; subj = &o; R r;
    o.add_observer(r); o.notify_observers(1);
    CHECK(deep == 1); CHECK(last == observer_errors::notify_recursion_detected);
    return 0;
}''', "the first registered observer notifies the same subject from inside its callback", "the nested notification is delivered instead of being refused"),
 ("c16-dynamic-dtor", "C16", "comm/observer.hpp",
  [("""    /**
     * @brief Destructor
     */
    virtual ~observable() noexcept { clear_observers(); }""", """    /**
     * @brief Destructor
     */
    virtual ~observable() noexcept { observers_.clear(); }""")],
  HDR + r'''
int main() {
    S a(1), b(2);
    { observable<int, false, 0> o; o.add_observer(a); o.add_observer(b); }
    CHECK(a.disc == 1 && b.disc == 1);
    return 0;
}''', "destroying an unbounded subject that still has observers", "its observers are never told that they are disconnected"),
 ("c16-values-clear-count", "C16", "comm/values/observable.hpp",
  [("""        for (auto& item : std::views::counted(observers_.begin(), count_)) {
            item->disconnect(static_cast<void*>(this));
        }
        count_ = 0;""", """        while (count_ > 1) {
            observers_[--count_]->disconnect(static_cast<void*>(this));
        }
        count_ = 0;""")],
  HDR + r'''
struct V : values::observed<int> { int disc = 0; void disconnect(void const*) override { disc++; } };
int main() {
    values::observable<int, 4> o; V a, b;
    o.add_observer(a); o.add_observer(b);
    o.clear_observers();
    CHECK(a.disc == 1 && b.disc == 1);
    return 0;
}''', "clearing a bounded value registry with an observer that is the first registered one", "the oldest observer is dropped without being told"),
]
