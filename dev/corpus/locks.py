O = "comm/observer.hpp"
L = "cache/lru.hpp"
PROPS = ["C18"]
G = "#ifdef PTHREAD_MUTEX_DEFAULT\n        std::unique_lock<std::mutex> lock(access_);\n#endif\n"
ADD = G + "        if (!contains(observer)) [[likely]] {\n            observers_.push_back"
REM = G + "        if (!std::erase"
CLR = G + "        for (auto& item : observers_) {\n            item->disconnect(static_cast<void*>(this));\n        }\n"
NOT = G + "        for (auto& item : observers_) {\n            item->notification(static_cast<void*>(this), n);\n        }\n"
def b(i, f, o, n): return ("bad", i, ["C18"], f, [(o, n)])
def g(i, f, *s): return ("good", i, None, f, list(s))
GF = "        std::unique_lock<std::mutex> lock(access_);\n"
PUT = G + "        auto it = map_.find(key);\n        if (it != map_.end()) {\n            *"
GET = G + "        auto it = map_.find(key);\n        if (it != map_.end()) {\n            if"
CASES = [
 b("lk-add-none", O, ADD, ADD.replace(G, "")),
 b("lk-add-check-first", O, ADD, "        if (contains(observer)) throw exception{observer_errors::already_contains};\n" + ADD),
 b("lk-add-typo", O, ADD, ADD.replace("PTHREAD_MUTEX_DEFAULT", "PTHREAD_MUTEX_DEFAULTS")),
 b("lk-add-temp", O, ADD, ADD.replace("lock(access_)", "(access_)".replace("(access_)", "{access_}"))),
 b("lk-defer", O, ADD, ADD.replace("lock(access_)", "lock(access_, std::defer_lock)")),
 b("lk-try", O, NOT, NOT.replace("lock(access_)", "lock(access_, std::try_to_lock)")),
 b("lk-local-mutex", O, NOT, NOT.replace("        std::unique_lock", "        std::mutex access_;\n        std::unique_lock")),
 g("lk-manual-noexcept", O, (NOT, "        access_.lock();\n".join(["#ifdef PTHREAD_MUTEX_DEFAULT\n", "#endif\n"]) + NOT[len(G):] + "#ifdef PTHREAD_MUTEX_DEFAULT\n        access_.unlock();\n#endif\n")),
 b("lk-manual-throw", O, REM, "#ifdef PTHREAD_MUTEX_DEFAULT\n        access_.lock();\n#endif\n" + REM[len(G):]),
 b("lk-early-unlock", O, CLR, CLR + "#ifdef PTHREAD_MUTEX_DEFAULT\n        lock.unlock();\n#endif\n"),
 b("lk-release", O, CLR, CLR + "#ifdef PTHREAD_MUTEX_DEFAULT\n        lock.release();\n#endif\n"),
 b("lk-notify-unlock-in-loop", O, NOT, NOT.replace("            item->", "#ifdef PTHREAD_MUTEX_DEFAULT\n            lock.unlock();\n#endif\n            item->").replace("n);\n        }", "n);\n#ifdef PTHREAD_MUTEX_DEFAULT\n            if (&item != &observers_.front()) lock.lock();\n#endif\n        }")),
 b("lk-double", O, ADD, ADD.replace("        if (!contains", "        { std::unique_lock<std::mutex> again(access_); }\n        if (!contains")),
 b("lk-empty-check", O, NOT, "        if (observers_.empty()) return;\n" + NOT),
 b("lk-lru-find-first", L, PUT, "        auto it = map_.find(key);\n" + G + "        if (it != map_.end()) {\n            *"),
 b("lk-lru-get-none", L, GET, GET[len(G):]),
 b("lk-lru-get-scope", L, GET, "        auto it = [&] {\n" + G + "        return map_.find(key); }();\n        if (it != map_.end()) {\n            if"),
 b("lk-lru-size-peek", L, PUT, "        if (list_.size() > Size) return;\n" + PUT),
 g("lk-guard", O, (GF, GF.replace("unique_lock", "lock_guard"))),
 g("lk-scoped", O, (ADD, ADD.replace("unique_lock<std::mutex>", "scoped_lock"))),
 g("lk-lru-guard", L, (PUT, PUT.replace("unique_lock", "lock_guard"))),
 g("lk-unlock-late", O, (NOT, NOT + "#ifdef PTHREAD_MUTEX_DEFAULT\n        lock.unlock();\n#endif\n")),
 g("lk-copy-out", O, (NOT, G + "        observer_list const snapshot{observers_};\n        for (auto& item : snapshot) {\n            item->notification(static_cast<void*>(this), n);\n        }\n")),
 g("lk-helper", L, (GET, "#ifdef PTHREAD_MUTEX_DEFAULT\n        auto const lock = hold();\n#endif\n" + GET[len(G):]), ("private:\n", "private:\n#ifdef PTHREAD_MUTEX_DEFAULT\n    std::unique_lock<std::mutex> hold() { return std::unique_lock<std::mutex>(access_); }\n#endif\n")),
 g("lk-manual-good", O, (CLR, "#ifdef PTHREAD_MUTEX_DEFAULT\n        access_.lock();\n#endif\n        try {\n" + CLR[len(G):] + "        } catch (...) {\n#ifdef PTHREAD_MUTEX_DEFAULT\n        access_.unlock();\n#endif\n        throw;\n        }\n#ifdef PTHREAD_MUTEX_DEFAULT\n        access_.unlock();\n#endif\n#ifdef PTHREAD_MUTEX_DEFAULT\n        access_.lock();\n#endif\n        observers_.clear();\n#ifdef PTHREAD_MUTEX_DEFAULT\n        access_.unlock();\n#endif\n        return;\n")),
 g("lk-recursive", O, ("std::mutex access_{};", "std::recursive_mutex access_{};"), ((GF, 0), GF.replace("std::mutex", "std::recursive_mutex"))),
]
