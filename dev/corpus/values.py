F = "comm/values/observable.hpp"
G = "comm/values/observed.hpp"
PROPS = ["C19", "C20"]
def op(sig, cv=""): return f"    {sig}{cv} noexcept\n    {{\n"
PI = "    operator++(int) noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_add(1);\n        notify_observers(ret + 1);\n        return ret;\n"
PD = "    operator--(int) noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_sub(1);\n        notify_observers(ret - 1);\n        return ret;\n"
II = "    operator++() noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_add(1) + 1;\n        notify_observers(ret);\n        return ret;\n"
DD = "    operator--() noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;\n        notify_observers(ret);\n        return ret;\n"
AD = "    operator+=(int op) noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_add(op) + op;\n        notify_observers(ret);\n        return ret;\n"
SU = "    operator-=(int op) noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;\n        notify_observers(ret);\n        return ret;\n"
ST = "    operator=(observable_type op) noexcept\n    {\n        std::atomic<observable_type>::store(op);\n        notify_observers(op);\n        return op;\n"
def b(i, old, a, new, n=1, f=F, p=("C19",)): return ("bad", i, list(p), f, [((old, n), old.replace(a, new))])
def g(i, old, a, new, n=1, f=F): return ("good", i, None, f, [((old, n), old.replace(a, new))])
OD = "        std::atomic<T>::store(nd);\n        if (function_) {\n            function_(nd);\n        }\n"
OU = "        function_ = function;\n"
CASES = [
 b("vo-postinc-publish-old", PI, "notify_observers(ret + 1)", "notify_observers(ret)"),
 b("vo-postinc-returns-new", PI, "return ret;", "return ret + 1;", 2),
 b("vo-postdec-adds", PD, "fetch_sub(1)", "fetch_add(1)"),
 b("vo-preinc-load-store", II, "std::atomic<observable_type>::fetch_add(1) + 1;", "static_cast<observable_type>(std::atomic<observable_type>::load() + 1);\n        std::atomic<observable_type>::store(ret);"),
 b("vo-predec-reload", DD, "std::atomic<observable_type>::fetch_sub(1) - 1;\n", "(std::atomic<observable_type>::fetch_sub(1), std::atomic<observable_type>::load());\n"),
 b("vo-preinc-publish-reload", II, "notify_observers(ret)", "notify_observers(std::atomic<observable_type>::load())"),
 b("vo-add-publish-delta", AD, "notify_observers(ret)", "notify_observers(op)"),
 b("vo-add-skip-zero", AD, "notify_observers(ret);", "if (op > 0) notify_observers(ret);"),
 b("vo-sub-negate", SU, "fetch_sub(op) - op", "fetch_sub(op) + op"),
 b("vo-sub-twice", SU, "notify_observers(ret);", "notify_observers(ret);\n        if (op == 7) notify_observers(ret);", 2),
 b("vo-set-publish-first", ST, "        std::atomic<observable_type>::store(op);\n        notify_observers(op);\n", "        notify_observers(op);\n        std::atomic<observable_type>::store(op);\n"),
 b("vo-set-skip-same", ST, "notify_observers(op);", "if (std::atomic<observable_type>::exchange(op) != op) notify_observers(op);"),
 b("vo-set-return-old", ST, "        std::atomic<observable_type>::store(op);\n        notify_observers(op);\n        return op;", "        auto const r = std::atomic<observable_type>::exchange(op);\n        notify_observers(op);\n        return r;", 2),
 b("vo-add-saturate", AD, "::fetch_add(op) + op;", "::fetch_add(op < 1000 ? op : 1000) + op;"),
 b("vo-add-narrow", AD, "::fetch_add(op) + op;", "::fetch_add(static_cast<signed char>(op)) + op;"),
 b("vo-set-no-publish-dyn", ST, "notify_observers(op);", "", 2),
 g("vo-set-xchg", ST, "std::atomic<observable_type>::store(op);", "std::atomic<observable_type>::exchange(op);"),
 g("vo-inc-via-pre", PI, "fetch_add(1);", "operator++(0);"),
 g("vo-inc-via-pre2", II, "std::atomic<observable_type>::fetch_add(1) + 1", "std::atomic<observable_type>::operator++()"),
 g("vo-add-op", AD, "std::atomic<observable_type>::fetch_add(op) + op", "std::atomic<observable_type>::operator+=(op)"),
 g("vo-sub-via-add", SU, "fetch_sub(op) - op", "fetch_add(-op) - op"),
 g("vo-locals", PI, "notify_observers(ret + 1);", "observable_type const next = ret + 1;\n        notify_observers(next);"),
 g("vo-relaxed", PI, "fetch_add(1)", "fetch_add(1, std::memory_order_acq_rel)"),
 # ---- observed
 b("ov-callback-first", OD, OD, "        if (function_) {\n            function_(nd);\n        }\n        std::atomic<T>::store(nd);\n", f=G, p=["C20"]),
 b("ov-only-if-changed", OD, "if (function_)", "if (std::atomic<T>::load() != nd && function_)", f=G, p=["C20"]),
 b("ov-changed-skip", OD, "        std::atomic<T>::store(nd);\n        if (function_) {", "        if (std::atomic<T>::exchange(nd) != nd && function_) {", f=G, p=["C20"]),
 b("ov-no-store-nocb", OD, OD, "        if (function_) {\n            std::atomic<T>::store(nd);\n            function_(nd);\n        }\n", f=G, p=["C20"]),
 b("ov-reload", OD, "function_(nd);", "function_(std::atomic<T>::load());", f=G, p=["C20"]),
 b("ov-old-value", OD, OD, "        T const old = std::atomic<T>::exchange(nd);\n        if (function_) {\n            function_(old);\n        }\n", f=G, p=["C20"]),
 b("ov-twice", OD, "function_(nd);", "function_(nd);\n            if (nd == T{}) function_(nd);", f=G, p=["C20"]),
 b("ov-no-check", OD, "        if (function_) {\n            function_(nd);\n        }\n", "        function_(nd);\n", f=G, p=["C20"]),
 b("ov-set-once", OU, OU, "        if (!function_) function_ = function;\n", f=G, p=["C20"]),
 b("ov-set-swap-noop", OU, OU, "        function_type copy{function_};\n        copy.swap(function);\n", f=G, p=["C20"]),
 b("ov-set-nonempty-only", OU, OU, "        if (function) function_ = function;\n", f=G, p=["C20"]),
 b("ov-ctor-drops", "function_{std::move(function)} {};", "function_{std::move(function)}", "function_{}", f=G, p=["C20"]),
 g("ov-move", OU, OU, "        function_ = std::move(function);\n", f=G),
 g("ov-swap", OU, OU, "        function_.swap(function);\n", f=G),
 g("ov-neq", OD, "if (function_)", "if (function_ != nullptr)", f=G),
 g("ov-xchg", OD, "store(nd)", "exchange(nd)", f=G),
 g("ov-early", OD, "        if (function_) {\n            function_(nd);\n        }\n", "        if (!function_)\n            return;\n        T const v = nd;\n        function_(v);\n", f=G),
]
