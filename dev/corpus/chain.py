F = "comm/observer_static.hpp"
PROPS = ["C17"]
N = "        obs_.notification(root, data);\n        return next_.notify(data);"
L = "        obs_.notification(root, data);\n    }\n};\n\n}"
R = "    observable_impl<D>& root;\n"
I = "next_(std::forward<Observers&>(obs)...), obs_{rel}, root{next_.root} {};"
CASES = [
 ("bad", "ch-order", ["C17"], F, [(N, "        next_.notify(data);\n        obs_.notification(root, data);")]),
 ("bad", "ch-skip-next", ["C17"], F, [(N, "        obs_.notification(root, data);\n        if constexpr (sizeof...(Observers) > 1) next_.notify(data);")]),
 ("bad", "ch-skip-own", ["C17"], F, [(N, "        if constexpr (sizeof...(Observers) < 4) obs_.notification(root, data);\n        return next_.notify(data);")]),
 ("bad", "ch-twice", ["C17"], F, [(N, "        obs_.notification(root, data);\n        if (static_cast<void*>(&obs_) != static_cast<void*>(this)) obs_.notification(root, data);\n        return next_.notify(data);")]),
 ("bad", "ch-own-root", ["C17"], F, [(R, "    observable_impl<D> root{};\n"), (I, I.replace("root{next_.root}", "root{}"))]),
 ("bad", "ch-temp-src", ["C17"], F, [(N, N.replace("notification(root", "notification(observable_impl<D>{}"))]),
 ("bad", "ch-default-data", ["C17"], F, [(N, N.replace("(root, data)", "(root, D{})"))]),
 ("bad", "ch-copy-dangling-next", ["C17"], F, [(N, "        obs_.notification(root, data);\n        return next_.notify(D{});")]),
 ("bad", "ch-null-src", ["C17"], F, [(L, L.replace("notification(root", "notification(*static_cast<observable_impl<D>*>(nullptr)"))]),
 ("good", "ch-fold", None, F, [(N, "        obs_.notification(root, data);\n        next_.notify(data);")]),
 ("good", "ch-copy", None, F, [(N, "        D const copy = data;\n        obs_.notification(root, copy);\n        next_.notify(copy);")]),
 ("good", "ch-direct", None, F, [(N, N.replace("obs_.notification", "static_cast<Observer&>(obs_).notification"))]),
 ("good", "ch-ptr", None, F, [("    next_type next_;\n    Observer& obs_;", "    next_type next_;\n    Observer* obs_;"), (I, I.replace("obs_{rel}", "obs_{&rel}")), (N, N.replace("obs_.", "obs_->"))]),
]
