L = "cache/lru.hpp"
PROPS = ["C07", "C08", "C18"]
HIT = "            *(it->second) = data_item{key, value, get_time()};\n            list_.splice(list_.begin(), list_, it->second);\n"
EV = "            if (list_.size() >= Size) {\n                map_.erase(std::get<0>(list_.back()));\n                list_.pop_back();\n            }\n"
NEW = "            double_linked_list fresh{};\n            fresh.push_front(data_item{key, value, get_time()});\n            map_[key] = fresh.begin();\n            list_.splice(list_.begin(), fresh);\n"
AGE = "            if ((get_time() - std::get<2>(*(it->second))) >= expired_after_) {\n"
EXP = "                if constexpr (Exception) {\n                    throw cache_timeout();\n                }\n                return std::nullopt;\n"
RET = "            list_.splice(list_.begin(), list_, it->second);\n            return *(it->second);\n        } else {\n            return std::nullopt;\n"
def b(p, i, o, n): return ("bad", i, [p], L, [(o, n)])
def g(i, *s): return ("good", i, None, L, list(s))
CASES = [
 b("C07", "lr-gt", EV, EV.replace(">= Size", "> Size")),
 b("C07", "lr-evict-front", EV, EV.replace("pop_back", "pop_front")),
 b("C07", "lr-evict-both-front", EV, EV.replace("back()", "front()").replace("pop_back", "pop_front")),
 b("C07", "lr-evict-key", EV, EV.replace("map_.erase(std::get<0>(list_.back()));\n", "map_.erase(key);\n")),
 b("C07", "lr-no-map-erase", EV, EV.replace("                map_.erase(std::get<0>(list_.back()));\n", "")),
 b("C07", "lr-no-pop", EV, EV.replace("                list_.pop_back();\n", "")),
 b("C07", "lr-pop-first", EV, "            if (list_.size() >= Size) {\n                list_.pop_back();\n                map_.erase(std::get<0>(list_.back()));\n            }\n"),
 b("C07", "lr-evict-early", EV, EV.replace(">= Size", ">= Size - 1") .replace("Size - 1", "(Size > 1 ? Size - 1 : 1)")),
 b("C07", "lr-no-evict", EV, ""),
 b("C07", "lr-push-back", NEW, "            list_.push_back(data_item{key, value, get_time()});\n            map_[key] = std::prev(list_.end());\n"),
 b("C07", "lr-map-first-elem", NEW, NEW.replace("map_[key] = fresh.begin()", "map_[key] = list_.begin()")),
 b("C07", "lr-unsafe-order", NEW, "            list_.push_front(data_item{key, value, get_time()});\n            map_[key] = list_.begin();\n"),
 b("C07", "lr-hit-no-move", HIT, "            *(it->second) = data_item{key, value, get_time()};\n"),
 b("C07", "lr-hit-push", HIT, "            list_.push_front(data_item{key, value, get_time()});\n            it->second = list_.begin();\n"),
 b("C07", "lr-hit-erase-map", HIT, "            list_.erase(it->second);\n            list_.push_front(data_item{key, value, get_time()});\n"),
 b("C07", "lr-hit-evicts", HIT, HIT + "            if (list_.size() >= Size && Size > 2) {\n                map_.erase(std::get<0>(list_.back()));\n                list_.pop_back();\n            }\n"),
 b("C07", "lr-size-from-map-late", NEW, NEW + "            if (map_.size() > Size + 1) {\n                map_.erase(std::get<0>(list_.back()));\n                list_.pop_back();\n            }\n") if False else b("C07", "lr-evict-only-map", EV, EV.replace("list_.size() >= Size", "map_.size() > Size")),
 b("C08", "lr-age-gt", AGE, AGE.replace(">= expired", "> expired")),
 b("C08", "lr-age-swapped", AGE, "            if ((std::get<2>(*(it->second)) - get_time()) >= expired_after_) {\n"),
 b("C08", "lr-age-half", AGE, AGE.replace("expired_after_)", "expired_after_ / 2)")),
 b("C08", "lr-no-age", AGE, "            if (false) {\n"),
 b("C08", "lr-exc-inverted", EXP, EXP.replace("constexpr (Exception)", "constexpr (!Exception)")),
 b("C08", "lr-never-throws", EXP, "                return std::nullopt;\n"),
 b("C08", "lr-miss-throws", RET, RET.replace("            return std::nullopt;\n", "            if constexpr (Exception) throw cache_timeout();\n            return std::nullopt;\n")),
 b("C08", "lr-get-no-move", RET, RET.replace("            list_.splice(list_.begin(), list_, it->second);\n", "")),
 b("C08", "lr-get-to-end", RET, RET.replace("splice(list_.begin()", "splice(list_.end()")),
 b("C08", "lr-get-front-before", RET, "            auto const r = list_.front();\n            list_.splice(list_.begin(), list_, it->second);\n            return r;\n        } else {\n            return std::nullopt;\n"),
 b("C08", "lr-get-refreshes", RET, RET.replace("            return *(it", "            std::get<2>(*(it->second)) = get_time();\n            return *(it")),
 b("C08", "lr-put-hit-keeps-time", HIT, HIT.replace("*(it->second) = data_item{key, value, get_time()};", "std::get<1>(*(it->second)) = value;")),
 b("C08", "lr-put-hit-keeps-value", HIT, HIT.replace("*(it->second) = data_item{key, value, get_time()};", "std::get<2>(*(it->second)) = get_time();")),
 b("C08", "lr-put-epoch", NEW, NEW.replace("get_time()", "timestamp{}")),
 b("C08", "lr-put-future", NEW, NEW.replace("get_time()", "get_time() + expired_after_")),
 b("C08", "lr-put-default-value", NEW, NEW.replace("key, value,", "key, Value{},")),
 b("C08", "lr-ctor-double", "expired_after_{expired} {}", "expired_after_{expired + expired} {}"),
 b("C08", "lr-time-trunc", "return std::chrono::system_clock::now();", "return std::chrono::time_point_cast<duration>(std::chrono::floor<std::chrono::seconds>(std::chrono::system_clock::now()));"),
 g("lr-emplace", (NEW, NEW.replace("fresh.push_front(data_item{key, value, get_time()});", "fresh.emplace_front(key, value, get_time());"))),
 g("lr-map-emplace", (NEW, NEW.replace("map_[key] = fresh.begin();", "map_.emplace(key, fresh.begin());"))),
 g("lr-map-ioa", (NEW, NEW.replace("map_[key] = fresh.begin();", "map_.insert_or_assign(key, fresh.begin());"))),
 g("lr-map-insert", (NEW, NEW.replace("map_[key] = fresh.begin();", "map_.insert({key, fresh.begin()});"))),
 g("lr-contains", ("        auto it = map_.find(key);\n        if (it != map_.end()) {\n            if", "        if (map_.contains(key)) {\n            auto it = map_.find(key);\n            if")),
 g("lr-early-miss", ("        auto it = map_.find(key);\n        if (it != map_.end()) {\n            if", "        auto it = map_.find(key);\n        if (it == map_.end()) return std::nullopt;\n        {\n            if"), ("            return *(it->second);\n        } else {\n            return std::nullopt;\n        }\n", "            return *(it->second);\n        }\n")),
 g("lr-not-lt", (AGE, AGE.replace("if ((get_time() - std::get<2>(*(it->second))) >= expired_after_)", "if (!((get_time() - std::get<2>(*(it->second))) < expired_after_))"))),
 g("lr-now-local", (AGE, "            auto const now = get_time();\n            auto const age = now - std::get<2>(*(it->second));\n            if (age >= expired_after_) {\n")),
 g("lr-add-cmp", (AGE, "            if (std::get<2>(*(it->second)) + expired_after_ <= get_time()) {\n")),
 g("lr-erase-hit", (HIT, "            auto n = it->second;\n            std::get<1>(*n) = value;\n            std::get<2>(*n) = get_time();\n            list_.splice(list_.begin(), list_, n);\n")),
 g("lr-evict-map-size", (EV, EV.replace("list_.size()", "map_.size()"))),
 g("lr-evict-helper", (EV, "            if (list_.size() >= Size) {\n                evict();\n            }\n"), ("private:\n", "private:\n    void evict() {\n        map_.erase(std::get<0>(list_.back()));\n        list_.pop_back();\n    }\n")),
 g("lr-evict-copykey", (EV, EV.replace("map_.erase(std::get<0>(list_.back()));", "Key const old = std::get<0>(list_.back());\n                map_.erase(old);"))),
 g("lr-evict-ne", (EV, EV.replace("list_.size() >= Size", "!(list_.size() < Size)"))),
 g("lr-evict-it", (EV, EV.replace("map_.erase(std::get<0>(list_.back()));\n                list_.pop_back();", "auto last = std::prev(list_.end());\n                map_.erase(std::get<0>(*last));\n                list_.erase(last);"))),
 g("lr-evict-after", (EV, ""), (NEW, NEW + EV.replace(">= Size", "> Size"))),
 g("lr-return-opt", (RET, RET.replace("return *(it->second);", "return return_type{*(it->second)};"))),
 g("lr-front-ret", (RET, RET.replace("return *(it->second);", "return list_.front();"))),
 g("lr-expired-drop", (EXP, "                list_.erase(it->second);\n                map_.erase(it);\n" + EXP)),
 g("lr-map-ordered", ("std::unordered_map<Key, typename", "std::map<Key, typename"), ("#include <list>\n", "#include <list>\n#include <map>\n")),
]
