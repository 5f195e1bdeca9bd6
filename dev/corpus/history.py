S = "comm/pipeline_stage.hpp"
P = "comm/pipeline_stage_pool.hpp"
PROPS = ["C21", "C22", "C23", "C24", "C25", "C26", "C37"]
def b(i, f, *s): return ("bad", i, ["C37"], f, list(s))
def g(i, f, *s): return ("good", i, PROPS, f, list(s))
MP = "measure_points = 10;"
SPUSH = """                stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                              queue_.tail - tail_});
"""
SPOP = """                if (stat_.size() > measure_points) {
                    stat_.pop_back();
                }
"""
SLOCK = "                std::lock_guard<std::mutex> const lock{stat_mutex_};\n                stat_.push"
SCALL = """                func_(pipeline_stage_exception::no_error, data.value(),
                      measure_type{time_for_unit(), buffer_utilization()});
"""
SSUM1 = """        int calc{};
        for (auto& item : stat_) {
            calc += item.first;
        }
        return calc / measure_points;
"""
SSUM2 = SSUM1.replace("first", "second")
PPUSH = """                    stat_l.push_front(measure_data{
                        pool_thread_n,
                        static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count()),
                        static_cast<int>(tail_l - head_l)});
"""
PPOP = """                    if (stat_l.size() > measure_points) {
                        stat_l.pop_back();
                    }
"""
PCALL = """                    func_(pipeline_stage_exception::no_error, data.value(),
                          measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
"""
PSUM1 = """        int calc{};
        for (auto& item : stat) {
            calc += item.time;
        }
        return calc / measure_points;
"""
PSUM2 = PSUM1.replace("time", "load")
NOW1 = "                auto  last_time{std::chrono::system_clock::now()};\n"
NOW2 = "                auto elapsed = std::chrono::system_clock::now() - last_time;\n"
CASES = []
for t, F, PUSH, POP, CALL, S1, S2 in (("s", S, SPUSH, SPOP, SCALL, SSUM1, SSUM2), ("p", P, PPUSH, PPOP, PCALL, PSUM1, PSUM2)):
    I = "" if t == "s" else "    "
    h = "stat_" if t == "s" else "stat_l"
    sh = "stat_" if t == "s" else "stat"
    tail, head = ("queue_.tail", "tail_") if t == "s" else ("tail_l", "head_l")
    f1, f2 = ("first", "second") if t == "s" else ("time", "load")
    if t == "s":
        now1, now2 = NOW1, NOW2
    else:
        now1, now2 = "    " + NOW1, "    " + NOW2
    C = [
     b("hi-points", F, (MP, "measure_points = 11;")),
     b("hi-minus", F, (S1, S1.replace("+=", "-="))),
     b("hi-none", F, (S2, S2.replace("            calc += item." + f2 + ";\n", ""))),
     b("hi-mul", F, (S1, S1.replace("calc / m", "calc * m"))),
     b("hi-swapf", F, (S1, S1.replace(f1, f2))),
     b("hi-last", F, (S1, S1.replace("+=", "="))),
     b("hi-start", F, (S2, S2.replace("calc{}", "calc{1}"))),
     b("hi-nodiv", F, (S2, S2.replace("calc / measure_points", "calc"))),
     b("hi-div9", F, (S2, S2.replace("/ measure_points", "/ (measure_points - 1)"))),
     b("hi-avg", F, (S1, S1.replace("/ measure_points", f"/ ({sh}.empty() ? 1 : static_cast<int>({sh}.size()))"))),
     b("hi-skipfast", F, (S1, S1.replace("            calc += item." + f1 + ";\n", f"            if (item.{f1} > 1) {{\n                calc += item.{f1};\n            }}\n"))),
     b("hi-stop", F, (S1, S1.replace("            calc += item." + f1 + ";\n", f"            if (item.{f1} == 0) {{\n                break;\n            }}\n            calc += item.{f1};\n"))),
     b("hi-skipnewest", F, (S1, S1.replace(f"for (auto& item : {sh}) {{\n            calc += item.{f1};", f"if ({sh}.empty()) {{\n            return 0;\n        }}\n        auto it = {sh}.begin();\n        for (++it; it != {sh}.end(); ++it) {{\n            calc += it->{f1};"))),
     b("hi-pushback", F, (PUSH, PUSH.replace("push_front", "push_back"))),
     b("hi-popfront", F, (POP, POP.replace("pop_back", "pop_front"))),
     b("hi-ge", F, (POP, POP.replace("> m", ">= m"))),
     b("hi-plus1", F, (POP, POP.replace("measure_points", "measure_points + 1"))),
     b("hi-nopop", F, (POP, "")),
     b("hi-alwayspop", F, (POP, POP.replace("if (", "if (true || "))),
     b("hi-clear", F, (POP, POP.replace("pop_back", "clear"))),
     b("hi-pop2", F, (POP, POP.replace(h + ".pop_back();", h + ".pop_back();" + h + ".pop_back();"))),
     b("hi-sum", F, (PUSH, PUSH.replace(tail + " - " + head, tail + " + " + head))),
     b("hi-total", F, (PUSH, PUSH.replace(tail + " - " + head, tail))),
     b("hi-rev", F, (PUSH, PUSH.replace(tail + " - " + head, head + " - " + tail))),
     b("hi-zero", F, (PUSH, PUSH.replace(tail + " - " + head, "0" if t == "p" else "std::size_t{}"))),
     b("hi-micro", F, (PUSH, PUSH.replace("milliseconds", "microseconds"))),
     b("hi-revtime", F, (now2, now2.replace("std::chrono::system_clock::now() - last_time", "last_time - std::chrono::system_clock::now()"))),
     b("hi-early2", F, (now2, ""), (CALL, now2 + CALL)),
     b("hi-late1", F, (now1, ""), (CALL, CALL + now1)),
     b("hi-onlyslow", F, (PUSH, "if (elapsed > 1ms) " + PUSH.lstrip())),
     b("hi-twice", F, (PUSH, PUSH + PUSH)),
     b("hi-never", F, (PUSH, "")),
     b("hi-outer", F, (now1, ""), ("            while (" + ("tail_ < queue_.tail" if t == "s" else "head_l < tail_l") + ") {\n", now1 + "            while (" + ("tail_ < queue_.tail" if t == "s" else "head_l < tail_l") + ") {\n")),
     b("hi-trim-ge", F, (POP, POP.replace("if (", "while (").replace("> measure", ">= measure"))),
     b("hi-trim-more", F, (POP, POP.replace("if (", "while (").replace("> measure_points", "> measure_points + 1"))),
     b("hi-trim-front", F, (POP, POP.replace("if (", "while (").replace("pop_back", "pop_front"))),
     b("hi-trim-half", F, (POP, POP.replace("if (", "while (").replace("> measure_points", "> measure_points / 2"))),
     b("hi-trim-before", F, (PUSH + POP, POP.replace("if (", "while (") + PUSH)),
     g("hi-g-trim-before", F, (PUSH + POP, POP.replace("if (", "while (").replace("> measure", ">= measure") + PUSH)),
     g("hi-g-ge", F, (POP, POP.replace("> measure_points", ">= measure_points + 1"))),
     g("hi-g-while", F, (POP, POP.replace("if (", "while ("))),
     g("hi-g-before", F, (PUSH, POP.replace("> measure", ">= measure") + PUSH), (POP, "") if False else (PUSH, PUSH)) if False else
     g("hi-g-before", F, (PUSH + POP, POP.replace("> measure", ">= measure") + PUSH)),
     g("hi-g-emplace", F, (PUSH, PUSH.replace("push_front(" + ("measure_type{" if t == "s" else "measure_data{"), "emplace_front(" if t == "s" else "push_front(measure_data{").replace("tail_});", "tail_);" if t == "s" else "tail_});"))),
     g("hi-g-local", F, (PUSH, f"                auto const left = {tail} - {head};\n" + PUSH.replace(f"{tail} - {head}", "left"))),
     g("hi-g-steady", F, (now1, now1.replace("system_clock", "steady_clock")), (now2, now2.replace("system_clock", "steady_clock"))),
     g("hi-g-back", F, (PUSH, PUSH.replace("push_front", "push_back")), (POP, POP.replace("pop_back", "pop_front"))),
     g("hi-g-accum", F, (S1, S1.replace("int calc{};\n        for (auto& item : " + sh + ") {\n            calc += item." + f1 + ";\n        }", "int const calc = std::accumulate(" + sh + ".begin(), " + sh + ".end(), 0, [](int acc, auto const& item) { return acc + item." + f1 + "; });")), ("#include <algorithm>\n", "#include <algorithm>\n#include <numeric>\n")),
     g("hi-g-index", F, (S1, S1.replace("for (auto& item : " + sh + ") {\n            calc += item." + f1, "for (std::size_t j = 0; j < " + sh + ".size(); j++) {\n            calc += " + sh + "[j]." + f1))),
     g("hi-g-iter", F, (S2, S2.replace("for (auto& item : " + sh + ") {\n            calc += item." + f2, "for (auto it = " + sh + ".begin(); it != " + sh + ".end(); it++) {\n            calc += (*it)." + f2))),
     g("hi-g-copy", F, (S2, S2.replace("auto&", "auto const"))),
     g("hi-g-foreach", F, (S2, S2.replace("for (auto& item : " + sh + ") {\n            calc += item." + f2 + ";\n        }", "std::for_each(" + sh + ".begin(), " + sh + ".end(), [&calc](auto const& item) { calc = calc + item." + f2 + "; });"))),
     g("hi-g-skip0", F, (S1, S1.replace("            calc += item." + f1 + ";\n", f"            if (item.{f1} != 0) {{\n                calc += item.{f1};\n            }}\n"))),
     g("hi-g-mdata", F, (CALL, CALL.replace("func_(", "auto const told = " + ("measure_type{time_for_unit(), buffer_utilization()}" if t == "s" else "measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)}") + ";\n                func_(").replace("data.value(),\n" + I + "                      " + ("measure_type{time_for_unit(), buffer_utilization()}" if t == "s" else "measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)}"), "data.value(), told"))),
    ]
    CASES += [(x[0], x[1] + "-" + t, *x[2:]) for x in C]
CASES += [
 b("hi-swapargs-s", S, ("measure_type{time_for_unit(), buffer_utilization()}", "measure_type{buffer_utilization(), time_for_unit()}")),
 b("hi-swapargs-p", P, ("time_for_unit(stat_l), buffer_utilization(stat_l)", "buffer_utilization(stat_l), time_for_unit(stat_l)")),
 b("hi-noargs-s", S, ("measure_type{time_for_unit(), buffer_utilization()}", "measure_type{}")),
 b("hi-noid-p", P, ("measure_data{pool_thread_n, time_for", "measure_data{0, time_for")),
 b("hi-id1-p", P, ("measure_data{pool_thread_n, time_for", "measure_data{pool_thread_n + 1, time_for")),
 b("hi-sharedhist-p", P, (PPUSH + PPOP, (PPUSH + PPOP).replace("stat_l", "stat_"))),
 b("hi-sharedfig-p", P, ("time_for_unit(stat_l)", "time_for_unit(stat_)")),
 b("hi-neighbour-p", P, ("time_for_unit(stat_l)", "time_for_unit(pool_[(pool_thread_n + 1) % PoolSize].stat)")),
 b("hi-prefill-s", S, ("statistics_type    stat_{};", "statistics_type    stat_ = statistics_type(1);")),
 b("hi-pushsees-s", S, ("        auto const i                          = queue_.tail++;\n        queue_.array[i % queue_.array.size()] = data;\n#ifdef DEBUG\n        Log::trace() << \"Index: \" << queue_.tail << \"\\n\";\n#endif\n    }\n\n    auto", "        auto const i                          = queue_.tail++;\n        queue_.array[i % queue_.array.size()] = data;\n        if (i == 0) { stat_.clear(); }\n    }\n\n    auto")),
]
