S = "comm/pipeline_stage.hpp"
P = "comm/pipeline_stage_pool.hpp"
I = "func/interval_event.hpp"
PROPS = [f"C{i}" for i in range(21, 29)]
def b(i, k, f, *s): return ("bad", i, [k] if isinstance(k, str) else k, f, list(s))
def g(i, f, *s): return ("good", i, None, f, list(s))

# ---- the stage
SP = "        auto const i                          = queue_.tail++;\n        queue_.array[i % queue_.array.size()] = data;\n"
ST = "    atomic_cnt_type    tail_{0};\n"
TAIL = "        atomic_cnt_type                    tail;\n"
WIN = "            while (tail_ < queue_.tail) {\n"
WOUT = "        while (!closed_ || ((queue_.tail - tail_) > 0)) {\n"
RDY = "                if (!(queue_.array[(tail_) % queue_.array.size()])) {\n"
TAKE = "                auto const i = tail_++;\n"
DAT = "                auto& data = queue_.array[i % queue_.array.size()];\n"
CALL = "                func_(pipeline_stage_exception::no_error, data.value(),\n                      measure_type{time_for_unit(), buffer_utilization()});\n"
LK = "                std::lock_guard<std::mutex> const lock{stat_mutex_};\n"
PUSHF = "                stat_.push_front("
DT = "        closed_ = true;\n        if (worker_.joinable()) {\n            worker_.join();\n        }\n"
# ---- the pool
PP = "        auto const min_id{min_thread()};\n        auto const i                                        = pool_[min_id].tail++;\n        pool_[min_id].array[i % pool_[min_id].array.size()] = data;\n"
PIN = "                while (head_l < tail_l) {\n"
POUT = "            while (!closed_ || ((tail_l - head_l) > 0)) {\n"
PRDY = "                    if (!(array_l[(head_l) % array_l.size()])) {\n"
PTAKE = "                    auto const i = head_l++;\n"
PDAT = "                    auto& data = array_l[i % array_l.size()];\n"
PCALL = "                    func_(pipeline_stage_exception::no_error, data.value(),\n                          measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});\n"
PBIND = "            auto& [array_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];\n"
PLOOP = "        for (std::size_t i{}; i < pool_size_; i++) {\n            pool_threads_.push_back(std::thread(thread, i));\n        }\n"
PDT = "        closed_ = true;\n        for (auto& worker : pool_threads_) {\n            if (worker.joinable()) {\n                worker.join();\n            }\n        }\n"
MIN = "        for (auto& item : pool_) {\n            auto const size{item.tail - item.head};\n            if (min > size) {\n                min   = size;\n                min_i = i;\n            }\n            i++;\n        }\n        return min_i;\n"
# ---- the interval event
IB = "              while (keep_running_.test_and_set()) {\n"
ICMP = "                  if (std::chrono::system_clock::now() - last_time >= period_.load()) {\n"
IADV = "                      last_time += period_.load();\n"
IFN = "                      function_();\n"
ISL = "                  std::this_thread::sleep_for(period_between_checks_.load());\n"
INO = "              keep_running_.notify_one();\n"
ISTOP = "        if (!stop_) {\n            keep_running_.clear();\n            keep_running_.wait(false);\n            stop_ = true;\n        }\n"
IDT = "    ~interval_event() { stop(); }\n"
IMEM = "    std::function<void(void)> function_;\n    std::atomic_flag          keep_running_{true};\n    std::atomic<time_type>    period_{};\n    std::atomic<time_type>    period_between_checks_{};\n    bool                      stop_{false};\n    std::thread               thread_;\n"
ILAST = "              auto last_time{std::chrono::system_clock::now() - period_.load()};\n"

CASES = [
 # C21
 b("st-tail-plain", "C21", S, (TAIL, TAIL.replace("atomic_cnt_type", "std::size_t    "))),
 b("st-load-store", "C21", S, ((SP, -1), SP.replace("queue_.tail++;", "queue_.tail.load();\n        queue_.tail = i + 1;"))),
 b("st-slot-next", "C21", S, ((SP, 1), SP.replace("[i %", "[(i + 1) %"))),
 b("st-slot-oob", "C21", S, ((SP, -1), SP.replace("i % queue_.array.size()", "i % (queue_.array.size() + 1)"))),
 b("st-slot-share", "C21", S, ((SP, -1), SP.replace("i % queue_.array.size()", "(i / 2) % queue_.array.size()"))),
 b("st-preinc", "C21", S, ((SP, -1), SP.replace("queue_.tail++;", "queue_.tail++ % 2;"))),
 b("st-slot-current-tail", "C21", S, ((SP, -1), SP.replace("[i %", "[(queue_.tail - 1) %"))),
 b("st-two", "C21", S, ((SP, 1), SP.replace("queue_.tail++;", "queue_.tail.fetch_add(2);"))),
 b("po-two-queues", ["C21", "C24"], P, ((PP, -1), PP.replace("pool_[min_id].array[i % pool_[min_id].array.size()] = data", "pool_[min_thread()].array[i % pool_[min_id].array.size()] = data"))),
 b("po-tail-plain", "C21", P, (TAIL, TAIL.replace("atomic_cnt_type", "std::size_t    "))),
 b("po-relaxed-rmw-split", "C21", P, ((PP, -1), PP.replace("pool_[min_id].tail++;", "pool_[min_id].tail.load();\n        pool_[min_id].tail.store(i + 1);"))),
 # C22
 b("st-call-twice", "C22", S, (CALL, CALL + CALL)),
 b("st-no-take", "C22", S, (TAKE, "                auto const i = tail_.load();\n")),
 b("st-take-early", "C22", S, (RDY, TAKE.replace("                auto const i = tail_++;", "                auto const k = tail_++;") + RDY.replace("(tail_)", "k")), (TAKE, "                auto const i = k;\n")),
 b("st-wrong-slot", "C22", S, (DAT, DAT.replace("[i %", "[tail_ %"))),
 b("st-flag-other-slot", "C22", S, (RDY, RDY.replace("(tail_)", "(tail_ + 1)"))),
 b("st-no-flag", "C22", S, (RDY, "                if (false) {\n")),
 b("st-le", "C22", S, (WIN, WIN.replace("<", "<="))),
 b("st-by-two", "C22", S, (TAKE, TAKE.replace("tail_++", "tail_.fetch_add(2)"))),
 b("st-error-code", "C22", S, (CALL, CALL.replace("pipeline_stage_exception::no_error", "static_cast<pipeline_stage_exception>(1)"))),
 b("st-skip-last", "C22", S, (CALL, "                if (i % 7 == 6) { continue; }\n" + CALL)),
 b("po-call-twice", "C22", P, (PCALL, PCALL + "                    if (stat_l.size() == 3) {\n" + PCALL + "                    }\n")),
 b("po-take-before-check", "C22", P, (PRDY, PRDY.replace("(head_l)", "(head_l++)")), (PTAKE, "                    auto const i = head_l - 1;\n")),
 b("po-drop-not-ready", "C22", P, (PRDY, PRDY + "                        head_l++;\n")),
 b("po-lt", "C22", P, (PIN, PIN.replace("<", "<="))),
 b("po-first-slot", "C22", P, (PDAT, PDAT.replace("i %", "(i & ~1ul) %"))),
 b("po-div-slot", "C22", P, (PDAT, PDAT.replace("%", "/"))),
 b("po-div-ready", "C22", P, (PRDY, PRDY.replace("%", "/"))),
 # C23
 b("st-no-close", "C23", S, (DT, DT.replace("        closed_ = true;\n", ""))),
 b("st-close-late", "C23", S, (DT, DT.replace("        closed_ = true;\n", "") + "        closed_ = true;\n")),
 b("st-no-join", "C23", S, (DT, DT.replace("worker_.join()", "worker_.detach()"))),
 b("st-no-drain", "C23", S, (WOUT, "        while (!closed_) {\n")),
 b("st-never-ends", "C23", S, (WOUT, "        while (true) {\n")),
 b("st-inner-closed", "C23", S, (WIN, WIN.replace("tail_ <", "!closed_ && tail_ <")), (WOUT, "        while (!closed_) {\n")),
 b("st-and", "C23", S, (WOUT, WOUT.replace("||", "&&"))),
 b("st-drain-one-less", "C23", S, (WOUT, WOUT.replace("> 0", "> 1"))),
 b("po-join-first", "C23", P, (PDT, PDT.replace("            if (worker.joinable()) {\n                worker.join();\n            }\n", "            if (worker.joinable()) {\n                worker.join();\n            }\n            break;\n"))),
 b("po-detach", "C23", P, (PDT, PDT.replace("worker.join()", "worker.detach()"))),
 b("po-not-joinable", "C23", P, (PDT, PDT.replace("if (worker.joinable", "if (!worker.joinable"))),
 b("po-close-in-loop", "C23", P, (PDT, PDT.replace("        closed_ = true;\n", "") + "        closed_ = true;\n")),
 b("po-no-drain", "C23", P, (POUT, "            while (!closed_) {\n"), (PIN, PIN.replace("head_l <", "!closed_ && head_l <"))),
 b("po-clear-before-join", "C23", P, (PDT, PDT.replace("        for", "        pool_[0].stat.clear();\n        for"))),
 b("st-closed-at-start", "C23", S, ("    atomic_closed_type closed_{false};", "    atomic_closed_type closed_{true};")),
 b("po-closed-at-start", "C23", P, ("    atomic_closed_type closed_{false};", "    atomic_closed_type closed_{true};")),
 b("st-push-closes", "C23", S, (SP, SP + "        if (i % queue_.array.size() == 0 && i) { closed_ = true; }\n")),
 b("st-run-inverted", "C23", S, (WOUT, WOUT.replace("!closed_", "closed_"))),
 b("st-dtor-false", "C23", S, (DT, DT.replace("closed_ = true", "closed_ = false"))),
 g("st-running-flag", S, (WOUT, WOUT.replace("!closed_", "closed_")), (DT, DT.replace("closed_ = true", "closed_ = false")), ("    atomic_closed_type closed_{false};", "    atomic_closed_type closed_{true};")),
 g("po-running-flag", P, (POUT, POUT.replace("!closed_", "running_")), (PDT, PDT.replace("closed_ = true", "running_ = false")), ("    atomic_closed_type closed_{false};", "    atomic_closed_type running_{true};")),
 g("st-enum-flag", S, (WOUT, WOUT.replace("!closed_", "state_ == state_type::open")), (DT, DT.replace("closed_ = true", "state_ = state_type::closed")), ("    atomic_closed_type closed_{false};", "    enum class state_type { open, closed };\n    std::atomic<state_type> state_{state_type::open};")),
 # C24
 b("po-loop-short", "C24", P, (PLOOP, PLOOP.replace("i{};", "i{1};"))),
 b("po-loop-long", "C24", P, (PLOOP, PLOOP.replace("i < pool_size_", "i <= pool_size_"))),
 b("po-same-queue", "C24", P, (PLOOP, PLOOP.replace("(thread, i)", "(thread, 0)"))),
 b("po-half-queue", "C24", P, (PLOOP, PLOOP.replace("(thread, i)", "(thread, i / 2)"))),
 b("po-pool-size-wrong", "C24", P, ("pool_size_{PoolSize}", "pool_size_{BufferSize}")),
 b("po-bind-zero", "C24", P, (PBIND, PBIND.replace("pool_[pool_thread_n]", "pool_[0]"))),
 b("po-bind-half", "C24", P, (PBIND, PBIND.replace("pool_[pool_thread_n]", "pool_[pool_thread_n / 2]"))),
 b("po-push-zero", "C24", P, ((PP, -1), PP.replace("{min_thread()}", "{0}"))),
 b("po-push-past", "C24", P, ((PP, -1), PP.replace("{min_thread()}", "{min_thread() + 1}"))),
 b("po-min-max", "C24", P, (MIN, MIN.replace("min > size", "min < size"))),
 b("po-min-noset", "C24", P, (MIN, MIN.replace("                min   = size;\n", ""))),
 b("po-min-head", "C24", P, (MIN, MIN.replace("item.tail - item.head", "item.tail + 0"))),
 b("po-min-i-late", "C24", P, (MIN, MIN.replace("            i++;\n", "").replace("            auto const", "            i++;\n            auto const"))),
 b("po-stat-shared", ["C24", "C26"], P, (PBIND, PBIND + "            auto& stat_s = stat_;\n"), ("time_for_unit(stat_l)", "time_for_unit(stat_s)"), ("                    stat_l.push_front(", "                    stat_s.push_front(")),
 # C25
 b("st-member-order", "C25", S, ("    statistics_type    stat_{};\n", ""), ("    }};\n};\n", "    }};\n    statistics_type    stat_{};\n};\n")),
 b("st-func-late", "C25", S, ("pipeline_stage(function_type func) : func_{func} {}", "pipeline_stage(function_type func) { func_ = func; }")),
 b("po-start-in-init", "C25", P, ("        for (std::size_t i{}; i < pool_size_; i++) {\n            pool_threads_.push_back(std::thread(thread, i));\n        }\n", "        for (std::size_t i{}; i < pool_size_; i++) {\n            pool_threads_.push_back(std::thread(thread, i));\n            pool_[i].head = 0;\n        }\n") , ("pool_threads_.push_back(std::thread(thread, i));\n            pool_[i].head = 0;", "pool_threads_.push_back(std::thread(thread, i));\n            pool_[i].stat.clear();")),
 b("po-closed-late", "C25", P, ("func_{func}, pool_size_", "pool_size_"), (PLOOP, PLOOP + "        func_ = func;\n")),
 b("iv-order", "C25", I, (IMEM, "    std::function<void(void)> function_;\n    std::atomic_flag          keep_running_{true};\n    std::thread               thread_;\n    std::atomic<time_type>    period_{};\n    std::atomic<time_type>    period_between_checks_{};\n    bool                      stop_{false};\n")),
 b("iv-func-late", "C25", I, ("        thread_.detach();\n", "        function_ = std::move(function);\n        thread_.detach();\n"), ("function_{std::move(function)}", "function_{}")),
 # C26
 b("st-closed-plain", "C26", S, ("    atomic_closed_type closed_{false};\n", "    bool               closed_{false};\n")),
 b("st-nolock-read", "C26", S, ("        std::lock_guard<std::mutex> const lock{stat_mutex_};\n        int calc{};\n        for (auto& item : stat_) {\n            calc += item.first", "        int calc{};\n        for (auto& item : stat_) {\n            calc += item.first")),
 b("st-nolock-write", "C26", S, (LK, "")),
 b("st-lock-scope", "C26", S, (LK, "                { std::lock_guard<std::mutex> const lock{stat_mutex_}; }\n")),
 b("po-closed-plain", "C26", P, ("    atomic_closed_type closed_{false};\n", "    bool               closed_{false};\n")),
 b("po-head-plain", "C26", P, ("        atomic_cnt_type                    head;\n", "        std::size_t                        head;\n")),
 b("iv-period-plain", "C26", I, ("    std::atomic<time_type>    period_{};\n", "    time_type    period_{};\n"), (("period_.load()", -1), "period_")),
 # C27
 b("iv-no-wait", "C27", I, (ISTOP, ISTOP.replace("            keep_running_.wait(false);\n", ""))),
 b("iv-wait-true", "C27", I, (ISTOP, ISTOP.replace("wait(false)", "wait(true)"))),
 b("iv-no-clear", "C27", I, (ISTOP, ISTOP.replace("            keep_running_.clear();\n", ""))),
 b("iv-no-stopflag", "C27", I, (ISTOP, ISTOP.replace("            stop_ = true;\n", ""))),
 b("iv-stop-first", "C27", I, ("    bool                      stop_{false};", "    bool                      stop_{true};")),
 b("iv-dtor", "C27", I, (IDT, "    ~interval_event() {}\n")),
 b("iv-dtor-clear-only", "C27", I, (IDT, "    ~interval_event() { keep_running_.clear(); }\n")),
 b("iv-no-notify", "C27", I, (INO, "")),
 b("iv-test-only", "C27", I, (IB, IB.replace("test_and_set", "test"))),
 b("iv-ignore", "C27", I, (IB, "              while (true) {\n                  keep_running_.test_and_set();\n")),
 b("iv-set-after", "C27", I, (IFN, IFN + "                      keep_running_.test_and_set();\n")),
 b("iv-call-after", "C27", I, (INO, INO + "              function_();\n")),
 b("iv-do-while", "C27", I, (IB, "              do {\n"), ("                  std::this_thread::sleep_for(period_between_checks_.load());\n              }\n", "                  std::this_thread::sleep_for(period_between_checks_.load());\n                  if (period_.load() == 0ms) { keep_running_.test_and_set(); break; }\n              } while (keep_running_.test_and_set() || true);\n")),
 b("iv-early-return", "C27", I, (ICMP, "                  if (period_.load() < 0ms) {\n                      keep_running_.clear();\n                      return;\n                  }\n" + ICMP)),
 # C28
 b("iv-now-last", "C28", I, (IADV, "                      last_time = std::chrono::system_clock::now();\n")),
 b("iv-double", "C28", I, (IFN, IFN + "                      if (period_.load() < 1ms) { function_(); }\n")),
 b("iv-catch-up", "C28", I, (ICMP, ICMP.replace("if (", "while ("))),
 b("iv-adv-check", "C28", I, (IADV, IADV.replace("period_.", "period_between_checks_."))),
 b("iv-no-adv", "C28", I, (IADV, "")),
 b("iv-cmp-check", "C28", I, (ICMP, ICMP.replace("period_.", "period_between_checks_."))),
 b("iv-cmp-rev", "C28", I, (ICMP, ICMP.replace(">=", "<="))),
 b("iv-adv-outside", "C28", I, (IADV, ""), (ISL, "                  last_time += period_.load();\n" + ISL)),
 b("iv-sleep-period", "C28", I, (ISL, ISL.replace("period_between_checks_", "period_"))),
 b("iv-sleep-const", "C28", I, (ISL, ISL.replace("period_between_checks_.load()", "20ms"))),
 b("iv-sleep-only-idle", "C28", I, (ISL, "                  else {\n" + ISL + "                  }\n")),
 b("iv-getter", "C28", I, ("        return period_between_checks_;", "        return period_;")),
 b("iv-setter", "C28", I, ("        period_between_checks_ = val;", "        period_ = val;")),
 b("iv-setter-half", "C28", I, ("        period_ = val;", "        period_ = val / 2;")),
 b("iv-ctor-swap", "C28", I, ("period_{repeat_every},", "period_{wait_between_checks},"), ("period_between_checks_{wait_between_checks},", "period_between_checks_{repeat_every},")),
 b("iv-us", "C28", I, (ICMP, ICMP.replace("period_.load()", "std::chrono::microseconds(period_.load().count())"))),
 b("iv-cmp-raw", "C28", I, (ICMP, ICMP.replace("std::chrono::system_clock::now() - last_time >= period_.load()", "(std::chrono::system_clock::now() - last_time).count() >= period_.load().count()"))),
 b("iv-adv-twice", "C28", I, (IADV, IADV + "                      if (std::chrono::system_clock::now() - last_time >= period_.load()) last_time += period_.load();\n")),
 b("iv-stopped-start", "C28", I, ("keep_running_{true}", "keep_running_{}")),

 # ------------------------------------------------------------ behaviour kept
 g("st-fetch-add", S, ((SP, -1), SP.replace("queue_.tail++", "queue_.tail.fetch_add(1)"))),
 g("st-cas", S, ((SP, -1), "        auto i = queue_.tail.load();\n        while (!queue_.tail.compare_exchange_weak(i, i + 1)) {\n        }\n        queue_.array[i % queue_.array.size()] = data;\n")),
 g("st-slot-ref", S, ((SP, -1), "        auto const i = queue_.tail++;\n        auto& slot = queue_.array[i % queue_.array.size()];\n        slot = data;\n")),
 g("st-at", S, ((SP, -1), SP.replace("queue_.array[i % queue_.array.size()] =", "queue_.array.at(i % BufferSize) ="))),
 g("st-preinc-1", S, ((SP, -1), SP.replace("queue_.tail++;", "++queue_.tail - 1;"))),
 g("st-helper", S, ((SP, -1), "        place(data);\n"), ("private:\n", "private:\n    void\n    place(Type const& data)\n    {\n" + SP + "    }\n")),
 g("st-emplace", S, ((SP, -1), SP.replace("[i % queue_.array.size()] = data;", "[i % queue_.array.size()].emplace(data);"))),
 g("st-local-tail", S, (WIN, "            while (tail_.load() < queue_.tail.load()) {\n")),
 g("st-has-value", S, (RDY, "                auto& slot = queue_.array[tail_ % queue_.array.size()];\n                if (!slot.has_value()) {\n")),
 g("st-copy-item", S, (DAT, DAT.replace("auto& data", "auto const data"))),
 g("st-star", S, (CALL, CALL.replace("data.value()", "*data"))),
 g("st-yield", S, (("std::this_thread::sleep_for(0ms);", -1), "std::this_thread::yield();")),
 g("st-loop-form", S, (WOUT, "        for (;;) {\n            if (closed_ && queue_.tail == tail_) {\n                break;\n            }\n")),
 g("st-ne", S, (WOUT, "        while (!closed_ || queue_.tail != tail_) {\n")),
 g("st-index-once", S, (RDY, "                auto const index = tail_ % queue_.array.size();\n                if (!queue_.array[index]) {\n"), (TAKE, "                tail_++;\n"), (DAT, "                auto& data = queue_.array[index];\n")),
 g("st-unique-lock", S, (LK, LK.replace("lock_guard<std::mutex> const", "unique_lock<std::mutex>"))),
 g("st-scoped-lock", S, (LK, LK.replace("lock_guard<std::mutex> const", "scoped_lock<std::mutex> const"))),
 g("st-stat-helper", S, (PUSHF, "                note("), ("queue_.tail - tail_});\n                if (stat_.size() > measure_points) {\n                    stat_.pop_back();\n                }\n", "queue_.tail - tail_});\n"), ("private:\n", "private:\n    void\n    note(measure_type m)\n    {\n        stat_.push_front(m);\n        if (stat_.size() > measure_points) {\n            stat_.pop_back();\n        }\n    }\n")),
 g("st-store-close", S, (DT, DT.replace("closed_ = true", "closed_.store(true)"))),
 g("st-dtor-helper", S, (DT, "        finish();\n"), ("private:\n", "private:\n    void\n    finish()\n    {\n" + DT + "    }\n")),
 g("st-join-always", S, (DT, "        closed_ = true;\n        worker_.join();\n")),
 g("st-accumulate", S, ("        int calc{};\n        for (auto& item : stat_) {\n            calc += item.first;\n        }\n        return calc / measure_points;", "        int sum = 0;\n        for (auto it = stat_.begin(); it != stat_.end(); ++it) {\n            sum = sum + it->first;\n        }\n        return sum / measure_points;")),
 g("po-bind-next", P, (PBIND, PBIND.replace("pool_[pool_thread_n]", "pool_[(pool_thread_n + 1) % PoolSize]"))),
 g("po-ref", P, ((PP, -1), "        auto& queue{pool_[min_thread()]};\n        auto const i = queue.tail++;\n        queue.array[i % queue.array.size()] = data;\n")),
 g("po-fetch-add", P, ((PP, -1), PP.replace("tail++", "tail.fetch_add(1)"))),
 g("po-helper", P, ((PP, -1), "        place(data);\n"), ("private:\n", "private:\n    void\n    place(Type const& data)\n    {\n" + PP + "    }\n")),
 g("po-index-loop", P, (MIN, "        for (std::size_t k = 0; k < pool_.size(); ++k) {\n            auto const size = pool_[k].tail - pool_[k].head;\n            if (size < min) {\n                min   = size;\n                min_i = static_cast<int>(k);\n            }\n        }\n        return min_i;\n"), ("        int         i{};\n", "")),
 g("po-ctor-range", P, (PLOOP, "        pool_threads_.reserve(PoolSize);\n        for (int n = 0; n < static_cast<int>(PoolSize); ++n) {\n            pool_threads_.emplace_back(thread, n);\n        }\n")),
 g("po-ctor-while", P, (PLOOP, "        std::size_t i = 0;\n        while (i != pool_size_) {\n            std::thread worker(thread, i);\n            pool_threads_.push_back(std::move(worker));\n            ++i;\n        }\n")),
 g("po-bind-ref", P, (PBIND, "            auto& queue = pool_[pool_thread_n];\n            auto& array_l = queue.array;\n            auto& stat_l = queue.stat;\n            auto& tail_l = queue.tail;\n            auto& head_l = queue.head;\n")),
 g("po-ne", P, (POUT, "            while (!closed_ || tail_l != head_l) {\n")),
 g("po-index-once", P, (PTAKE, PTAKE.replace("head_l++", "head_l.fetch_add(1)"))),
 g("po-copy-item", P, (PDAT, PDAT.replace("auto& data", "auto data"))),
 g("po-dtor-index", P, (PDT, "        closed_.store(true);\n        for (std::size_t i = 0; i < pool_threads_.size(); ++i) {\n            if (pool_threads_[i].joinable()) {\n                pool_threads_[i].join();\n            }\n        }\n")),
 g("po-dtor-noif", P, (PDT, "        closed_ = true;\n        for (auto& worker : pool_threads_) {\n            worker.join();\n        }\n")),
 g("iv-local-period", I, (ICMP, "                  auto const period = period_.load();\n" + ICMP.replace("period_.load()", "period")), (IADV, IADV.replace("period_.load()", "period"))),
 g("iv-plus", I, (ICMP, ICMP.replace("std::chrono::system_clock::now() - last_time >= period_.load()", "last_time + period_.load() <= std::chrono::system_clock::now()"))),
 g("iv-assign", I, (IADV, "                      last_time = last_time + period_.load();\n")),
 g("iv-notify-all", I, (INO, INO.replace("one", "all"))),
 g("iv-break", I, (IB, "              while (true) {\n                  if (!keep_running_.test_and_set()) {\n                      break;\n                  }\n")),
 g("iv-now-var", I, (ICMP, "                  auto const now = std::chrono::system_clock::now();\n                  if (now - last_time >= period_.load()) {\n")),
 g("iv-fn-first", I, (IADV + IFN, IFN + IADV)),
 g("iv-stop-early-return", I, (ISTOP, "        if (stop_) {\n            return;\n        }\n        keep_running_.clear();\n        keep_running_.wait(false);\n        stop_ = true;\n")),
 g("iv-stopflag-first", I, (ISTOP, "        if (!stop_) {\n            stop_ = true;\n            keep_running_.clear();\n            keep_running_.wait(false);\n        }\n")),
 g("iv-exchange", I, (ISTOP, "        if (!std::exchange(stop_, true)) {\n            keep_running_.clear();\n            keep_running_.wait(false);\n        }\n")),
 g("iv-spin", I, (ISTOP, ISTOP.replace("keep_running_.wait(false);", "while (!keep_running_.test()) {\n                std::this_thread::yield();\n            }"))),
 g("iv-body-helper", I, ("              while (keep_running_.test_and_set()) {\n", "              while (keep_running_.test_and_set()) {\n                  due(last_time);\n"), (ICMP + IADV + IFN + "                  }\n", ""), ("private:\n", "private:\n    void\n    due(std::chrono::system_clock::time_point& last_time)\n    {\n" + ICMP + IADV + IFN + "                  }\n    }\n")),
 g("iv-member-order", I, (IMEM, IMEM.replace("    std::atomic_flag          keep_running_{true};\n", "").replace("    bool ", "    std::atomic_flag          keep_running_{true};\n    bool "))),
 g("iv-getter-load", I, ("        return period_between_checks_;", "        return period_between_checks_.load();")),
 g("iv-setter-store", I, ("        period_ = val;", "        period_.store(val);")),
 g("iv-start-later", I, ("        thread_.detach();\n", "        thread_.detach();\n        (void)stop_;\n")),
 g("ivg-do-while", I, ("while (keep_running_.test_and_set()) {", "if (keep_running_.test_and_set()) do {"), ("                  std::this_thread::sleep_for(period_between_checks_.load());\n              }", "                  std::this_thread::sleep_for(period_between_checks_.load());\n              } while (keep_running_.test_and_set());")),
]
