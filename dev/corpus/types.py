C = ["C30"]
def b(i, h, *e): return ("bad", i, C, h, list(e))
def g(i, h, *e): return ("good", i, [], h, list(e))
SH = "allocators/static_heap.hpp"; AP = "func/argv_parser.hpp"; OD = "comm/values/observed.hpp"; OB = "comm/values/observable.hpp"
OS = "comm/observer_static.hpp"; IE = "func/interval_event.hpp"; PS = "comm/pipeline_stage.hpp"; PP = "comm/pipeline_stage_pool.hpp"
SHD = "    static_heap(static_heap const&) = delete;\n    static_heap&\n    operator=(static_heap const&)\n        = delete;\n"
ODD = "    observed(observed const&) = delete;\n    observed(observed&&)      = delete;\n"
ODA = "    observed const&\n    operator=(observed const&)\n        = delete;\n"
OSC = "    observable(observable const&) = delete;\n    observable(observable&&)      = delete;\n"
OSA = "    observable const&\n    operator=(observable const&)\n        = delete;\n"
IEC = "    interval_event(interval_event const& val) = delete;\n    interval_event(interval_event&& val)      = delete;"
CASES = [
 b("ty-heap-nodel", SH, (SHD, "")),
 b("ty-heap-default", SH, (SHD, "    static_heap(static_heap const&) = default;\n    static_heap& operator=(static_heap const&) = default;\n")),
 b("ty-heap-assign", SH, ("    static_heap&\n    operator=(static_heap const&)\n        = delete;\n", "")),
 b("ty-heap-move", SH, (SHD, SHD + "    static_heap(static_heap&& o) noexcept { std::swap(uc_heap_, o.uc_heap_); }\n")),
 b("ty-argv-copy", AP, ("    argv_parser(argv_parser const&) = delete;", "    argv_parser(argv_parser const&) = default;")),
 b("ty-argv-move", AP, ("    argv_parser(argv_parser&&) = delete;", "    argv_parser(argv_parser&&) = default;")),
 b("ty-argv-assign", AP, ("    operator=(argv_parser&&)\n        = delete;", "    operator=(argv_parser&&)\n        = default;")),
 b("ty-obsd-copy", OD, (ODD, "    observed(observed const& o) : std::atomic<T>(o.load()), function_{o.function_} {}\n")),
 b("ty-obsd-protected", OD, (ODD, "protected:\n    observed(observed const& o) : std::atomic<T>(o.load()), function_{o.function_} {}\npublic:\n")),
 b("ty-obsd-assign", OD, (ODA, "    observed&\n    operator=(observed const& o)\n    {\n        function_ = o.function_;\n        return *this;\n    }\n")),
 b("ty-obsd-moveassign", OD, (ODA, ODA + "    observed&\n    operator=(observed&& o)\n    {\n        function_ = std::move(o.function_);\n        return *this;\n    }\n")),
 b("ty-obsd-move-tmpl", OD, (ODD, "    observed(observed const&) = delete;\n    template <class U> observed(observed<U>&& o) : function_{o.function_} {}\n    observed(observed&& o) : function_{std::move(o.function_)} {}\n")),
 b("ty-static-copy", OS, ((OSC, 2), OSC.replace("delete", "default"))),
 b("ty-static-copy-last", OS, ("obs_{rel} {};\n" + OSC, "obs_{rel} {};\n    constexpr observable(observable const&) = default;\n")),
 b("ty-iv-copy", IE, (IEC, "    interval_event(interval_event const& o) : interval_event(o.function_) {}\n    interval_event(interval_event&& val)      = delete;")),
 b("ty-iv-move", IE, (IEC, "    interval_event(interval_event const& o) = delete;\n    interval_event(interval_event&& o) : interval_event(std::move(o.function_)) {}")),
 g("ty-static-deleted-anyway", OS, ((OSC, 1), OSC.replace("delete", "default"))),
 g("ty-heap-both", SH, (SHD, "    static_heap& operator=(static_heap&&) = delete;\n    static_heap(static_heap&&)            = delete;\n" + SHD)),
 g("ty-heap-moveonly", SH, (SHD, "    static_heap(static_heap&&) = delete;\n")),
 g("ty-argv-order", AP, ("    argv_parser(argv_parser const&) = delete;\n\n    argv_parser(argv_parser&&) = delete;\n", "    argv_parser(argv_parser&&) = delete;\n")),
 g("ty-obsd-less", OD, (ODD, "    observed(observed const&) = delete;\n")),
 g("ty-obsd-implicit", OD, (ODD + ODA, "")),
 g("ty-obsd-ret", OD, (ODA, "    observed& operator=(observed const&) = delete;\n    observed& operator=(observed&&) = delete;\n")),
 g("ty-static-less", OS, ((OSC, 2), "    observable(observable const&) = delete;\n")),
 g("ty-iv-less", IE, (IEC, "    interval_event(interval_event const&) = delete;")),
 g("ty-stage-explicit", PS, ("    ~pipeline_stage()", "    pipeline_stage(pipeline_stage const&) = delete;\n    pipeline_stage& operator=(pipeline_stage const&) = delete;\n\n    ~pipeline_stage()")),
]
