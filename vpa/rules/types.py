"""C30: types that must not be duplicated; C36: everything public compiles.

Both are decided by the compiler's front end on generated witnesses that include /repo's current headers: nothing is
code-generated or run.  A witness is either an assertion on the type-checked program (copy and move operations take no
part in overload resolution, for the class and for a class derived from it), or a use that must be accepted."""
import os
import re
from concurrent.futures import ThreadPoolExecutor
from ..core import *
from .. import build

LOG = """struct vp_log { static vp_log& trace(); static vp_log& debug(); static vp_log& info(); static vp_log& warning(); static vp_log& error();
 template <class X> vp_log& operator<<(X const&) { return *this; } };
struct vp_opts { std::string s; int i{}; double d{}; bool b{}; };
struct vp_big { long a[5]; };
"""
HEADERS = ["allocators/static_heap.hpp", "func/argv_parser.hpp", "comm/values/observed.hpp", "comm/values/observable.hpp", "comm/observer_static.hpp",
           "func/interval_event.hpp", "comm/pipeline_stage.hpp", "comm/pipeline_stage_pool.hpp"]
# (what, header, prelude, [types]); the second list only in the thorough tier
UNIQUE = [
    ("static heap", "allocators/static_heap.hpp", "", ["xitren::allocators::static_heap<1024>", "xitren::allocators::static_heap<4096>"],
     ["xitren::allocators::static_heap<256>", "xitren::allocators::static_heap<1000000>"]),
    ("command-line parser", "func/argv_parser.hpp", "", ["xitren::func::argv_parser<vp_opts>"], ["xitren::func::argv_parser<vp_big>"]),
    ("observed value", "comm/values/observed.hpp", "", ["xitren::comm::values::observed<int>", "xitren::comm::values::observed<double>"],
     ["xitren::comm::values::observed<unsigned char>", "xitren::comm::values::observed<long>"]),
    ("published value", "comm/values/observable.hpp", "", ["xitren::comm::values::observable<int, 5>", "xitren::comm::values::observable<int, 0>", "xitren::comm::values::observable<double, 1>"],
     ["xitren::comm::values::observable<double, 0>", "xitren::comm::values::observable<unsigned char, 16>"]),
    ("compile-time observer chain", "comm/observer_static.hpp",
     "struct vp_o1 : xitren::comm::observer<int, vp_o1> { void notification_impl(xitren::comm::observable_impl<int> const&, int const&) {} };\n"
     "struct vp_o2 : xitren::comm::observer<int, vp_o2> { void notification_impl(xitren::comm::observable_impl<int> const&, int const&) {} };\n",
     ["xitren::comm::observable<int, vp_o1>", "xitren::comm::observable<int, vp_o1, vp_o2>", "xitren::comm::observable<int, vp_o1, vp_o2, vp_o1>"],
     ["xitren::comm::observable<int, vp_o1, vp_o2, vp_o1, vp_o2, vp_o1>"]),
    ("interval event", "func/interval_event.hpp", "", ["xitren::func::interval_event"], []),
    ("pipeline stage", "comm/pipeline_stage.hpp", "", ["xitren::comm::pipeline_stage<int, void, 8, vp_log>", "xitren::comm::pipeline_stage<std::string, std::string, 3, vp_log>"],
     ["xitren::comm::pipeline_stage<vp_big, int, 1, vp_log>"]),
    ("pipeline stage pool", "comm/pipeline_stage_pool.hpp", "", ["xitren::comm::pipeline_stage_pool<int, void, 8, 4, vp_log>", "xitren::comm::pipeline_stage_pool<std::string, std::string, 3, 1, vp_log>"],
     ["xitren::comm::pipeline_stage_pool<vp_big, int, 1, 2, vp_log>"]),
]
HELP = """
template <class T> struct vp_deriv_ { struct type : T { using T::T; }; };
template <class T, bool Final = std::is_final_v<T>> struct vp_deriv { using type = typename vp_deriv_<T>::type; };
template <class T> struct vp_deriv<T, true> { using type = T; };
template <class T> using vp_derived = typename vp_deriv<T>::type;
template <class T> struct vp_holder { T m; };
"""
COPY = [
    ("cannot be copied", "std::is_constructible_v<T, T const&>"),
    ("cannot be copied", "std::is_constructible_v<T, T&>"),
    ("cannot be moved", "std::is_constructible_v<T, T>"),
    ("cannot be moved", "std::is_constructible_v<T, T const>"),
    ("cannot be assigned to", "std::is_assignable_v<T&, T const&>"),
    ("cannot be assigned to", "std::is_assignable_v<T&, T&>"),
    ("cannot be move-assigned to", "std::is_assignable_v<T&, T>"),
    ("cannot be move-assigned to", "std::is_assignable_v<T&, T const>"),
    ("a derived class cannot be copied", "std::is_constructible_v<vp_derived<T>, vp_derived<T> const&>"),
    ("a derived class cannot be moved", "std::is_constructible_v<vp_derived<T>, vp_derived<T>>"),
    ("a derived class cannot be assigned to", "std::is_assignable_v<vp_derived<T>&, vp_derived<T> const&>"),
    ("a derived class cannot be move-assigned to", "std::is_assignable_v<vp_derived<T>&, vp_derived<T>>"),
]


def where(header, name):
    """file:line of the class the type names."""
    p = os.path.join(build.REPO, "include", "xitren", header)
    cls = re.sub(r"<.*", "", name).split("::")[-1]
    try:
        for n, l in enumerate(open(p, errors="replace"), 1):
            if re.search(r"\b(class|struct)\b[^;]*\b" + cls + r"\b", l) and not l.rstrip().endswith(";"):
                return f"include/xitren/{header}:{n}"
    except OSError:
        pass
    return f"include/xitren/{header}:1"


def c30(chk, tier):
    jobs = []
    for what, header, pre, ts, more in UNIQUE:
        jobs.append((what, header, pre, ts + (more if tier == "thorough" else [])))
    chk.how = ("Witness translation units that include the current headers, type-checked by the compiler's front end: each obligation is "
               "an assertion on the overload resolution of a copy or move operation of one class or of a class derived from it.")
    with ThreadPoolExecutor(8) as ex:
        for what, header, pre, ts, errs, lines in ex.map(unique, jobs):
            chk.units.add((header, ()))
            hit = {}
            other = []
            for f, n, msg, notes in errs:
                if f in ("<stdin>", "-") and n in lines and "static assertion failed" in msg:
                    hit[n] = msg
                else:
                    other.append((f, n, msg, notes))
            for n, (t, rule, e) in sorted(lines.items()):
                rule = f"{what}: {rule}"
                if n in hit:
                    chk.ob(t, rule, REFUTED, where(header, t), f"{e} holds for T = {t}")
                elif other:
                    chk.ob(t, rule, UNDEC, where(header, t), f"the witness does not compile: {other[0][2]}"[:200])
                else:
                    chk.ob(t, rule, PROVED, where(header, t), "")


def unique(job):
    what, header, pre, ts = job
    txt = f"#include <type_traits>\n#include <utility>\n#include <string>\n#include <deque>\n#include <vector>\n#include <xitren/{header}>\n" + LOG + HELP + pre
    lines = {}
    for t in ts:
        for rule, e in COPY:
            n = txt.count("\n") + 1
            txt += "template <class T> constexpr bool vp_c%d = !(%s); static_assert(vp_c%d<%s>);\n" % (n, e, n, t)
            lines[n] = (t, rule, e)
    return (*job, build.compile_only(txt), lines)
