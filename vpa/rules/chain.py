"""C17: the compile-time observer list."""
from ..core import *
from ..terms import *
from .. import build, engine
from .observers import const_of, all_events

ENTRIES = [("vp_1", "A", 1), ("vp_2", "AB", 1), ("vp_2same", "AA", 1), ("vp_3", "ABA", 1), ("vp_6", "ABCBAB", 1), ("vp_twice", "ABC", 2)]
TYPES = {"quick": ("int", "vp_big"), "thorough": ("int", "vp_big", "double", "unsigned char", "long long")}


def none(an, e, st):
    """An observer is given the source as const and leaves the list alone."""
    if "notification_impl" in (e.get("dem") or "") or "vp_root" in (e.get("dem") or ""):
        return []
    return None


def c17(chk, tier):
    for T_ in TYPES[tier]:
        unit = build.unit("static_chain", [f"VP_T={T_}"])
        size = const_of(unit, "vp_sizeof_T")
        for name, types, times in ENTRIES:
            n = len(types)
            en = chk.analyse(unit, name, effects=none)
            if en.err:
                continue
            for r in en.recs:
                if r.kind in ("terminate", "noreturn", "unwind") or r.facts.empty():
                    continue
                loc = r.events[-1].loc if r.events else en.loc
                if r.kind != "ret":
                    chk.ob(name, "a notification raises nothing", REFUTED, loc, r.kind)
                    continue
                ev = list(all_events(r.events))
                calls = [(e, al) for e, al in ev if e.kind == "call" and "::notification_impl(" in (e.dem or "")]
                roots = [e for e, al in ev if e.kind == "call" and (e.dem or "").startswith("vp_root(")]
                opq = [e for e, al in ev if e.kind in ("icall", "vcall", "loop") or e.kind == "call" and (e, al) not in calls and e not in roots]
                rule = "every listed observer is notified exactly once, in the order listed"
                if any(al is not None for _, al in calls) or opq:
                    chk.ob(name, rule, UNDEC, (opq or [calls[0][0]])[0].loc, f"through {(opq or [calls[0][0]])[0].kind}")
                    continue
                want = [(i, k) for k in range(times) for i in range(n)]
                got = [e.args[0] for e, _ in calls]
                ok = len(got) == len(want) and all(g is mk("arg", (i,), 64) for g, (i, k) in zip(got, want))
                known = all(g.op == "arg" for g in got)
                chk.ob(name, rule, PROVED if ok else REFUTED if known or len(got) != len(want) else UNDEC, calls[0][0].loc if calls else loc,
                       f"observers notified: {got}; listed: {n} observers, {times} notification(s)")
                if len(got) != len(want):
                    continue
                for (e, _), (i, k) in zip(calls, want):
                    D = mk("arg", (n + k,), 64)
                    v = PROVED if e.args[2] is D else REFUTED if e.args[2].op in ("arg", "int") else UNDEC
                    if v == UNDEC:
                        st = engine.State()
                        st.facts = e.facts
                        bs = [en.an.load(e.mem, addc(e.args[2], j), 1, st) for j in range(size)]
                        good = [b is mk("ld", (addc(D, j), 1, 0), 8) or (engine.byte_of(b) or (b,))[0].op == "ld" and byte_is(b, D, j) for j, b in enumerate(bs)]
                        v = PROVED if all(good) else REFUTED if any(is_int(b) or b.op == "undef" for b in bs) else UNDEC
                    chk.ob(name, "every observer gets the same data", v, e.loc, f"observer {i} gets {e.args[2]}")
                    src = e.args[1]
                    v = UNDEC
                    if len(roots) == 1:
                        v = PROVED if src is roots[0].args[0] else UNDEC
                        a, b = en.an.root(src)[0], en.an.root(roots[0].args[0])[0]
                        if v == UNDEC and a is b and is_int(sub(src, roots[0].args[0])):
                            v = REFUTED
                        elif v == UNDEC and (a is not None and a.op in ("alloca", "arg", "glob") and a is not b or is_int(src)):
                            v = REFUTED
                    chk.ob(name, "every observer gets the chain's one common source", v, e.loc, f"observer {i} gets {src}")


def byte_is(b, base, j):
    x = engine.byte_of(b)
    return x is not None and x[0].op == "ld" and x[0].a[2] == 0 and addc(x[0].a[0], x[1]) is addc(base, j)
