"""C12-C16: the observer registries (plain and value observables, bounded and unbounded)."""
from ..core import *
from ..terms import *
from .. import build, engine
from .registry import *

A1 = mk("arg", (1,), 64)

QUICK = [("int", 70000), ("double", 1)]
DEEP = QUICK + [("unsigned char", 3), ("int", 2), ("int", 8), ("long long", 17), ("float", 255)]


def units(tier):
    ts = QUICK if tier == "quick" else DEEP
    for t, n in ts:
        yield build.unit("static_obs", [f"VP_T={t}", f"VP_N={n}"]), True, n
    for t in sorted({t for t, _ in ts}):
        yield build.unit("dyn_obs", [f"VP_T={t}"]), False, None


def find_layout(unit, prefix):
    c = [k for k in unit["layouts"] if k.startswith(prefix) and "::exception" not in k]
    return min(c, key=len) if c else None


def subjects(unit, static, n):
    """[(entry prefix, type name, registry)]"""
    out = []
    for pre, tn in (("vp_", "xitren::comm::observable<"), ("vp_v_", "xitren::comm::values::observable<")):
        name = find_layout(unit, tn)
        reg = array_reg(None, unit, name) if name else None
        out.append((pre, name, reg))
    return out


def const_of(unit, fn):
    f = unit["by"].get(fn)
    if f is None:
        raise Broken(fn + " is missing")
    r = [x for x in engine.Analysis(f, unit).run() if x.kind == "ret"]
    return sval(r[0].ret)


def each(chk, tier, op, fn):
    for unit, static, n in units(tier):
        load_codes(unit)
        for pre, tn, reg in subjects(unit, static, n):
            if reg is None:
                chk.ob(pre + op, "the registry is an array with a count or a vector", UNDEC, None, f"{tn} has another shape")
                continue
            if reg.kind == "array":
                wide(chk, pre + op, tn, reg)
            if static and n is not None:
                cap = n if "VP_N=" in "".join(unit["defs"]) else None
                reg.declared = n
            en = chk.analyse(unit, pre + op, layout={0: tn}, facts=reg.init_facts())
            if en.err:
                continue
            fn(unit, static, pre, tn, reg, en)


def codes_for(unit, static, pre):
    return unit["codes"] if static or pre == "vp_v_" else None


def c12(chk, tier):
    def go(unit, static, pre, tn, reg, en):
        if reg.kind == "array":
            chk.ob(en.name, "the registry has room for exactly the declared number of entries",
                   PROVED if reg.cap == reg.declared else REFUTED, "include/xitren/comm", f"{tn}: room for {reg.cap}, declared {reg.declared}")
        codes = codes_for(unit, static, pre)
        if reg.kind == "vector" and codes:
            codes = dict(codes)
        check_add(chk, en, reg, A1, codes, unit)
        # some way of accepting exists
        acc = [r for r in en.rets() if codes is None or (r.ret is not None and is_int(r.ret) and sval(r.ret) == codes["ok"])]
        chk.ob(en.name, "a registration can be accepted", PROVED if acc else (UNDEC if any(r.ret is not None and not is_int(r.ret) for r in en.rets()) else REFUTED),
               en.loc, "no path reports success")
    each(chk, tier, "add", go)


def c13(chk, tier):
    def go(unit, static, pre, tn, reg, en):
        codes = codes_for(unit, static, pre)
        check_remove(chk, en, reg, A1, codes, unit)
        acc = [r for r in en.rets() if codes is None or (r.ret is not None and is_int(r.ret) and sval(r.ret) == codes["ok"])]
        chk.ob(en.name, "an entry can be removed", PROVED if acc else (UNDEC if any(r.ret is not None and not is_int(r.ret) for r in en.rets()) else REFUTED),
               en.loc, "no path reports success")
    each(chk, tier, "remove", go)


def all_events(events):
    """Every event, with those inside loops."""
    for e in events:
        yield e, None
        if e.kind == "loop":
            for al in e.loop.alts:
                for x, l in all_events(al.events):
                    yield x, (l or al)


def deliveries(events, reg, an):
    """Deliveries to anybody: virtual calls, and stores into registered value sinks."""
    return [(e, al) for e, al in all_events(events) if e.kind in ("vcall", "icall")]


def is_datum(an, ev, t, size):
    """Is t the caller's datum (a pointer to it, or its value)?"""
    if t is A1:
        return PROVED
    if t.op == "ld" and t.a[0] is A1 and t.a[1] == size:
        return PROVED
    if t.w == 64 and ev.mem is not None:
        r, off = an.root(t)
        if r is not None and r.op == "alloca":
            st = engine.State()
            st.facts = ev.facts
            v = an.load(ev.mem, t, size, st)
            if v.op == "ld" and v.a[0] is A1 and v.a[1] == size and v.a[2] == 0:
                return PROVED
            if is_int(v) or v.op == "arg":
                return REFUTED
            return UNDEC
    if is_int(t) or t.op in ("arg", "fp"):
        return REFUTED
    if t.op == "ld" and t.a[0].op == "arg":
        return REFUTED
    return UNDEC


def sink_calls(unit, pre, al, el, an):
    """What a way through the loop does to entry el: (kind, event)."""
    out = []
    for e in al.events:
        if e.kind == "vcall" and e.obj is el:
            out.append(("vcall", e))
        elif e.kind in ("store", "rmw"):
            r, off = an.root(e.addr)
            if r is el:
                out.append(("store", e))
        elif e.kind in ("call", "icall") and any(a.w == 64 and an.root(a)[0] is el for a in e.args if not is_int(a)):
            out.append(("call", e))
        elif e.kind == "loop":
            out.append(("loop", e))
    return out


def c14(chk, tier):
    def go(unit, static, pre, tn, reg, en):
        codes = codes_for(unit, static, pre)
        size = const_of(unit, "vp_sizeof_T")
        plain = pre == "vp_"
        slot = slot_of(unit, "vp_sink", "data") if plain else None
        dslot = slot_of(unit, "vp_vsink" if not plain else "vp_sink", "disconnect")

        def per_alt(al, el):
            an = en.an
            acts = [(k, e) for k, e in visited_acts(unit, pre, al, el, an)]
            if plain:
                calls = [e for k, e in acts if k == "vcall" and e.slot == slot]
                other = [e for k, e in acts if not (k == "vcall" and e.slot == slot)]
                if len(calls) != 1:
                    wrong = [e for e in other if e.kind == "vcall"]
                    opaque = [e for e in other if e.kind != "vcall"]
                    yield (UNDEC if opaque and not calls else REFUTED,
                           f"{len(calls)} deliveries to one entry on this way" + (f"; calls virtual slot {wrong[0].slot}" if wrong else ""), None)
                    return
                c = calls[0]
                yield (eqv(al.st.facts, c.args[1], A0) if len(c.args) > 1 else UNDEC, f"the source passed is {c.args[1]}", c.loc)
                yield (is_datum(an, c, c.args[2], size) if len(c.args) > 2 else UNDEC, f"the data passed is {c.args[2]}", c.loc)
                for e in other:
                    if e.kind == "vcall":
                        yield (REFUTED, f"also calls virtual slot {e.slot} of the entry", e.loc)
            else:
                sts = [e for k, e in acts if k == "store" and e.kind == "store" and e.atomic]
                st2 = [e for k, e in acts if k == "store" and e.kind == "rmw" and e.rop == "xchg"]
                wrong = [e for k, e in acts if k == "vcall"]
                if wrong:
                    yield (REFUTED, f"calls virtual slot {wrong[0].slot} of the entry", wrong[0].loc)
                if len(sts) + len(st2) != 1:
                    opaque = [e for k, e in acts if k == "loop"] or [e for k, e in acts if k == "store" and e.kind in ("store", "rmw") and e not in sts + st2]
                    yield (UNDEC if opaque else REFUTED, f"{len(sts) + len(st2)} deliveries to one entry on this way", None)
                    return
                s = (sts + st2)[0]
                yield (is_datum(an, s, s.val, size), f"the value delivered is {s.val}", s.loc)

        n = 0
        for r in en.recs:
            if r.kind in ("terminate", "noreturn", "unwind") or r.facts.empty():
                continue
            loc = rec_loc(r, en)
            ok = r.kind == "ret" and (codes is None or (r.ret is not None and is_int(r.ret) and sval(r.ret) == codes["ok"]))
            v, e = unchanged(en, reg, r)
            chk.ob(en.name, "a notification leaves the registry as it is", v, e.loc if e is not None else loc, f"{e}")
            if ok:
                n += 1
                check_foreach(chk, en, reg, r, per_alt, "every registered entry gets the data exactly once, in order", loc)
            else:
                ds = sum(1 for e, al in all_events(r.events) if e.kind == "vcall" or (e.kind == "store" and e.atomic and al is not None))
                chk.ob(en.name, "a notification that reports no success delivers nothing", REFUTED if ds else PROVED, loc, "delivers although the status is not success")
                st = sval(r.ret) if r.ret is not None and is_int(r.ret) else None
                if codes and st == codes["broken"] and reg.kind == "array":
                    chk.ob(en.name, "broken data is reported only when the count exceeds the capacity", PROVED if r.facts.empty() else REFUTED, loc,
                           "reported for a well-formed registry")
                elif codes and st is not None and st not in (codes["recursion"],):
                    chk.ob(en.name, "a well-formed idle registry is always served", REFUTED if not guard_lits(reg, r) else UNDEC, loc, f"status {st}")
                elif codes and st == codes["recursion"] and not guard_lits(reg, r):
                    chk.ob(en.name, "recursion is reported only when the guard is up", REFUTED, loc, "the refusing path depends on no guard")
        chk.ob(en.name, "a notification can succeed", PROVED if n else (UNDEC if any(r.ret is not None and not is_int(r.ret) for r in en.rets()) else REFUTED), en.loc, "no path delivers")
    each(chk, tier, "notify", go)


def visited_acts(unit, pre, al, el, an):
    f = al.st.facts
    out = []
    for e in al.events:
        if e.kind == "vcall":
            if same_obj(f, e.obj, el):
                out.append(("vcall", e))
        elif e.kind in ("store", "rmw"):
            r, off = an.root(e.addr)
            if r is not None and same_obj(f, r, el):
                out.append(("store", e))
        elif e.kind in ("call", "icall"):
            out.append(("call", e))
        elif e.kind == "loop":
            out.append(("loop", e))
    return out


def same_obj(f, a, b):
    return strip_unk(a) is strip_unk(b)


def strip_unk(t):
    if t.op == "unk" and len(t.a) >= 2:
        return mk("ld", (t.a[0], t.a[1], 0), t.w)
    return t


def guard_lits(reg, r):
    """Literals of the path that depend on a member of the subject other than the registry itself."""
    an_addrs = []
    for a, p in r.facts.lits:
        for q in find(a, lambda x: x.op in ("ald", "ld")):
            d = sub(q.a[0], reg.this)
            if is_int(d) and 0 < sval(d) < (1 << 24):
                if reg.kind == "array" and (sval(d) == reg.cnt or reg.off <= sval(d) < reg.off + 8 * reg.cap):
                    continue
                if reg.kind == "vector" and reg.off <= sval(d) < reg.off + 24:
                    continue
                an_addrs.append((q, a, p))
    return an_addrs


def c15(chk, tier):
    def go(unit, static, pre, tn, reg, en):
        if not static or pre != "vp_":
            return
        codes = unit["codes"]
        an = en.an
        recs = [r for r in en.recs if r.kind == "ret" and not r.facts.empty()]
        if any(r.ret is None or not is_int(r.ret) for r in recs):
            chk.ob(en.name, "the outcome is a known status", UNDEC, en.loc, "")
            return
        ref = [r for r in recs if sval(r.ret) == codes["recursion"]]
        if not ref:
            chk.ob(en.name, "a nested notification is refused", REFUTED, en.loc, "no path reports the recursion")
            return
        guards = {}
        for r in ref:
            gl = guard_lits(reg, r)
            for q, a, p in gl:
                guards.setdefault((q.a[0], q.w // 8), []).append((q, a, p, r))
            nd = [e for e, al in all_events(r.events) if e.kind in ("vcall", "icall")]
            chk.ob(en.name, "a refused notification delivers nothing", REFUTED if nd else PROVED, rec_loc(r, en), "a delivery happens on the refusing path")
        if len(guards) != 1:
            chk.ob(en.name, "the guard is one member of the subject", UNDEC, en.loc, f"{len(guards)} candidates")
            return
        (gaddr, gsize), uses = next(iter(guards.items()))

        def refuses(v):
            """Would a notification that finds v in the guard be refused? True/False/None"""
            if v is None:
                return None
            res = set()
            for q, a, p, r in uses:
                if v.w != q.w:
                    return None
                t = subst(a, {q: v})
                f = Facts()
                h = f.holds(t)
                if h is None:
                    return None
                res.add(h == p)
            return next(iter(res)) if len(res) == 1 else None

        def gload(mem, st):
            v = an.load(mem, gaddr, gsize, st)
            return v

        def st_of(f):
            s = engine.State()
            s.facts = f
            return s

        def judge(v, want):
            """The guard value v is up (want) / down."""
            x = refuses(v)
            if x is None:
                return UNDEC
            return PROVED if x == want else REFUTED
        for r in ref:
            v = gload(r.st.mem, r.st)
            base = mk("ld", (gaddr, gsize, 0), gsize * 8)
            touched = any(e.kind in ("store", "rmw") and e.addr is gaddr for e, _ in all_events(r.events))
            if not touched:
                chk.ob(en.name, "a refused notification leaves the guard up", PROVED, rec_loc(r, en))
            else:
                chk.ob(en.name, "a refused notification leaves the guard up", judge(v, True), rec_loc(r, en), f"the guard is {v} afterwards")
        for r in recs:
            if r in ref:
                continue
            loc = rec_loc(r, en)
            first = None
            down = None
            for e, al in all_events(r.events):
                if e.kind in ("vcall", "icall"):
                    if al is not None:
                        f = al.st.facts
                    else:
                        f = r.facts
                    v = gload(e.mem, st_of(f))
                    for w_, feas in values_of(an, v):
                        if w_ is not v:
                            if judge_or_unk(w_, judge, refuses, r, uses) == REFUTED and feas:
                                v = w_
                    chk.ob(en.name, "the guard is up at every delivery", judge_or_unk(v, judge, refuses, r, uses), e.loc, f"the guard is {v} at this delivery")
            # a served notification found the guard down
            touched = any(e.kind in ("store", "rmw", "cmpxchg") and e.addr is gaddr for e, _ in all_events(r.events))
            v = gload(r.st.mem, r.st)
            if touched:
                chk.ob(en.name, "the guard is down after every notification that ran", judge(v, False), loc, f"the guard is {v} on return")
            served = any(e.kind == "loop" or e.kind == "vcall" for e in r.events)
            found = [(q, a, p) for q, a, p in guard_lits(reg, r) if q.a[0] is gaddr]
            if served and not found:
                chk.ob(en.name, "a notification runs only when the guard was found down", REFUTED, loc, "delivers without having looked at the guard")
            elif served:
                chk.ob(en.name, "a notification runs only when the guard was found down", PROVED, loc)
        # construction
        ec = chk.analyse(unit, "vp_ctor", layout={0: tn})
        for r in ec.rets():
            v = ec.an.load(r.st.mem, gaddr, gsize, r.st)
            chk.ob(ec.name, "the guard is down at construction", judge(v, False) if v.op != "ld" else REFUTED, rec_loc(r, ec), f"the guard is {v}")
        # nobody else touches the guard
        for op in ("add", "remove", "clear"):
            eo = chk.analyse(unit, "vp_" + op, layout={0: tn}, facts=reg.init_facts())
            bad = None
            for r in eo.recs:
                for e, al in all_events(r.events):
                    if e.kind in ("store", "rmw", "cmpxchg") and e.addr is gaddr:
                        bad = e
            if not eo.err:
                chk.ob(eo.name, "registration and removal leave the guard alone", UNDEC if bad else PROVED, bad.loc if bad else eo.loc, "the guard is written")
    each(chk, tier, "notify", go)


def judge_or_unk(v, judge, refuses, r, uses):
    if v.op == "ld" and v.a[2] == 0:
        # never raised: the value found at entry, which this path knows to be the idle one
        return REFUTED
    return judge(v, True)


def c16(chk, tier):
    def mk_go(what):
        def go(unit, static, pre, tn, reg, en):
            plain = pre == "vp_"
            slot = slot_of(unit, "vp_sink" if plain else "vp_vsink", "disconnect")

            def per_alt(al, el):
                acts = visited_acts(unit, pre, al, el, en.an)
                calls = [e for k, e in acts if k == "vcall" and e.slot == slot]
                wrong = [e for k, e in acts if k == "vcall" and e.slot != slot]
                if len(calls) != 1:
                    opaque = [e for k, e in acts if k in ("call", "loop")]
                    yield (UNDEC if opaque else REFUTED, f"{len(calls)} disconnections of one entry" + (f"; calls virtual slot {wrong[0].slot}" if wrong else ""), None)
                    return
                c = calls[0]
                yield (eqv(al.st.facts, c.args[1], A0) if len(c.args) > 1 else UNDEC, f"the source passed is {c.args[1]}", c.loc)
                for e in wrong:
                    yield (REFUTED, f"also calls virtual slot {e.slot}", e.loc)
            for r in en.recs:
                if r.kind != "ret" or r.facts.empty():
                    continue
                loc = rec_loc(r, en)
                check_foreach(chk, en, reg, r, per_alt, f"every registered entry is disconnected exactly once ({what})", loc, ordered=False)
                if what == "clear":
                    ln = reg.length(en, r)
                    v = eqv(r.facts, ln, Z)
                    if v != PROVED and any(w == "call" for w, _, _ in mutation_events(en, reg, r)):
                        v = UNDEC
                    chk.ob(en.name, "the registry is empty after clearing", v, loc, f"length becomes {ln}")
        return go
    each(chk, tier, "clear", mk_go("clear"))
    each(chk, tier, "dtor", mk_go("destruction"))


def values_of(an, v):
    """The values a loop-carried term may have: before the loop, and after each way through it."""
    yield v, True
    if v.op != "phi":
        return
    for lps in an.loops_seen.values():
        for lp in lps:
            for key, s in list(lp.sym.items()) + list(lp.csym.items()):
                if s is not v:
                    continue
                i0 = lp.cinit.get(key) if isinstance(key, tuple) else lp.inits.get(key)
                if i0 is not None:
                    yield i0, True
                for al in lp.alts:
                    nx = al.nexts.get(key)
                    if nx is not None and nx is not v and not al.st.facts.empty():
                        yield nx, True
