import re
"""C19, C20: published and observed values."""
from ..core import *
from ..terms import *
from .. import build, engine
from .observers import const_of, all_events, find_layout
from .registry import rec_loc

A1, A2 = mk("arg", (1,), 64), mk("arg", (2,), 64)
A0 = mk("arg", (0,), 64)
QUICK = ("int", "unsigned char", "long long", "double")
DEEP = QUICK + ("short", "unsigned", "float", "unsigned long")
OPAQUE = (r"values::observable<.*>::notify_observers\(",)
WORDS = {"postinc": "x++", "postdec": "x--", "preinc": "++x", "predec": "--x", "add": "x += n", "sub": "x -= n", "set": "x = v"}


def quiet(an, e, st):
    """Publishing leaves its (const) datum alone."""
    return [] if "::notify_observers(" in (e.dem or "") else None


class An(engine.Analysis):
    """The value cell is shared with other threads; everything else is not."""
    cell = None

    def shared(self, addr):
        return addr is self.cell


def ana(chk, unit, fn, cell=None, **kw):
    class A(An):
        pass
    A.cell = cell
    return chk.analyse(unit, fn, cls=A, **kw)


def cell_of(chk, unit, fn):
    """Address of the stored value: what the getter loads."""
    en = chk.analyse(unit, fn)
    for r in en.rets():
        ls = [e for e in r.events if e.kind == "load"]
        if len(ls) == 1:
            return ls[0].addr, ls[0], r, en
        if r.ret is not None and r.ret.op == "ld":
            return r.ret.a[0], None, r, en
    return None, None, None, en


def publishes(r):
    return [(e, al) for e, al in all_events(r.events) if e.kind == "call" and "::notify_observers(" in (e.dem or "")]


def value_at(en, e, t, size, facts):
    """The value a reference argument leads to."""
    st = engine.State()
    st.facts = facts
    return en.an.load(e.mem, t, size, st)


def judge(facts, got, want, isint):
    if got is want:
        return PROVED
    if not isint:
        # no arithmetic on floating terms is interpreted: only plainly different values are refuted
        if got.op in ("int", "fp", "ald", "arg") or got.op == "undef":
            return REFUTED
        return UNDEC
    return eqv(facts, got, want, free={x for t in (got, want) for x in find(t, lambda y: y.op == "ald")})


def c19(chk, tier):
    for T_ in QUICK if tier == "quick" else DEEP:
        isint = T_ not in ("double", "float")
        unit = build.unit("values", [f"VP_T={T_}"], opaque=OPAQUE)
        size = const_of(unit, "vp_sizeof_T")
        w = size * 8
        for pre in ("vp_s_", "vp_d_"):
            cell, ld, r0, eg = cell_of(chk, unit, pre + "get")
            if cell is None:
                chk.ob(pre + "get", "reading yields the stored value", UNDEC, eg.loc, "the stored value is not recognised")
                continue
            chk.ob(pre + "get", "reading yields the stored value in one atomic step", PROVED if ld is not None and ld.atomic not in ("", "not_atomic") and (r0.ret is ld.val or not isint) else REFUTED if ld is None or ld.atomic in ("", "not_atomic") else UNDEC,
                   eg.loc, "the read is not atomic" if ld is None or ld.atomic in ("", "not_atomic") else f"returns {r0.ret}")
            for op in ("postinc", "postdec", "preinc", "predec", "add", "sub", "set"):
                en = ana(chk, unit, pre + op, cell, effects=quiet)
                if en.err:
                    continue
                for r in en.recs:
                    if r.kind in ("noreturn", "unwind", "terminate") or r.facts.empty():
                        continue
                    check_op(chk, en, r, op, cell, size, isint)
                if not en.rets():
                    chk.ob(en.name, "the operator returns", REFUTED, en.loc, "")


def check_op(chk, en, r, op, cell, size, isint):
    w = size * 8
    loc = rec_loc(r, en)
    ev = list(all_events(r.events))
    rule = f"{WORDS[op]} is one atomic step by exactly that amount"
    ws = [(e, al) for e, al in ev if e.kind in ("store", "rmw", "cmpxchg") and e.addr is cell]
    inloop = any(al is not None for _, al in ws)
    cas = any(e.kind == "cmpxchg" for e, _ in ws) or inloop
    pubs = publishes(r)
    if cas:
        chk.ob(en.name, rule, UNDEC, ws[0][0].loc, "a compare-and-exchange loop")
        n = len(pubs)
        chk.ob(en.name, "the new value is published exactly once", UNDEC if any(al for _, al in pubs) else PROVED if n == 1 else REFUTED, loc, f"{n} publications")
        return
    if len(ws) != 1:
        chk.ob(en.name, rule, REFUTED, ws[1][0].loc if len(ws) > 1 else loc, f"{len(ws)} writes of the value")
        return
    e = ws[0][0]
    x = mk("arg", (1,), 32)
    delta = {"postinc": const(1, w), "preinc": const(1, w), "postdec": const(-1, w), "predec": const(-1, w)}.get(op)
    if op in ("add", "sub"):
        d = x if w == 32 else trunc(x, w) if w < 32 else sext(x, w)
        delta = d if op == "add" else neg(d)
    if op == "set":
        want = en.an.args[1]
        if want.w != w:
            want = trunc(want, w) if want.w > w else want
        new = old = None
        if e.kind == "rmw" and e.rop != "xchg":
            chk.ob(en.name, rule, REFUTED, e.loc, f"{e.rop} instead of a store")
            return
        at = e.atomic not in ("", "not_atomic")
        v = e.val
        chk.ob(en.name, rule, both(PROVED if at else REFUTED, judge(r.facts, v, want, isint)), e.loc, f"stores {v}" + ("" if at else " without atomicity"))
        new = want
    else:
        if e.kind == "store":
            chk.ob(en.name, rule, REFUTED, e.loc, "a separate read and write: an update between them is lost")
            return
        old = e.old
        if not isint:
            ok = e.rop in ("fadd", "fsub")
            chk.ob(en.name, rule, UNDEC, e.loc, "floating-point arithmetic is not interpreted")
            new = None
        else:
            if e.rop not in ("add", "sub"):
                chk.ob(en.name, rule, REFUTED if e.rop in ("xchg", "and", "or", "xor") else UNDEC, e.loc, f"{e.rop}")
                return
            by = e.val if e.rop == "add" else neg(e.val)
            chk.ob(en.name, rule, eqv(r.facts, by, delta), e.loc, f"changes the value by {by}, not by {delta}")
            new = add(old, delta)
    # what is returned
    if new is not None:
        want = old if op.startswith("post") else new
        if r.ret is not None:
            got = r.ret if r.ret.w == w else trunc(r.ret, w)
            chk.ob(en.name, f"{WORDS[op]} returns the {'old' if op.startswith('post') else 'new'} value", judge(r.facts, got, want, isint), loc, f"returns {got}; the {'old' if op.startswith('post') else 'new'} value is {want}")
    # what is published
    n = len(pubs)
    loops = any(q.kind in ("loop", "vcall", "icall") for q, _ in ev)
    if n != 1 or pubs[0][1] is not None:
        chk.ob(en.name, "the new value is published exactly once", UNDEC if loops else REFUTED, loc, f"{n} publications")
        return
    p = pubs[0][0]
    chk.ob(en.name, "the new value is published exactly once", PROVED, p.loc)
    order = [q for q, _ in ev]
    chk.ob(en.name, "the value is published after it is stored", PROVED if order.index(p) > order.index(e) else REFUTED, p.loc, "published before it is stored")
    chk.ob(en.name, "the value is published to the object's own observers", eqv(r.facts, p.args[0], A0), p.loc, f"{p.args[0]}")
    if new is not None:
        got = value_at(en, p, p.args[1], size, r.facts)
        chk.ob(en.name, "the published value is the new one", judge(r.facts, got, new, isint), p.loc, f"publishes {got}; the new value is {new}")


# ---------------------------------------------------------------- C20
BOOL = re.compile(r"^std::function<.*>::operator bool\(\) const$|^bool std::operator(==|!=)<.*>\(std::function<")
CALL = re.compile(r"^std::function<.*>::operator\(\)\(.*\) const$|^[^(]* std::function<.*>::operator\(\)\(")


def is_call(e):
    d = e.get("dem") or ""
    return e.kind == "call" and "::operator()(" in d and "std::function<" in d


def is_bool(e):
    return e.kind == "call" and BOOL.search(e.get("dem") or "")


def contents(events, slot):
    """Which callback each function object holds after the events: 'f' the given one, 'old', 'none', '?'."""
    c = {slot: "old", A1: "f"}
    for e in events:
        if e.kind == "loop":
            c[slot] = "?" if any(mentions(a, slot) for al in e.loop.alts for x in al.events for a in x.get("args", ()) or ()) else c[slot]
            continue
        if e.kind != "call":
            continue
        d = e.dem or ""
        a = list(e.args)
        if "~function" in d or "~_Function_base" in d or is_bool(e) or is_call(e):
            continue
        if "std::function<" in d or "std::swap" in d:
            m = re.search(r"::(function|operator=|swap)(<.*>)?\((.*)\)(?: const)?$", d)
            if m and a:
                if m.group(1) == "swap" and len(a) == 2:
                    c[a[0]], c[a[1]] = c.get(a[1], "?"), c.get(a[0], "?")
                    continue
                prm = m.group(3)
                if "nullptr_t" in prm or prm == "" and len(a) == 1:
                    c[a[0]] = "none"
                    continue
                if prm.startswith("std::function<") and len(a) > 1:
                    c[a[0]] = c.get(a[1], "?")
                    if prm.endswith("&&") and a[1] is not a[0]:
                        c[a[1]] = "moved"
                    continue
        for x in a:
            if x in c and not d.endswith(" const"):
                c[x] = "?"
    return c


def c20(chk, tier):
    for T_ in QUICK if tier == "quick" else DEEP:
        isint = T_ not in ("double", "float")
        unit = build.unit("values", [f"VP_T={T_}"], opaque=OPAQUE)
        size = const_of(unit, "vp_sizeof_T")
        cell, ld, r0, eg = cell_of(chk, unit, "vp_value")
        tn = find_layout(unit, "xitren::comm::values::observed<")
        fs = [f for f in unit["layouts"][tn].flat() if f.type.startswith("std::function<") or f.type.startswith("function_type")] if tn else []
        if cell is None or len(fs) != 1:
            chk.ob("vp_notification", "the observed value is recognised", UNDEC, None, f"{tn}")
            continue
        slot = addc(A0, fs[0].off)
        chk.ob("vp_value", "reading yields the stored value", PROVED if ld is not None or r0.ret.op == "ld" else UNDEC, eg.loc, "")
        en = ana(chk, unit, "vp_notification", cell, effects=lambda an, e, st: [] if is_bool(e) or is_call(e) else None)
        sizes = mk("ld", (A2, size, 0), size * 8)
        for r in en.recs:
            if r.kind in ("noreturn", "terminate", "unwind") or r.facts.empty():
                continue
            loc = rec_loc(r, en)
            ev = list(all_events(r.events))
            if any(al is not None for _, al in ev):
                chk.ob(en.name, "the datum is stored exactly once", UNDEC, loc, "a loop")
                continue
            evs = [e for e, _ in ev]
            ws = [e for e in evs if e.kind in ("store", "rmw", "cmpxchg") and e.addr is cell]
            opq = [e for e in evs if e.kind in ("icall", "vcall") or e.kind == "call" and not (is_bool(e) or is_call(e) or "~" in (e.dem or ""))]
            chk.ob(en.name, "the datum is stored exactly once", PROVED if len(ws) == 1 else UNDEC if opq and not ws else REFUTED, ws[-1].loc if ws else loc, f"{len(ws)} stores on this path")
            for e in ws:
                chk.ob(en.name, "the stored value is the datum", judge(r.facts, e.val, sizes, isint) if e.kind == "store" or e.get("rop") == "xchg" else UNDEC, e.loc, f"stores {e.val}")
                chk.ob(en.name, "the value is stored atomically", PROVED if e.atomic not in ("", "not_atomic") else REFUTED, e.loc, "a plain store")
            calls = [e for e in evs if is_call(e)]
            tests = [e for e in evs if is_bool(e) and e.args and e.args[0] is slot]
            setl = None
            for e in tests:
                h = r.facts.holds(e.ret) if e.ret.w == 1 else r.facts.holds(lnot(eq(e.ret, const(0, e.ret.w))))
                if h is not None:
                    setl = h if "operator==" not in e.dem else not h
            known = setl is not None
            chk.ob(en.name, "a callback is called exactly once if one is set",
                   (PROVED if len(calls) == (1 if setl else 0) else REFUTED) if known else (UNDEC if opq else REFUTED), calls[0].loc if calls else loc,
                   f"{len(calls)} calls on the path where the callback is {'set' if setl else 'not set' if known else 'not known to be set'}")
            for e in calls:
                order = evs
                if ws:
                    chk.ob(en.name, "the datum is stored before the callback sees it", PROVED if order.index(ws[0]) < order.index(e) else REFUTED, e.loc, "the callback runs before the datum is stored")
                chk.ob(en.name, "the callback called is the one set", PROVED if e.args[0] is slot else UNDEC, e.loc, f"{e.args[0]}")
                if len(e.args) > 1:
                    a = e.args[1]
                    if a.w == 64 and en.an.root(a)[0] is not None and en.an.root(a)[0].op == "alloca":
                        a = value_at(en, e, a, size, r.facts)
                    a = a if a.w == size * 8 else trunc(a, size * 8) if a.w > size * 8 else a
                    chk.ob(en.name, "the callback gets the datum", judge(r.facts, a, sizes, isint), e.loc, f"gets {a}")
        for fn, what in (("vp_on_update", "f"), ("vp_on_update_raw", "f"), ("vp_from", "f"), ("vp_default", "none")):
            en = chk.analyse(unit, fn)
            for r in en.rets():
                if r.facts.empty():
                    continue
                got = contents(r.events, slot).get(slot, "?")
                rule = {"vp_from": "a callback given at construction is the one set", "vp_default": "no callback is set initially"}.get(fn, "setting a callback replaces the previous one")
                chk.ob(fn, rule, PROVED if got == what else REFUTED if got in ("old", "none", "f", "moved") else UNDEC, rec_loc(r, en),
                       {"old": "the callback is left as it was", "none": "no callback is set", "moved": "the callback set was moved away", "f": "a callback is set"}.get(got, got))
