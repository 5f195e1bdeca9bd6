"""C25-C28: the interval event and its background thread."""
import re
from ..core import *
from ..terms import *
from .. import build, engine
from .observers import all_events
from .registry import rec_loc
from . import threads as th
from .threads import A0, analyse, body_name, body_base, accesses, quiet, flat_events, uniq, is_start, pair, before_start

A1 = mk("arg", (1,), 64)
FUNC = re.compile(r"^std::function<void \(\)>::operator\(\)\(")
WAIT = re.compile(r"^std::(?:atomic|__atomic_base|atomic_flag)\b.*::wait\(")
NOTIFY = re.compile(r"^std::(?:atomic|__atomic_base|atomic_flag)\b.*::notify_(one|all)\(")
SLEEP = re.compile(r"this_thread::(?:\w+::)*sleep_for<.*?std::ratio<(\d+)l?, (\d+)l?>")
SLEEPY = re.compile(r"sleep|wait_for|wait_until|nanosleep")
NOW = re.compile(r"^std::chrono::.*::now\(\)$")
OPS = ("vp_stop", "vp_period", "vp_check", "vp_set_period", "vp_set_check")


class Shape:
    what = "interval"
    qoff = qsize = None
    N = P = T = stride = 1
    ring, rsize = -1, 0

    def __init__(self, unit):
        self.unit, self.tn = unit, "xitren::func::interval_event"
        self.rec = unit["layouts"][self.tn]

    def layout(self):
        return {0: self.tn}


class Model:
    what = "interval"

    def __init__(self, chk):
        self.unit = build.unit("interval", [])
        self.sh, self.chk, self.tag = Shape(self.unit), chk, "interval"
        self.bname = body_name(self.unit, "interval_event")
        self.base = body_base(th.Probe(self.unit["by"][self.bname], self.unit, effects=quiet).run())
        self.body = analyse(chk, self.sh, self.bname, base=self.base)
        self.op = {f: analyse(chk, self.sh, f) for f in OPS if f in self.unit["by"]}
        self.ctor = analyse(chk, self.sh, "vp_ctor")
        self.dtor = analyse(chk, self.sh, "vp_dtor")
        for en in [self.body, self.ctor, self.dtor] + list(self.op.values()):
            if en.an is None:
                raise Broken("an operation cannot be summarised")


def obj(c):
    """The offset of a plain cell of the object, or None."""
    return c.off if c is not None and c.q is None and is_int(c.rest) and ival(c.rest) == 0 else None


# ------------------------------------------------------------------ C25, C26
def c25(chk, tier):
    m = Model(chk)
    acc = accesses(m, m.body)
    before_start(chk, m, m.ctor, acc)
    en, an = m.ctor, m.ctor.an
    rule = "a member the thread uses has a value when the thread starts"
    for r in en.rets():
        st = next((e for e, al in flat_events(r.events) if is_start(e)), None)
        if st is None or r.facts.empty():
            continue
        s = engine.State()
        s.facts, s.mem = st.facts, st.mem
        before = []
        for e in r.events:
            if e is st:
                break
            before.append(e)
        done = set()
        for a in acc:
            lo, hi = a.span[1:]
            if (lo, hi) in done or FUNC.search(a.what or ""):
                continue
            done.add((lo, hi))
            if hi - lo > 8:
                continue
            v = an.load(st.mem, addc(A0, lo), hi - lo, s)
            raw = v.op == "undef" or v.op == "ld" and v.a[2] == 0 and v.a[0] is addc(A0, lo)
            if raw and any(e.kind == "call" and any(x.w == 64 and obj(an.dec(x)) == lo for x in e.args) for e in before):
                raw = False
            chk.ob(m.tag + ":ctor", rule, REFUTED if raw else PROVED, st.loc, f"{th.name_of(m, a.span)} has no value yet")
        for a in acc:
            if FUNC.search(a.what or ""):
                ok = any(e.kind in ("call", "store", "copy") and (
                    e.kind == "call" and e.args and obj(an.dec(e.args[0])) == a.span[1] or e.kind == "store" and (o := obj(an.dec(e.addr))) is not None and a.span[1] <= o < a.span[2] or
                    e.kind == "copy" and (o := obj(an.dec(e.dst))) is not None and a.span[1] <= o < a.span[2]) for e in before)
                chk.ob(m.tag + ":ctor", rule, PROVED if ok else REFUTED, st.loc, "the function is not stored yet")
                break


def is_wait(e):
    return e.kind == "call" and bool(WAIT.match(e.dem or ""))


def c26(chk, tier):
    m = Model(chk)
    body = accesses(m, m.body)
    for f, en in m.op.items():
        up = is_wait if f == "vp_stop" else None
        acc = accesses(m, en) if up is None else upto(m, en)
        pair(chk, m.tag, m, body, en, acc, en.name)
    pair(chk, m.tag, m, body, m.dtor, upto(m, m.dtor), m.dtor.name)


def upto(m, en):
    """Accesses before the thread is known to be done."""
    out, seen = [], set()
    for r in en.recs:
        if r.facts.empty() or r.kind == "noreturn":
            continue
        cut = is_wait
        if not any(is_wait(e) for e, al in all_events(r.events)):
            cut = lambda e: e.kind == "call" and "::~" in (e.dem or "")
        def stop(e, cut=cut):
            return cut(e) or e.kind == "loop" and any(cut(x) for al in e.loop.alts for x in al.events)
        th.walk_acc(m, en.an, r.events, frozenset(), out, seen, stop, [])
    return out


# ------------------------------------------------------------------ C27
def flag_cell(m):
    """The cell the thread looks at to decide whether to go on, and stop clears."""
    an = m.body.an
    read, changed = {}, set()
    for r, lv, al in uniq(m.body.recs):
        for e in lv:
            if e.kind in ("rmw", "load", "cmpxchg"):
                o = obj(an.dec(e.addr))
                if o is not None:
                    read.setdefault(o, e)
    for en in (m.op.get("vp_stop"), m.dtor):
        for r in en.recs if en else ():
            for e, al in all_events(r.events):
                if e.kind in th.MODS and (o := obj(en.an.dec(e.addr))) in read and e.get("atomic"):
                    changed.add(o)
    return next(iter(changed)) if len(changed) == 1 else None


def initial_mem(m):
    for r in m.ctor.rets():
        if not r.facts.empty():
            return r
    return None


def lits_with(m, an, r, get):
    """The path's conditions that depend on the object, with its cells replaced by what get says."""
    out = []
    for a, p in r.facts.lits:
        mp = {}
        for x in atoms(a):
            if x.op in ("ld", "ald") and obj(an.dec(x.a[0])) is not None and (x.op == "ald" or x.a[2] == 0):
                mp[x] = get(x.a[0], x.a[1] if x.op == "ld" else x.w // 8, x.w)
        if mp:
            out.append((a, p, subst(a, mp) if None not in mp.values() else None))
    return out


def value_in(an, r):
    return lambda addr, size, w: fit(an.load(r.st.mem, addr, size, r.st), w)


def fit(v, w):
    return v if v.w == w else trunc(v, w) if v.w > w else zext(v, w)


def stops(chk, m, en, flag):
    """The paths of stop (or the destructor) on which the thread is told to leave: [(record, clear, wait)]"""
    out = []
    for r in en.rets():
        if r.facts.empty():
            continue
        clr = wt = None
        for e, al in flat_events(r.events):
            if e.kind in th.MODS and obj(en.an.dec(e.addr)) == flag:
                v = e.val if e.kind == "store" else e.new
                if e.kind == "cmpxchg" and not e.ok:
                    continue
                if is_int(v) and ival(v) == 0:
                    clr = e
                    wt = None
            if clr is not None and wt is None:
                if is_wait(e) and obj(en.an.dec(e.args[0])) == flag and is_int(e.args[1]) and ival(trunc(e.args[1], 8) if e.args[1].w > 8 else e.args[1]) == 0:
                    wt = e
        if clr is not None and wt is None:
            # waiting by looking at the flag again and again
            seen_clear = False
            for e, al in flat_events(r.events):
                if e is clr:
                    seen_clear = True
                elif seen_clear and e.kind in ("load", "rmw") and obj(en.an.dec(e.addr)) == flag:
                    v = e.val if e.kind == "load" else e.old
                    if th.implies_set(r.facts, v):
                        wt = e
        out.append((r, clr, wt))
    return out


def c27(chk, tier):
    m = Model(chk)
    flag = flag_cell(m)
    ini = initial_mem(m)
    stop = m.op.get("vp_stop")
    if stop is None or ini is None:
        raise Broken("stop is not recognised")
    if flag is None:
        an = m.body.an
        loops = [e for r in m.body.recs if not r.facts.empty() for e in r.events if e.kind == "loop"]
        reads = [e for e, al in all_events([x for l in loops for x in [l]]) if e.kind in ("rmw", "load", "cmpxchg") and e.get("atomic") and obj(an.dec(e.addr)) is not None]
        opq = any(e.kind in ("vcall", "icall") for en in (stop, m.dtor, m.body) for r in en.recs for e, al in all_events(r.events))
        chk.ob(m.tag + ":vp_stop", "stopping makes the thread leave its loop", UNDEC if opq else REFUTED, stop.loc, "nothing the thread looks at is changed")
        return
    told = {}
    for name, en in (("vp_stop", stop), ("vp_dtor", m.dtor)):
        told[name] = stops(chk, m, en, flag)
    tell = [t for t in told["vp_stop"] if t[1] is not None]
    for name, en in (("vp_stop", stop), ("vp_dtor", m.dtor)):
        tag = m.tag + ":" + name
        tells = [t for t in told[name] if t[1] is not None]
        for r, clr, wt in told[name]:
            loc = rec_loc(r, en)
            if clr is not None:
                rule = "stop waits until the thread has signalled that it is done"
                opq = any(e.kind in ("vcall", "icall") or e.kind == "call" and (e.dem or "").startswith("std::thread::join(") for e, al in all_events(r.events))
                chk.ob(tag, rule, PROVED if wt is not None else UNDEC if opq else REFUTED, clr.loc, "stop returns without waiting for the thread")
                if name == "vp_dtor":
                    destroyed(chk, m, en, r, wt, tag)
                # stopping again
                rule = "stopping again has no effect"
                again = lits_with(m, en.an, r, value_in(en.an, r))
                v = repeat(again)
                chk.ob(tag, rule, v, clr.loc, "a second stop clears the flag again and waits for a thread that is gone")
                first = lits_with(m, en.an, r, value_in(m.ctor.an, ini))
                ok = holds_all(first)
                if len(tells) == 1:
                    chk.ob(tag, "the first stop reaches the thread", ok, clr.loc, "on a new object the condition of the stop does not hold")
            else:
                # nothing is announced: only when it has been before
                rule = "stopping makes the thread leave its loop"
                now = lits_with(m, en.an, r, value_in(m.ctor.an, ini))
                if not now:
                    opq = any(e.kind in ("vcall", "icall") or e.kind == "call" and (e.dem or "").startswith("std::thread::join(") for e, al in all_events(r.events)) or unknown(r)
                    chk.ob(tag, rule, UNDEC if opq else REFUTED, loc, "the thread is not told")
                    continue
                f = holds_all(now)
                chk.ob(tag, rule, PROVED if f == REFUTED else REFUTED if f == PROVED else UNDEC, loc, "on a new object the thread is not told")
                if tells or tell:
                    src = tells or tell
                    after = [holds_all(lits_with(m, en.an, r, value_in((en if tells else stop).an, t[0]))) for t in src]
                    chk.ob(tag, "only a stopped event is not stopped again", PROVED if PROVED in after else UNDEC if UNDEC in after else UNDEC, loc, "")
    body_signals(chk, m, flag, told)


def unknown(r):
    return any(x.op in ("call", "unk") for a, p in r.facts.lits for x in atoms(a))


def holds_all(ls):
    """PROVED: all conditions hold; REFUTED: one is false; UNDEC."""
    if any(t is not None and is_int(t) and bool(ival(t)) != p for a, p, t in ls):
        return REFUTED
    if all(t is not None and is_int(t) for a, p, t in ls):
        return PROVED
    return UNDEC


def repeat(ls):
    f = holds_all([(a, p, t) if t is not a else (a, p, const(1 if p else 0, 1)) for a, p, t in ls])
    return PROVED if f == REFUTED else REFUTED if f == PROVED else UNDEC


def destroyed(chk, m, en, r, wt, tag):
    body = accesses(m, m.body)
    for e in r.events:
        if e is wt:
            return
        if e.kind == "call" and "::~" in (e.dem or "") and e.args:
            c = en.an.dec(e.args[0])
            if obj(c) is None:
                continue
            sp = th.span(m, c, None)
            if any(th.overlap(sp, b.span) for b in body):
                chk.ob(tag, "nothing the thread uses is destroyed before it is done", REFUTED, e.loc, "destroyed before the thread has signalled")
                return


def body_signals(chk, m, flag, told):
    an, tag = m.body.an, m.tag + ":thread"
    waits = any(wt is not None and is_wait(wt) for ts in told.values() for r, c, wt in ts)

    def touches(e):
        return e.kind in ("rmw", "load", "store", "cmpxchg") and obj(an.dec(e.addr)) == flag

    def sets(e):
        if e.kind not in th.MODS or obj(an.dec(e.addr)) != flag or e.kind == "cmpxchg" and not e.ok:
            return False
        v = e.val if e.kind == "store" else e.new
        return v is not None and not (is_int(v) and ival(v) == 0)
    for r in m.body.recs:
        if r.kind == "forever" and not r.facts.empty():
            chk.ob(tag, "the thread leaves its loop when it is told to", REFUTED, r.events[-1].loc, "a loop of the thread is never left")
    # the ways on which the thread goes on
    seen = set()
    for r in m.body.recs:
        if r.facts.empty():
            continue
        for e in r.events:
            if e.kind != "loop":
                continue
            for al in e.loop.alts:
                if id(al) in seen or al.st.facts.empty():
                    continue
                seen.add(id(al))
                loc = al.events[0].loc if al.events else rec_loc(r, m.body)
                reads = [x for x in al.events if touches(x) and x.kind != "store"]
                busy = any(x.kind == "call" and (FUNC.match(x.dem or "") or SLEEPY.search(x.dem or "")) for x, _ in all_events(al.events))
                if not reads:
                    opq = any(x.kind in ("vcall", "icall", "loop") for x in al.events)
                    if busy:
                        chk.ob(tag, "the thread leaves its loop when it is told to", UNDEC if opq else REFUTED, loc, "a round of the loop does not look at the flag")
                    continue
                x = reads[-1]
                v = x.val if x.kind == "load" else x.old if x.kind == "rmw" else x.exp
                ok = decide(al.st.facts, eq(v, const(0, v.w)), False, (v,))
                chk.ob(tag, "the thread leaves its loop when it is told to", ok, x.loc, "the loop goes on although the flag was cleared")
                for s in al.events:
                    if sets(s) and s is not x and s.kind == "store":
                        # a plain set of the flag wipes out a stop that came in between
                        chk.ob(tag, "the thread signals only when it leaves", REFUTED, s.loc, "the flag is set again while the loop goes on: a stop in between is lost, and stop returns")
                # the function is called only in a round that found the flag set
                for s in al.events:
                    if s.kind == "call" and FUNC.match(s.dem or ""):
                        chk.ob(tag, "the function is called only while the event is running", decide(s.facts, eq(v, const(0, v.w)), False, (v,)) if al.events.index(s) > al.events.index(x) else UNDEC, s.loc, "called after the flag was found cleared")
    for r in m.body.rets():
        if r.facts.empty():
            continue
        loc = rec_loc(r, m.body)
        sig = None
        after = []
        for k, e in enumerate(r.events):
            if e.kind == "loop":
                # a set in the loop's last, unfinished round comes after the loop event
                continue
            if sets(e):
                if e.kind == "rmw" and decide(r.facts, eq(e.old, const(0, e.old.w)), False, (e.old,)) == PROVED:
                    # it was set already: nobody waits for this one
                    continue
                sig, after = e, r.events[k + 1:]
                break
        if sig is None:
            st = any(e.kind in ("icall", "vcall") for e, _ in all_events(r.events))
            chk.ob(tag, "the thread signals on its way out", UNDEC if st else REFUTED, loc, "the thread ends without setting the flag: stop waits for ever")
            continue
        chk.ob(tag, "the thread signals on its way out", PROVED, sig.loc, "")
        if waits:
            ok = any(e.kind == "call" and NOTIFY.match(e.dem or "") and obj(an.dec(e.args[0])) == flag for e in after)
            chk.ob(tag, "whoever waits for the thread is woken", PROVED if ok else REFUTED, sig.loc, "no notification after the flag was set")
        bad = next((e for e, _ in all_events(after) if e.kind == "call" and FUNC.match(e.dem or "") or e.kind in ("store", "rmw", "load") and obj(an.dec(e.addr)) is not None), None)
        chk.ob(tag, "after its signal the thread leaves the object alone", PROVED if bad is None else REFUTED, (bad or sig).loc, "the object is used after the signal")


# ------------------------------------------------------------------ C28
def cells(m):
    """(period, check interval): where the constructor keeps its third and fourth argument."""
    r = initial_mem(m)
    out = {}
    for f in m.sh.rec.all:
        if f.size == 8:
            v = m.ctor.an.load(r.st.mem, addc(A0, f.off), 8, r.st)
            if v.op == "arg" and v.a[0] in (2, 3):
                out.setdefault(v.a[0], f.off)
    return out.get(2), out.get(3)


def c28(chk, tier):
    m = Model(chk)
    r0 = initial_mem(m)
    if r0 is None:
        raise Broken("the constructor is not recognised")
    P, C = cells(m)
    tag = m.tag
    rule = "the constructor keeps the period and the check interval"
    if P is None or C is None:
        opq = any(x.op in ("unk", "call") for f in m.sh.rec.all if f.size == 8 for x in atoms(m.ctor.an.load(r0.st.mem, addc(A0, f.off), 8, r0.st)))
        chk.ob(tag + ":ctor", rule, UNDEC if opq else REFUTED, rec_loc(r0, m.ctor), "an argument is not kept as given")
        return
    chk.ob(tag + ":ctor", rule, PROVED, rec_loc(r0, m.ctor), "")
    accessors(chk, m, P, C)
    flag = flag_cell(m)
    if flag is not None:
        v = m.ctor.an.load(r0.st.mem, addc(A0, flag), 1, r0.st)
        chk.ob(tag + ":ctor", "a new event is running", PROVED if is_int(v) and ival(v) else REFUTED if is_int(v) else UNDEC, rec_loc(r0, m.ctor), "the flag starts out cleared: the thread ends at once")
    schedule(chk, m, P, C)


def accessors(chk, m, P, C):
    for f, off in (("vp_period", P), ("vp_check", C)):
        en = m.op.get(f)
        for r in en.rets() if en else ():
            if r.facts.empty():
                continue
            x = r.ret
            o = obj(en.an.dec(x.a[0])) if x is not None and x.op in ("ld", "ald") else None
            v = PROVED if o == off else REFUTED if o is not None or x is not None and is_int(x) else UNDEC
            if o is None and x is not None and lin_parts(x)[1] and all(a.op in ("ld", "ald") and obj(en.an.dec(a.a[0])) is not None for a in lin_parts(x)[1]):
                v = REFUTED
            chk.ob(m.tag + ":" + f, "reading gives the value kept", v, rec_loc(r, en), f"returns {x}")
    for f, off, other in (("vp_set_period", P, C), ("vp_set_check", C, P)):
        en = m.op.get(f)
        for r in en.rets() if en else ():
            if r.facts.empty():
                continue
            v = last_value(en.an, r, off)
            opq = any(e.kind in ("icall", "vcall") for e, _ in all_events(r.events))
            ok = PROVED if v is A1 else UNDEC if opq or v is not None and any(a.op in ("unk", "call", "phi") for a in atoms(v)) else REFUTED
            chk.ob(m.tag + ":" + f, "setting keeps the value given", ok, rec_loc(r, en), "the value is not stored" if v is None else f"stores {v}")
            v2 = last_value(en.an, r, other)
            chk.ob(m.tag + ":" + f, "setting one leaves the other alone", PROVED if v2 is None else REFUTED, rec_loc(r, en), "the other value changes too")


def last_value(an, r, off):
    v = None
    for e, al in all_events(r.events):
        if e.kind in th.MODS and not (e.kind == "cmpxchg" and not e.ok) and obj(an.dec(e.addr)) == off:
            v = e.val if e.kind == "store" else e.new
    return v


def cell_of(an, x):
    """The object cell a term was read from."""
    return obj(an.dec(x.a[0])) if x.op in ("ald", "ld") else None


def is_now(m, x, nows):
    return x in nows


def rounds(m):
    """(record, loop, way, depth) of all ways of all loops."""
    seen = set()

    def rec(r, evs, depth):
        for e in evs:
            if e.kind == "loop":
                for al in e.loop.alts:
                    if id(al) in seen or al.st.facts.empty():
                        continue
                    seen.add(id(al))
                    yield r, e.loop, al, depth
                    yield from rec(r, al.events, depth + 1)
    for r in m.body.recs:
        if not r.facts.empty():
            yield from rec(r, r.events, 1)


def schedule(chk, m, P, C):
    an, tag = m.body.an, m.tag + ":thread"
    nows = set()
    for r in m.body.recs:
        for e, al in all_events(r.events):
            if e.kind == "call" and NOW.match(e.dem or ""):
                nows.add(e.ret)
    called = False
    lone = set()
    for r in m.body.recs:
        if r.facts.empty():
            continue
        for e in r.events:
            if e.kind == "call" and FUNC.match(e.dem or "") and id(e) not in lone:
                lone.add(id(e))
                late = any(x.kind == "loop" for x in r.events[:r.events.index(e)])
                if not late:
                    chk.ob(tag, "the function is called only when the period has elapsed", REFUTED if not any(x in nows for a, p in e.facts.lits for x in atoms(a)) else UNDEC, e.loc, "called outside the checks")
                    called = True
    for r, lp, al, depth in rounds(m):
        calls = [e for e in al.events if e.kind == "call" and FUNC.match(e.dem or "")]
        sleeps = [e for e in al.events if e.kind == "call" and SLEEPY.search(e.dem or "")]
        inner = any(e.kind == "loop" for e in al.events)
        deep = any(e.kind == "call" and FUNC.match(e.dem or "") for e, _ in all_events(al.events))
        loc = calls[0].loc if calls else sleeps[0].loc if sleeps else al.events[0].loc if al.events else rec_loc(r, m.body)
        called |= bool(calls)
        # waiting
        if depth == 1:
            rule = "between checks the thread waits for the check interval"
            if not sleeps:
                if calls or deep or any(e.kind == "call" and NOW.match(e.dem or "") for e in al.events):
                    chk.ob(tag, rule, UNDEC if inner or any(e.kind in ("icall", "vcall") for e in al.events) else REFUTED, loc, "the next check follows at once")
            for e in sleeps:
                chk.ob(tag, rule, slept(m, e, C), e.loc, "waits for something else than the check interval")
            if len(sleeps) > 1:
                chk.ob(tag, rule, REFUTED if all(slept(m, e, C) != REFUTED for e in sleeps) else UNDEC, sleeps[1].loc, "waits more than once")
        if depth > 1 and calls:
            chk.ob(tag, "at most one call per check", REFUTED if not sleeps else UNDEC, loc, "several calls in one check")
            continue
        if calls:
            chk.ob(tag, "at most one call per check", PROVED if len(calls) == 1 and not (deep and inner and any(FUNC.match(x.dem or "") for e in al.events if e.kind == "loop" for x, _ in all_events([e]) if x.kind == "call")) else REFUTED if len(calls) > 1 else UNDEC, calls[-1].loc, f"{len(calls)} calls in one check")
        time_rule(chk, m, tag, r, lp, al, calls, sleeps, P, nows, loc)
    if not called:
        opq = any(e.kind in ("icall", "vcall") for r in m.body.recs for e, _ in all_events(r.events))
        chk.ob(tag, "the function is called", UNDEC if opq else REFUTED, m.body.loc, "no check calls the function")


def slept(m, e, C):
    an = m.body.an
    g = SLEEP.search(e.dem or "")
    if not g or not e.args:
        return UNDEC
    num, den = int(g.group(1)), int(g.group(2))
    st = engine.State()
    st.facts, st.mem = e.facts, e.mem
    v = e.facts.norm(an.load(e.mem, e.args[0], 8, st))
    c, d = lin_parts(v)
    if den * 1 % (1000 * num):
        return UNDEC
    k = den // (1000 * num)
    if not d:
        return REFUTED
    if len(d) == 1:
        (x, q), = d.items()
        o = cell_of(an, x)
        if o is not None:
            return PROVED if o == C and q == k and c == 0 else REFUTED
        if x.op in ("phi", "unk", "call"):
            return UNDEC
    if all(cell_of(an, x) is not None for x in d):
        return REFUTED
    return UNDEC


def compares(m, al, lp, nows, facts):
    """Comparisons of the time with the schedule on this way: [(phi, multiple of the period cells, relation, constant)]
    relation: of (now - phi - k*period) to 0."""
    an = m.body.an
    out = []
    odd = False
    for a, p in facts.lits:
        while a.op == "not":
            a, p = a.a[0], not p
        if a.op not in ("slt", "ult") or not any(x in nows for x in atoms(a)):
            continue
        x, y = a.a
        x, y = unscale(x, y)
        d = sub(x, y)
        c, t = lin_parts(d)
        c = th.signed64(c) if d.w == 64 else c
        tt = {q: th.signed64(k) for q, k in t.items()}
        n = [q for q in tt if q in nows]
        f = [q for q in tt if q.op == "phi"]
        rest = {q: k for q, k in tt.items() if q not in n and q not in f}
        if len(n) != 1 or len(f) != 1 or abs(tt[n[0]]) != 1 or tt[f[0]] != -tt[n[0]]:
            odd = True
            continue
        s = tt[n[0]]
        rel = ("<" if p else ">=") if s > 0 else (">" if p else "<=")
        out.append((f[0], {q: k * s for q, k in rest.items()}, rel, c * s))
    return out, odd


def unscale(x, y):
    """t/n < p is t < n*p."""
    for u, v, sw in ((x, y, False), (y, x, True)):
        if u.op == "sdiv" and is_int(u.a[1]) and sval(u.a[1]) > 1:
            w = mulc(v, sval(u.a[1]))
            return (w, u.a[0]) if sw else (u.a[0], w)
    return x, y


def still(m, al, nows):
    """Is the time compared with an instant read before the loop only?"""
    inside = {e.ret for e, _ in all_events(al.events) if e.kind == "call" and e.get("ret") is not None}
    hit = False
    for a, p in al.st.facts.lits:
        if not any(x in nows for x in atoms(a)):
            continue
        ns = [x for x in atoms(a) if x in nows]
        if not (any(x in inside for x in ns) and any(x not in inside for x in ns)) or any(x.op in ("phi", "unk", "call") and x not in nows for x in atoms(a)):
            return False
        hit = True
    return hit


def time_rule(chk, m, tag, r, lp, al, calls, sleeps, P, nows, loc):
    an = m.body.an
    rule = "the function is called only when the period has elapsed"
    cs, odd = compares(m, al, lp, nows, al.st.facts)
    if not cs:
        if calls and odd and still(m, al, nows):
            chk.ob(tag, "each call advances the schedule by exactly one period", REFUTED, loc, "the instant the time is compared with never moves")
            return
        if calls:
            opq = odd or any(x.op in ("call", "unk") and x not in nows for a, p in al.st.facts.lits for x in atoms(a)) or any(x in nows for a, p in al.st.facts.lits for x in atoms(a))
            chk.ob(tag, rule, UNDEC if opq else REFUTED, loc, "called without looking at the time")
        return
    for L, rest, rel, c in cs:
        good = c == 0 and len(rest) == 1 and cell_of(an, next(iter(rest))) == P and next(iter(rest.values())) == -1000000
        known = all(cell_of(an, q) is not None for q in rest)
        nextform = not rest and c == 0
        init = next((lp.inits.get(k) for k in lp.kinds if lp.sym.get(k) is L), None)
        if init is None:
            init = next((lp.cinit.get(k) for k in lp.cells if lp.csym.get(k) is L), None)
        if nextform and init is not None:
            ic, it = lin_parts(init)
            mixed = any(cell_of(an, q) == P for q in it)
            v = REFUTED if mixed else UNDEC
        else:
            v = PROVED if good else REFUTED if known else UNDEC
        why = "the time since the last scheduled instant is compared with something else than the period"
        if calls and rel in ("<", "<="):
            if v == PROVED:
                chk.ob(tag, rule, REFUTED, loc, "called when the period has not elapsed")
            else:
                chk.ob(tag, rule, UNDEC, loc, "")
        elif calls:
            chk.ob(tag, rule, v, loc, why)
        elif rel in (">", ">=") and v == PROVED and not any(x.kind == "loop" for x in al.events) and not any(x.kind in ("icall", "vcall") for x in al.events):
            others = [a for a, p in al.st.facts.lits if not any(x in nows for x in atoms(a)) and not reads_flag(m, a)]
            chk.ob(tag, "a check that finds the period elapsed calls the function", REFUTED if not others or True else UNDEC, loc, "the period has elapsed and the function is not called")
        if init is not None and is_int(init):
            chk.ob(tag, "the schedule starts when the event does", REFUTED, loc, f"the first scheduled instant is {init}")
        # the next scheduled instant
        key = next((k for k in lp.kinds if lp.sym.get(k) is L), None)
        nx = al.nexts.get(key) if key is not None else None
        if nx is None:
            key = next((k for k in lp.cells if lp.csym.get(k) is L), None)
            nx = al.nexts.get(key) if key is not None else None
        if nx is None:
            chk.ob(tag, "each call advances the schedule by exactly one period", UNDEC, loc, "")
            continue
        d = al.st.facts.norm(sub(nx, L))
        dc, dt = lin_parts(d)
        if calls:
            ok = dc == 0 and len(dt) == 1 and cell_of(an, next(iter(dt))) == P and th.signed64(next(iter(dt.values()))) == 1000000
            bad = not ok and not any(x.op in ("unk", "undef") for x in atoms(d)) and all(q is L or q in nows or cell_of(an, q) is not None for q in dt)
            chk.ob(tag, "each call advances the schedule by exactly one period", PROVED if ok else REFUTED if bad else UNDEC, loc, f"the schedule moves by {d}")
        else:
            ok = is_int(d) and ival(d) == 0
            bad = not ok and all(q is L or q in nows or cell_of(an, q) is not None for q in dt)
            chk.ob(tag, "only a call moves the schedule", PROVED if ok else REFUTED if bad else UNDEC, loc, f"the schedule moves by {d} without a call")


def reads_flag(m, a):
    return any(x.op == "ald" and obj(m.body.an.dec(x.a[0])) is not None for x in atoms(a))
