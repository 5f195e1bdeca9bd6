"""C37: what a worker reports about its last items."""
import re

from ..core import PROVED, REFUTED, UNDEC, Broken, both, decide, differ, unknowns
from ..facts import Facts
from ..terms import (add, addc, atoms, bor, const, eq, is_int, ival, lin_parts, lshr, sdiv, sext, sub, subst, sval, trunc, ult, zext)
from .threads import (A0, Model, analyse, find_head, inner_levels, is_call, uniq, variants, _st)
from .observers import all_events, const_of
from .registry import rec_loc

KEEP = 10
DQ = re.compile(r"^(?:[^(]* )?std::deque<.*>::(~?[a-z_]+(?:\[\]|=)?)(?:<.*>)?\(")
IT = re.compile(r"^std::_Deque_iterator<")
NOW = re.compile(r"std::chrono::.*::now\(\)")
READS = ("begin", "end", "cbegin", "cend", "size", "empty", "front", "back", "operator[]", "at", "max_size", "rbegin", "rend", "crbegin", "crend", "get_allocator", "shrink_to_fit")


def op_of(e):
    """The operation on a history: its name, or None."""
    if e.kind != "call" or not e.args:
        return None
    d = e.dem or ""
    if not re.match(r"^(?:[^(]* )?std::deque<", d):
        return None
    # the class' own template arguments are nested: take the last name before the parameter list
    depth, i, cut = 0, 0, None
    for i, ch in enumerate(d):
        if ch == "<" and not d[:i].endswith("operator"):
            depth += 1
        elif ch == ">" and depth:
            depth -= 1
        elif ch == "(" and depth == 0:
            cut = i
            break
    if cut is None:
        return None
    head = d[:cut]
    head = re.sub(r"<[^<>]*>$", "", head) if head.endswith(">") and "operator" not in head[-12:] else head
    return head.rsplit("::", 1)[-1]


def c37(chk, tier):
    for what in ("stage", "pool"):
        for defs in variants(what, tier):
            m = Model(chk, what, defs, tier)
            H(chk, m).run()


class H:
    def __init__(self, chk, m):
        self.chk, self.m, self.an, self.sh = chk, m, m.body.an, m.sh
        self.name = m.tag + ":worker"
        self.ot, self.ol = const_of(m.unit, "vp_off_time"), const_of(m.unit, "vp_off_load")
        self.oi = const_of(m.unit, "vp_off_id") if m.what == "pool" else None

    def where(self, a, an=None):
        """The history an operation works on: (queue index or None, offset), or None."""
        c = (an or self.an).dec(a)
        if c is None or not is_int(c.rest) or ival(c.rest):
            return None
        return c

    def ops(self, events, an=None):
        """(position, event, operation, history cell) of the operations on histories of the object."""
        for i, e in enumerate(events):
            o = op_of(e)
            if o is None:
                continue
            for j, a in enumerate(e.args[:2]):
                c = self.where(a, an)
                if c is not None:
                    yield i, e, o, c
                    break

    def run(self):
        chk, m, name = self.chk, self.m, self.name
        own = find_head(m)
        self.heads = {k for k in own if k != m.tail}
        n = 0
        self.trim = set()
        ways = list(uniq(m.body.recs))
        for r, lv, al in ways:
            facts = al.st.facts if al is not None else r.facts
            if facts.empty():
                continue
            if any(is_call(e) for e in lv):
                n += 1
                self.trim |= {id(a) for e in lv if e.kind == "loop" and self.pops_only(e.loop) for a in e.loop.alts}
                self.way(r, lv, al, facts)
        for r, lv, al in ways:
            facts = al.st.facts if al is not None else r.facts
            if not facts.empty() and not any(is_call(e) for e in lv) and id(al) not in self.trim:
                self.idle(r, lv, al, facts)
        if not n:
            chk.ob(name, "the worker hands items to the stage function", UNDEC, m.body.loc, "the stage function is never called")
        # nobody else touches a history
        for en in m.push:
            for r in en.rets():
                for e, al in all_events(r.events):
                    o = op_of(e)
                    if o is not None and o not in READS and self.where(e.args[0], en.an) is not None:
                        chk.ob(m.tag + ":" + en.name, "only the worker writes its history", REFUTED, e.loc, f"a push does {o} on a history")
        self.born()
        if m.what == "stage":
            for fn, off, what in (("vp_time", self.ot, "time"), ("vp_load", self.ol, "utilisation")):
                en = analyse(chk, self.sh, fn)
                if en.an is None:
                    continue
                for r in en.rets():
                    if not r.facts.empty():
                        v, why = self.average(en.an, r.events, len(r.events), r.ret, off, r.facts)
                        chk.ob(m.tag + ":" + fn, f"the {what} reported is the sum over the history divided by {KEEP}", v, rec_loc(r, en), why)

    # ------------------------------------------------------------------ construction
    def born(self):
        chk, m = self.chk, self.m
        en = analyse(chk, self.sh, "vp_ctor")
        if en.an is None:
            return
        rule = "a new worker has no history"
        for r in en.rets():
            if r.facts.empty():
                continue
            seen = 0
            for e, al in all_events(r.events):
                o = op_of(e)
                if o is None or self.where(e.args[0], en.an) is None:
                    continue
                if o == "deque":
                    seen += 1
                    a = [x for x in e.args[1:] if getattr(x, "w", 0) == 64]
                    plain = len(e.args) == 1
                    v = PROVED if plain else REFUTED if is_int(a[0]) and ival(a[0]) and "unsigned long" in e.dem.split("::deque(")[-1] else UNDEC
                    chk.ob(m.tag + ":ctor", rule, v, e.loc, "the history is built with entries")
                elif o not in READS and o != "~deque":
                    v = REFUTED if o in ("push_front", "push_back", "emplace_front", "emplace_back") else UNDEC
                    chk.ob(m.tag + ":ctor", rule, v, e.loc, f"construction does {o} on a history")
            if not seen:
                chk.ob(m.tag + ":ctor", rule, UNDEC, rec_loc(r, en), "the history's construction is not recognised")

    # ------------------------------------------------------------------ the worker
    def idle(self, r, lv, al, facts):
        """A way without a hand-over leaves the histories alone."""
        inner = any(is_call(x) for x, _ in all_events(lv))
        for i, e, o, c in self.ops(lv):
            if o in READS:
                continue
            v = REFUTED if o in ("push_front", "push_back", "emplace_front", "emplace_back", "clear") and not inner else UNDEC
            self.chk.ob(self.name, "a measure is added for every item handed on, and for nothing else", v, e.loc, f"{o} on a history without an item")

    def way(self, r, lv, al, facts):
        chk, m, an, name = self.chk, self.m, self.an, self.name
        calls = [i for i, e in enumerate(lv) if is_call(e)]
        ci, call = calls[0], lv[calls[0]]
        rule = "a measure is added for every item handed on, and for nothing else"
        ops = list(self.ops(lv))
        hid = {(c.off, c.q) for i, e, o, c in ops}
        ins = [(i, e, o, c) for i, e, o, c in ops if o in ("push_front", "push_back", "emplace_front", "emplace_back")]
        odd = [(i, e, o, c) for i, e, o, c in ops if o not in READS and o not in ("push_front", "push_back", "emplace_front", "emplace_back", "pop_front", "pop_back")]
        trims = [(i, e) for i, e in enumerate(lv) if e.kind == "loop" and self.pops_only(e.loop)]
        nested = [e for l2 in inner_levels([e for e in lv if not any(e is x for _, x in trims)]) for i, e, o, c in self.ops(l2) if o not in READS]
        if odd or nested or len(calls) != 1:
            e = (([x[1] for x in odd] + nested) or [call])[0]
            cl = [x for x in odd if x[2] == "clear"]
            chk.ob(name, rule, REFUTED if cl else UNDEC, e.loc, "the whole history is dropped" if cl else "the history is changed in a way that is not recognised")
            return
        other = any(e.kind == "call" and "deque" in (e.dem or "") and op_of(e) and op_of(e) not in READS and (i, e) not in [(x[0], x[1]) for x in ops] for i, e in enumerate(lv))
        if len(ins) != 1:
            chk.ob(name, rule, UNDEC if other else REFUTED, (ins[1][1] if ins else call).loc, f"{len(ins)} measures are added for one item")
            if len(ins) != 1 or other:
                return
        else:
            chk.ob(name, rule, PROVED, ins[0][1].loc, "")
        pi, pe, po, pc = ins[0]
        self.hist = pc
        v = PROVED if pi > ci else REFUTED
        chk.ob(name, "the measure is taken after the item has been processed", v, pe.loc, "the measure is added before the stage function is called")
        self.own_queue(lv, pe, pc)
        self.measure(lv, ci, pi, pe, po)
        if trims:
            self.trimmed(lv, ops, trims, pi, po, pc, facts)
        else:
            self.bound(lv, ops, pi, po, pc, facts)
        self.figures(lv, ci, call)

    def own_queue(self, lv, pe, pc):
        if not self.sh.qsize:
            return
        rule = "a worker's measures go to its own history"
        hs = [self.an.dec(e.addr) for e in lv if e.get("addr") is not None]
        hs = [c for c in hs if c is not None and c.id in self.heads and c.q is not None]
        if pc.q is None or not hs:
            self.chk.ob(self.name, rule, REFUTED if pc.q is None and hs and self.sh.P > 1 else UNDEC, pe.loc, "all workers share one history")
            return
        self.chk.ob(self.name, rule, decide(pe.facts, eq(pc.q, hs[0].q), True, {a for a in atoms(pc.q) | atoms(hs[0].q)}), pe.loc, f"history of queue {pc.q}, item of queue {hs[0].q}")

    def fields(self, e, o):
        an = self.an
        if not o.startswith("push") or len(e.args) < 2:
            return None
        g = lambda off: an.load(e.mem, addc(e.args[1], off), 4, _st(e))
        return g

    def measure(self, lv, ci, pi, pe, po):
        chk, name, an = self.chk, self.name, self.an
        g = self.fields(pe, po)
        rt = "the time measured is that of the stage function, in milliseconds"
        rl = "the load measured is the backlog left after the item"
        if g is None:
            chk.ob(name, rt, UNDEC, pe.loc, f"added by {po}")
            return
        t, l = g(self.ot), g(self.ol)
        nows = {e.ret: i for i, e in enumerate(lv) if e.kind == "call" and NOW.search(e.dem or "")}
        mine = [a for a in atoms(t) if a in nows]
        before = [a for a in nows if nows[a] < ci]
        after = [a for a in nows if ci < nows[a] < pi]
        v, why = UNDEC, f"measures {t}"
        if before and after:
            vs = []
            for b in before:
                for a in after:
                    want = trunc(sdiv(sub(a, b), const(1000000, 64)), 32)
                    vs.append(PROVED if want is t else REFUTED if differ(pe.facts, want, t, unknowns(want) | unknowns(t)) else UNDEC)
            v = PROVED if PROVED in vs else REFUTED if all(x == REFUTED for x in vs) and self.plain(t, nows) else UNDEC
        elif self.plain(t, nows) or (mine and not before):
            v, why = REFUTED, ("the clock is not read on both sides of the stage function" if mine else f"measures {t}")
        chk.ob(name, rt, v, pe.loc, why)
        # the backlog
        tails, heads = [], []
        for i, e in enumerate(lv):
            if e.kind == "load" and i < pi:
                c = an.dec(e.addr)
                if c is not None and self.m.is_tail(c):
                    tails.append((i, e.val))
        hv = []
        for e in lv:
            if e.kind in ("rmw", "load", "store", "cmpxchg") and (c := an.dec(e.addr)) is not None and c.id in self.heads and not an.in_ring(c):
                x = an.load(pe.mem, e.addr, 8, _st(pe))
                if x not in hv:
                    hv.append(x)
        late = [x for i, x in tails if i > ci]
        v, why = UNDEC, f"measures {l}"
        vs = [PROVED if l is w else REFUTED if differ(pe.facts, l, w, unknowns(l) | unknowns(w)) else UNDEC for w in (trunc(sub(x, h), 32) for x in late for h in hv)]
        known = self.counters(l, tails, hv)
        if PROVED in vs:
            v = PROVED
        elif vs and all(x == REFUTED for x in vs) and known:
            v = REFUTED
        elif not vs and known:
            v, why = REFUTED, f"measures {l}, not the backlog left after the item"
        chk.ob(name, rl, v, pe.loc, why)
        if self.oi is not None:
            i = g(self.oi)
            q = self.hist.q
            rule = "a worker's measures carry its own number"
            chk.ob(name, rule, UNDEC if q is None else self.number(pe, i, q), pe.loc, f"number {i}")

    def number(self, e, i, q):
        if i.w != 32:
            return UNDEC
        if trunc(q, 32) is i or sext(i, 64) is q or zext(i, 64) is q:
            return PROVED
        if is_int(i) and not is_int(q):
            return REFUTED
        if unknowns(q) and unknowns(i) <= unknowns(q) and any(i is trunc(a, 32) or i is a for a in unknowns(q)):
            # the number the thread was started with; which ring goes with it is C24's matter
            return UNDEC
        if unknowns(i) <= unknowns(q) and differ(e.facts, trunc(q, 32), i, unknowns(i) | unknowns(q)):
            return REFUTED
        return UNDEC

    def plain(self, t, nows):
        """Made of clock readings of this way and constants only."""
        return all(a in nows for a in unknowns(t))

    def counters(self, l, tails, hv):
        ok = set()
        for x in [x for i, x in tails] + hv:
            ok |= unknowns(x)
        return unknowns(l) <= ok

    # ------------------------------------------------------------------ the bound
    def pops_only(self, lp):
        """A loop that does nothing but drop measures at one end of one history."""
        ends = set()
        for al in lp.alts:
            if al.st.facts.empty():
                continue
            mine = [o for i, e, o, c in self.ops(al.events)]
            if any(e.kind not in ("call", "load") for e in al.events) or any(e.kind == "call" and op_of(e) is None for e in al.events):
                return None
            ps = [o for o in mine if o not in READS]
            if len(ps) != 1 or ps[0] not in ("pop_front", "pop_back"):
                return None
            ends.add(ps[0])
        return ends.pop() if len(ends) == 1 else None

    def trimmed(self, lv, ops, trims, pi, po, pc, facts):
        chk, name = self.chk, self.name
        rule = f"the history keeps the {KEEP} newest measures"
        end = "front" if po.endswith("front") else "back"
        ti, te = trims[0]
        if len(trims) > 1 or any(o in ("pop_front", "pop_back") for i, e, o, c in ops):
            chk.ob(name, rule, UNDEC, te.loc, "the history is trimmed in several places")
            return
        if self.pops_only(te.loop) == "pop_" + end:
            chk.ob(name, rule, REFUTED, te.loc, "the newest measures are dropped")
            return
        most = KEEP if ti > pi else KEEP - 1
        for al in te.loop.alts:
            if al.st.facts.empty():
                continue
            sz = None
            for i, e, o, c in self.ops(al.events):
                if o == "size":
                    sz = e.ret
                elif o.startswith("pop"):
                    v = UNDEC if sz is None else decide(al.st.facts, ult(const(most, 64), sz), True, {sz})
                    chk.ob(name, rule, v, e.loc, f"a measure is dropped although fewer than {KEEP} are kept")
        last = [e.ret for i, e, o, c in self.ops(list(getattr(te.loop, "exit_events", ())) + list(lv[ti + 1:])) if o == "size"]
        v = UNDEC if not last else decide(facts, ult(last[0], const(most + 1, 64)), True, {last[0]})
        chk.ob(name, rule, v, te.loc, f"the history grows beyond {KEEP} measures")

    def bound(self, lv, ops, pi, po, pc, facts):
        chk, name = self.chk, self.name
        mine = [(i, e, o) for i, e, o, c in ops if c.off == pc.off and (c.q is pc.q)]
        pops = [(i, e, o) for i, e, o in mine if o in ("pop_front", "pop_back")]
        pe = lv[pi]
        rule = f"the history keeps the {KEEP} newest measures"
        end = "front" if po.endswith("front") else "back"
        wrong = [x for x in pops if x[2] == "pop_" + end and x[0] > pi]
        if wrong:
            chk.ob(name, rule, REFUTED, wrong[0][1].loc, "the newest measure is dropped")
            return
        mixed = [x for x in pops if x[2] == "pop_" + end]
        if mixed:
            chk.ob(name, rule, REFUTED, mixed[0][1].loc, "the newest of the earlier measures is dropped")
            return
        f = facts.copy()
        entry = None
        free = set()
        ok = True
        for i, e, o in mine:
            if o not in ("size",):
                continue
            k = sum(1 for j in [pi] if j < i) - sum(1 for j, _, _ in pops if j < i)
            here = addc(e.ret, -k)
            free.add(e.ret)
            if entry is None:
                entry = here
            else:
                ok = ok and f.add(eq(entry, here), True)
        if any(o == "empty" for i, e, o in mine):
            chk.ob(name, rule, UNDEC, pe.loc, "the history's size is asked for in a way that is not recognised")
            return
        if entry is None:
            # nothing on this way depends on the size: it is any from none to full
            v = REFUTED
            why = "a measure is dropped whatever the size" if pops else "nothing limits the history"
            if any(o in ("begin", "end", "cbegin", "cend") for i, e, o in mine if i > pi):
                v = UNDEC
            chk.ob(name, rule, v, pe.loc, why)
            return
        if not ok or not f.add(ult(entry, const(KEEP + 1, 64)), True) or f.empty():
            return
        d = 1 - len(pops)
        a = decide(f, ult(addc(entry, d), const(KEEP + 1, 64)), True, free)
        chk.ob(name, rule, a, pe.loc, f"the history grows beyond {KEEP} measures")
        if pops:
            b = decide(f, eq(entry, const(KEEP + len(pops) - 1, 64)), True, free)
            chk.ob(name, rule, b, pops[0][1].loc, f"a measure is dropped although fewer than {KEEP} are kept")

    # ------------------------------------------------------------------ averages
    def figures(self, lv, ci, call):
        """What the stage function is told."""
        chk, name, an = self.chk, self.name, self.an
        args = call.args[3:]
        size = max(self.ot, self.ol, self.oi or 0) + 4
        comp = {}
        off = 0
        if args and args[0].w == 64 and len(args) == 1 and an.root(args[0])[0] is not None and an.root(args[0])[0].op == "alloca":
            for o in (self.ot, self.ol) + ((self.oi,) if self.oi is not None else ()):
                comp[o] = an.load(call.mem, addc(args[0], o), 4, _st(call))
        else:
            for a in args:
                if a.w == 64:
                    comp[off] = half(a, 0)
                    comp[off + 4] = half(a, 1)
                    off += 8
                elif a.w == 32:
                    comp[off] = a
                    off += 4
        for o, what in ((self.ot, "time"), (self.ol, "utilisation")):
            rule = f"the {what} passed on is the sum over the worker's history divided by {KEEP}"
            if o not in comp:
                chk.ob(name, rule, UNDEC, call.loc, "the arguments are not recognised")
                continue
            v, why = self.average(an, lv, ci, comp[o], o, call.facts, self.hist)
            chk.ob(name, rule, v, call.loc, why)
        if self.oi is not None and self.oi in comp:
            q = self.hist.q
            chk.ob(name, "the stage function is told the worker's own number", UNDEC if q is None else self.number(call, comp[self.oi], q), call.loc, f"number {comp[self.oi]}")

    def average(self, an, evs, upto, t, off, facts, hist=None):
        """Is t the sum of the field at off over the whole history, divided by the number kept?"""
        t = facts.norm(t)
        loops = []
        for i, e in enumerate(evs[:upto]):
            if e.kind == "loop":
                for k, s in e.loop.sym.items():
                    if any(s is x for x in under(t)):
                        loops.append((i, e.loop, k, s))
        if not loops:
            opq = [x for x in under(t) if x.op in ("call", "unk", "ld", "ald", "m")]
            return (UNDEC if opq else REFUTED), f"reports {t}"
        if len(loops) != 1:
            return UNDEC, f"reports {t}"
        li, lp, key, phi = loops[0]
        want = sdiv(phi, const(KEEP, phi.w))
        want = want if want.w == t.w else trunc(want, t.w) if want.w > t.w else sext(want, t.w)
        v1 = PROVED if want is t else UNDEC
        if v1 != PROVED:
            rest = [x for x in under(t) if x is not phi and x.op in ("call", "unk", "ld", "ald", "m", "phi", "arg")]
            if not rest and phi.w == 32:
                # a closed formula in the sum: compare at sample sums
                for s in (0, 1, 9, 10, 11, 95, 100, 1234, 100000, (1 << 32) - 10):
                    x, y = subst(t, {phi: const(s, 32)}), subst(want, {phi: const(s, 32)})
                    if is_int(x) and is_int(y) and x is not y:
                        v1 = REFUTED
        if v1 != PROVED:
            return v1, f"reports {t}"
        if lp.inits.get(key) is None or not is_int(lp.inits[key]):
            return UNDEC, "the sum's start is not recognised"
        if ival(lp.inits[key]):
            return REFUTED, f"the sum starts at {lp.inits[key]}"
        # the walk: from begin to end of the history
        iters = {}
        for e in evs[:li]:
            o = op_of(e)
            if o in ("begin", "end", "cbegin", "cend") and len(e.args) == 2:
                c = self.where(e.args[1], an)
                if c is None:
                    return UNDEC, "what is walked is not recognised"
                iters[e.args[0]] = (o.lstrip("c"), c)
        vs = []
        curs = set()
        for al in lp.alts:
            if al.st.facts.empty():
                continue
            der, inc, oth = [], [], []
            for j, e in enumerate(al.events):
                if e.kind == "loop":
                    return UNDEC, "the walk is not recognised"
                if e.kind == "call" and IT.match(re.sub(r"^[^(]*? (?=std::_Deque)", "", e.dem or "")):
                    d = e.dem
                    if "::operator*(" in d or "::operator->(" in d:
                        der.append((j, e))
                    elif "::operator++(" in d and "operator++(int)" not in d:
                        inc.append((j, e))
                    else:
                        oth.append((j, e))
                elif e.kind == "call" and "std::_Deque_iterator" in (e.dem or "") and "operator" in e.dem and ("==" in e.dem or "!=" in e.dem):
                    pass
                elif e.kind == "call":
                    oth.append((j, e))
            if oth or len(inc) != 1:
                return (REFUTED if len(inc) == 2 and not oth and len({x[1].args[0] for x in inc}) == 1 else UNDEC), "the walk does not visit every measure"
            nx = al.nexts.get(key)
            if nx is None:
                return UNDEC, "the sum is not recognised"
            curs.add(inc[0][1].args[0])
            d = al.st.facts.norm(sub(nx, phi))
            if not der:
                vs.append((REFUTED if is_int(d) else UNDEC, "a measure is not counted"))
                continue
            if any(x[1].args[0] is not inc[0][1].args[0] for x in der):
                return UNDEC, "the walk is not recognised"
            if any(x[0] > inc[0][0] for x in der):
                return UNDEC, "the walk is not recognised"
            p = der[0][1].ret
            d = subst(d, {x[1].ret: p for x in der})
            w = an.load(al.st.mem, addc(p, off), 4, al.st)
            w = w if w.w == d.w else sext(w, d.w)
            if d is w:
                vs.append((PROVED, ""))
                continue
            v = decide(al.st.facts, eq(d, w), True)
            if v != PROVED:
                v = UNDEC
                ins = unknowns(d) | unknowns(w)
                if all(x is phi or x.op == "ld" and is_int(sub(x.a[0], p)) for x in ins) and differ(al.st.facts, d, w, ins):
                    v = REFUTED
            vs.append((v, f"counts {d} for a measure"))
        if len(curs) != 1:
            return UNDEC, "the walk is not recognised"
        cur = next(iter(curs))
        if iters.get(cur, (None,))[0] != "begin":
            return UNDEC, "the walk is not recognised"
        ends = [c for a, (o, c) in iters.items() if o == "end"]
        hc = iters[cur][1]
        if hist is not None:
            if hc.off != hist.off:
                return REFUTED, "another history is summed up"
            if hc.q is not None or hist.q is not None:
                if hc.q is None or hist.q is None:
                    return UNDEC, "another history is summed up"
                vs.append((decide(facts, eq(hc.q, hist.q), True, atoms(hc.q) | atoms(hist.q)), "another worker's history is summed up"))
        if not any(c.off == hc.off for c in ends):
            return UNDEC, "the walk's end is not recognised"
        # the loop ends only at the end
        tail = [e for e in evs[li + 1:upto] if e.kind == "call" and "std::_Deque_iterator" in (e.dem or "") and "operator" in e.dem and ("==" in e.dem or "!=" in e.dem) and cur in e.args]
        if tail:
            q = tail[0]
            c = q.ret if q.ret.w == 1 else eq(q.ret, const(0, q.ret.w))
            pol = ("==" in q.dem) == (q.ret.w == 1)
            x = facts.holds(c)
            if x is not None and x != pol:
                vs.append((REFUTED, "the walk ends before the end"))
            elif x is None:
                vs.append((UNDEC, ""))
        bad = [x for x in vs if x[0] == REFUTED] or [x for x in vs if x[0] != PROVED]
        return bad[0] if bad else (PROVED, "")


def half(t, hi):
    """The low or high 32 bits of a 64-bit value packed from two halves."""
    if t.op == "or":
        x, y = half(t.a[0], hi), half(t.a[1], hi)
        z = const(0, 32)
        return y if x is z else x if y is z else bor(x, y)
    c, d = lin_parts(t)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1 << 32:
            return trunc(a, 32) if hi else const(0, 32)
        if k == 1 and a.op == "zext" and a.a[0].w <= 32:
            return const(0, 32) if hi else zext(a.a[0], 32) if a.a[0].w < 32 else a.a[0]
        if k == 1 and a.op == "and" and is_int(a.a[1]) and ival(a.a[1]) == (1 << 32) - 1:
            return const(0, 32) if hi else trunc(a.a[0], 32)
    return trunc(lshr(t, const(32, 64)), 32) if hi else trunc(t, 32)


def under(t, memo=None):
    """All subterms."""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a if isinstance(x.a, tuple) else ():
            stack = [y]
            while stack:
                z = stack.pop()
                if hasattr(z, "op"):
                    st.append(z)
                elif isinstance(z, tuple):
                    stack.extend(z)
    return seen
