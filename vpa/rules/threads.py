"""C21-C26: the pipeline stage and the pool of stages, and their background threads.

Every operation is analysed on its own; other threads are accounted for by giving every atomic cell that
anybody else writes a fresh value at each read."""
import re
from ..core import *
from ..terms import *
from .. import build, engine
from .observers import const_of, all_events
from .registry import rec_loc

A0 = mk("arg", (0,), 64)
A1 = mk("arg", (1,), 64)
RUN = "::_M_run()"
CALL = re.compile(r"std::function<.*>::operator\(\)\(")
MTX = re.compile(r"^std::(?:\w*mutex\w*)(?:<.*>)?::(lock|unlock|try_lock|lock_shared|unlock_shared|try_lock_shared)\(\)$")
WATCH = re.compile(r"^std::(?:atomic|__atomic_base|atomic_ref|atomic_flag)\b.*::(wait|notify_one|notify_all)\(")
RINGT = re.compile(r"^std::array<.*optional<")
QUICK = {"stage": ((), ("VP_T=vp_big", "VP_N=5"), ("VP_N=300",)), "pool": ((), ("VP_T=vp_big", "VP_N=5", "VP_P=2"), ("VP_N=300", "VP_P=260"))}
MORE = {"stage": (("VP_N=1",), ("VP_T=std::string",), ("VP_T=double", "VP_N=16"), ("VP_T=unsigned char", "VP_N=7")),
        "pool": (("VP_N=1", "VP_P=1"), ("VP_T=std::string",), ("VP_T=double", "VP_N=16", "VP_P=8"), ("VP_T=unsigned char", "VP_N=7", "VP_P=5"))}


def variants(what, tier):
    return QUICK[what] + (MORE[what] if tier == "thorough" else ())


class Shape:
    """Where a stage or pool keeps its queues."""

    def __init__(self, unit, what):
        self.what, self.unit = what, unit
        pre = "xitren::comm::pipeline_stage_pool<" if what == "pool" else "xitren::comm::pipeline_stage<"
        cands = [(n, r) for n, r in unit["layouts"].items() if n.startswith(pre) and not re.search(r">::", n) and "(" not in n]
        if len(cands) != 1:
            raise Broken("the record of the stage is not recognised")
        self.tn, self.rec = cands[0]
        self.T = const_of(unit, "vp_sizeof_T")
        self.N = const_of(unit, "vp_n")
        self.P = const_of(unit, "vp_p")
        self.qoff = self.qsize = None
        ring = self.find_ring(self.rec)
        if ring is None:
            # an array of queues, each holding a ring
            for n, r in unit["layouts"].items():
                if n.startswith(self.tn + "::") or n.startswith("xitren::comm::"):
                    g = self.find_ring(r) if r is not self.rec else None
                    if g is None:
                        continue
                    for f in self.rec.all:
                        if f.array and f.size == r.size * self.P and f.off % 8 == 0 and f.depth == 1:
                            self.qoff, self.qsize, self.qrec, ring = f.off, r.size, r, g
                            break
                if ring is not None:
                    break
        if ring is None:
            raise Broken("the ring of slots is not recognised")
        self.ring, self.rsize = ring.off, ring.size
        if ring.size % self.N:
            raise Broken("the slots are not recognised")
        self.stride = ring.size // self.N

    def find_ring(self, rec):
        for f in rec.all:
            if RINGT.search(f.type) and f.size >= self.N * self.T:
                return f
        return None

    def layout(self):
        return {0: self.tn}


class Cell:
    """A place in the object: queue index term or None, offset, and the slot part (a term, 0 when none)."""
    __slots__ = ("q", "off", "rest")

    def __init__(self, q, off, rest):
        self.q, self.off, self.rest = q, off, rest

    @property
    def id(self):
        return ("q" if self.q is not None else "o", self.off)


def signed64(k):
    return k - (1 << 64) if k >= 1 << 63 else k


class Probe(engine.Analysis):
    forever = True


class Th(engine.Analysis):
    forever = True
    sh = None
    base = A0
    theirs = None        # cells other threads write; None: all of them
    quiet_prims = True

    def dec(self, addr, base=None):
        base = base or self.base
        c, d = lin_parts(sub(addr, base))
        if base in d or addr.w != 64:
            return None
        if base not in lin_parts(addr)[1] or lin_parts(addr)[1][base] != 1:
            return None
        c = signed64(c)
        s = self.sh
        if s is None:
            return Cell(None, c, mk_lin(0, d, 64))
        qd, rd = {}, {}
        for a, k in d.items():
            k = signed64(k)
            if s.qsize and k % s.qsize == 0:
                qd[a] = k // s.qsize
            else:
                rd[a] = k
        if s.qsize and (qd or s.qoff <= c < s.qoff + s.qsize * s.P):
            q0, inner = divmod(c - s.qoff, s.qsize)
            return Cell(mk_lin(q0, qd, 64), inner, mk_lin(0, rd, 64))
        if not s.qsize and s.rec.size and not rd and c >= s.rec.size:
            return None
        return Cell(None, c, mk_lin(0, rd, 64))

    def in_ring(self, c):
        s = self.sh
        if c is None or (s.qsize is not None) != (c.q is not None):
            return False
        return not (is_int(c.rest) and not (s.ring <= c.off < s.ring + s.rsize))

    def shared(self, addr):
        c = self.dec(addr)
        if c is None:
            return True
        return self.theirs is None or c.id in self.theirs

    def traced(self, addr):
        return self.dec(addr) is not None


def quiet(an, e, st):
    """Opaque library calls of the units: what they change."""
    d = e.get("dem") or ""
    if d.startswith("std::thread::thread<"):
        return [(e.args[0], 8)]
    if "std::vector<std::thread," in d:
        if "::emplace_back" in d:
            return []
        return [(a, 8) for a in e.args[1:] if an.root(a)[0] is not None and an.root(a)[0].op == "alloca"]
    if MTX.match(d) or WATCH.match(d) or CALL.search(d) or "std::this_thread::" in d or d.startswith("std::thread::") or d.startswith("std::chrono::"):
        return []
    return None


def analyse(chk, sh, fn, base=A0, theirs=None, **kw):
    class A(Th):
        pass
    A.sh, A.base, A.theirs = sh, base, theirs
    return chk.analyse(sh.unit, fn, layout={0 if base is A0 else base: sh.tn}, cls=A, effects=quiet, **kw)


def body_name(unit, hint):
    r = [n for n in unit["by"] if n.startswith("std::thread::_State_impl<") and n.endswith(RUN) and hint in n]
    if len(r) != 1:
        raise Broken(f"{len(r)} thread bodies")
    return r[0]


def body_base(an):
    """The captured this: the loaded pointer of the thread's state most accesses go through."""
    n = {}
    for b in an:
        for e, _ in all_events(b.events):
            for k in ("addr", "dst", "src"):
                a = e.get(k)
                if a is not None:
                    note(n, a)
            for a in e.get("args") or ():
                if isinstance(a, T_) and a.w == 64:
                    note(n, a)
    if not n:
        raise Broken("the thread's object is not recognised")
    return max(n, key=lambda x: n[x])


T_ = type(A0)


def note(n, a):
    for t, k in lin_parts(a)[1].items():
        if k == 1 and t.op == "ld" and t.a[1] == 8 and A0 in lin_parts(t.a[0])[1]:
            n[t] = n.get(t, 0) + 1


MODS = ("store", "rmw", "cmpxchg")


def mods(an, events):
    """(event, cell) of the modifications of plain cells of the object, in loops too (with the loop's way)."""
    for e, al in all_events(events):
        if e.kind in MODS and not (e.kind == "cmpxchg" and not e.ok):
            c = an.dec(e.addr)
            if c is not None and not an.in_ring(c):
                yield e, c, al


class Model:
    """What push, the destructor and the worker of one instantiation do."""

    def __init__(self, chk, what, defs, tier):
        self.unit = build.unit(what, list(defs))
        self.sh = sh = Shape(self.unit, what)
        self.chk, self.what, self.tier = chk, what, tier
        self.tag = what + ("[" + ",".join(defs) + "]" if defs else "")
        self.bname = body_name(self.unit, "pipeline_stage_pool" if what == "pool" else "pipeline_stage<")
        self.push = [analyse(chk, sh, f) for f in ("vp_push", "vp_push_rv")]
        self.dtor = analyse(chk, sh, "vp_dtor")
        self.others = set()
        for en in self.push + [self.dtor]:
            if en.an is None:
                raise Broken("an operation cannot be summarised")
            for r in en.recs:
                for e, c, al in mods(en.an, r.events):
                    self.others.add(c.id)
        # the worker: once to find its object, once with the cells only it writes known exactly
        probe = Probe(self.unit["by"][self.bname], self.unit, effects=quiet).run()
        self.base = body_base(probe)
        self.body = analyse(chk, sh, self.bname, base=self.base, theirs=self.others)
        if self.body.an is None:
            raise Broken("the worker cannot be summarised")
        # the counter push advances
        self.tail = None
        for en in self.push:
            for r in en.rets():
                for e, c, al in mods(en.an, r.events):
                    if al is None and e.kind in ("rmw", "cmpxchg", "store"):
                        self.tail = self.tail or c.id

    def is_tail(self, c):
        return c is not None and c.id == self.tail


def levels(events, facts_of=None, depth=0):
    """Every straight-line level: (events, way or None), outermost first."""
    yield events, None
    for e in events:
        if e.kind == "loop":
            for al in e.loop.alts:
                for lv, a in levels(al.events):
                    yield lv, (al if a is None else a)


def uniq(recs):
    """Levels of all records, each once."""
    seen = set()
    for r in recs:
        if r.facts.empty():
            continue
        for lv, al in levels(r.events):
            k = id(al) if al is not None else id(r)
            if k in seen:
                continue
            seen.add(k)
            yield r, lv, al


# ------------------------------------------------------------------ C21
def position(en, sh, events):
    """[(event, cell, old, new)] of the modifications outside the ring of one path."""
    out = []
    for e, c, al in mods(en.an, events):
        if e.kind == "rmw":
            out.append((e, c, e.old, e.new, al))
        elif e.kind == "cmpxchg":
            out.append((e, c, e.exp, e.new, al))
        else:
            out.append((e, c, None, e.val, al))
    return out


def slot_of(sh, c):
    """Byte offset inside the ring, as a term."""
    return addc(c.rest, c.off - sh.ring)


def fold(t, m):
    r = subst(t, m)
    return ival(r) if is_int(r) else None


SAMP = lambda n: list(range(0, 2 * n + 1)) + [1000003, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 40) + 3]


def c21(chk, tier):
    for what in ("stage", "pool"):
        for defs in variants(what, tier):
            m = Model(chk, what, defs, tier)
            for en in m.push:
                for r in en.recs:
                    if r.facts.empty() or r.kind in ("noreturn",):
                        continue
                    push_path(chk, m, en, r)
            overloads(chk, m)


def overloads(chk, m):
    """Every overload of push uses the same slot for the same position."""
    fs = []
    for en in m.push:
        f = push_slot(m, [en])
        if f is None:
            return
        fs.append((en, f))
    en0, (b0, o0) = fs[0]
    for en, (b, o) in fs[1:]:
        v = PROVED
        w = subst(b, {o: o0})
        bad = None
        if w is not b0:
            v = UNDEC
            for p in SAMP(m.sh.N):
                x, y = fold(b0, {o0: const(p, 64)}), fold(b, {o: const(p, 64)})
                if x is not None and y is not None and x != y:
                    v, bad = REFUTED, p
                    break
        chk.ob(m.tag, "every overload of push uses the same slot for a position", v, en.loc, f"position {bad} goes to different slots")


def push_path(chk, m, en, r):
    sh, an, name = m.sh, en.an, m.tag + ":" + en.name
    loc = rec_loc(r, en)
    pos = position(en, sh, r.events)
    atom = [p for p in pos if p[0].kind != "store" or p[0].get("atomic")]
    rule1 = "a push takes its position in one atomic step"
    wr = ring_writes(an, r.events)
    if r.kind not in ("ret",):
        return
    def plain_loop(al):
        return al is not None and not any(p[0].kind == "cmpxchg" for p in pos)
    inl = [p for p in pos if p[4] is not None]
    if any(plain_loop(p[4]) for p in inl):
        chk.ob(name, rule1, UNDEC, inl[0][0].loc, "the counter is modified inside a loop")
        return
    pos = [p for p in pos if p[4] is None]
    if not pos:
        v = REFUTED if not any(e.kind in ("icall", "vcall") for e, _ in all_events(r.events)) else UNDEC
        chk.ob(name, rule1, v, loc, "no counter is advanced")
        return
    tails = [p for p in pos if m.is_tail(p[1])]
    if len(tails) != 1:
        chk.ob(name, rule1, REFUTED, (tails or pos)[-1][0].loc, f"{len(tails)} modifications of the counter in one push")
        return
    e, c, old, new, _ = tails[0]
    if e.kind == "store":
        # a read and a separate write
        ld = [a for a in leafs(new) if a.op in ("ald", "ld")]
        chk.ob(name, rule1, REFUTED, e.loc, "the counter is read and written in separate steps" + ("" if e.get("atomic") else ", not atomically"))
        old = ld[0] if len(ld) == 1 else None
        if old is None:
            return
    else:
        d = r.facts.norm(sub(new, old))
        v = PROVED if is_int(d) and ival(d) == 1 else REFUTED if is_int(d) else UNDEC
        if e.kind == "rmw" and not e.get("atomic"):
            v = REFUTED
        chk.ob(name, rule1, v, e.loc, f"the counter moves by {d}")
    # the slot
    rule2 = "an item goes only into the slot of its position, inside the buffer"
    if not wr:
        opq = [x for x, _ in all_events(r.events) if x.kind in ("icall", "vcall")]
        chk.ob(name, rule2, UNDEC if opq else REFUTED, loc, "no slot is written")
        return
    for x, cell, size, al in wr:
        if al is not None:
            chk.ob(name, rule2, UNDEC, x.loc, "a slot written inside a loop")
            continue
        if not an.in_ring(cell):
            continue
        b = slot_of(sh, cell)
        v, why = slot_verdict(sh, b, size, old)
        if v == UNDEC and not mentions(x.facts.norm(b), old) and not mentions(b, old):
            again = [t for t in atoms(b) if t.op == "ald" and (k := an.dec(t.a[0])) is not None and m.is_tail(k)]
            if again and not any(eqv(x.facts, t, old) == PROVED for t in again):
                v, why = REFUTED, "the slot is computed from another reading of the counter, not from the position taken"
        if v != REFUTED and sh.qsize:
            qv = same_queue(r.facts, cell.q, c.q)
            if qv == REFUTED:
                why = f"the slot belongs to queue {cell.q}, the position was taken in queue {c.q}"
            v = both(v, qv)
        chk.ob(name, rule2, v, x.loc, why)
    # the item
    first = next((cl for x, cl, s, al in wr if al is None and an.in_ring(cl) and slot_verdict(sh, slot_of(sh, cl), s, old)[0] != REFUTED), None)
    if first is None:
        return
    B = ring_base(m, an.base, first, old)
    if B is None:
        return
    rule3 = "the slot then holds the pushed item"
    if "std::string" in m.tag:
        ok = [x for x, cl, s, al in wr if x.kind == "call" and len(x.args) > 1 and x.args[1] is A1 and x.args[0] is B]
        chk.ob(name, rule3, PROVED if ok else UNDEC, loc, "")
    else:
        vs = []
        for j in range(sh.T):
            b = an.load(r.st.mem, addc(B, j), 1, r.st)
            w = mk("ld", (addc(A1, j), 1, 0), 8)
            k = engine.byte_of(b)
            if b is w or k is not None and k[0].op == "ld" and k[0].a[2] == 0 and addc(k[0].a[0], k[1]) is addc(A1, j):
                vs.append(PROVED)
            elif is_int(b) or k is not None and k[0].op in ("ld", "arg") or b.op in ("undef", "ld"):
                vs.append(REFUTED)
            else:
                vs.append(UNDEC)
        chk.ob(name, rule3, both(*vs), loc, "the slot's content is not the pushed item")
    flag = engaged(m, an, B, r)
    if flag is not None:
        chk.ob(name, "the slot is marked as holding an item", decide(r.st.facts, eq(flag, const(0, 8)), False), loc, f"mark: {flag}")


def engaged(m, an, B, r):
    """The byte that says whether a slot holds something: the one after the value (std::optional)."""
    if m.sh.stride <= m.sh.T:
        return None
    return an.load(r.st.mem, addc(B, m.sh.T), 1, r.st)


def ring_base(m, base, cell, old):
    """Address of the slot of position old, from the address of an access inside it."""
    sh = m.sh
    inner = (cell.off - sh.ring) % sh.stride
    b = addc(slot_of(sh, cell), -inner)
    a = add(base, addc(b, sh.ring))
    if sh.qsize:
        a = add(a, addc(mulc(cell.q, sh.qsize), sh.qoff))
    return a


def same_queue(facts, q1, q2):
    if q1 is None or q2 is None:
        return UNDEC
    v = eqv(facts, q1, q2)
    if v == UNDEC and q1 is not q2:
        # separately computed from counters other threads move: nothing makes them agree
        if origins(q1) and origins(q2) and origins(q1) != origins(q2):
            return REFUTED
    return v


def origins(t):
    return frozenset(a for a in atoms(t) if a.op in ("phi", "call", "m", "unk"))


def slot_verdict(sh, b, size, old):
    """Does [b, b+size) lie in one slot, the same for positions congruent modulo N, distinct otherwise?"""
    free = {a for a in atoms_under(b)}
    if free - atoms_under(old):
        return UNDEC, f"slot offset {b}"
    if not mentions(b, old) and atoms_under(b):
        return UNDEC, f"slot offset {b}"
    seen = {}
    lim = 1 << old.w
    around = [] if old.w == 64 else range(lim - sh.N, lim + sh.N)
    for p in [*SAMP(sh.N), *around]:
        v = fold(b, {old: const(p % lim, old.w)})
        if v is None:
            return UNDEC, f"slot offset {b}"
        if not (0 <= v and v + (size or 1) <= sh.rsize):
            return REFUTED, f"position {p} is written at byte {signed64(v)} of a buffer of {sh.rsize} bytes"
        i = v // sh.stride
        if size and (v + size - 1) // sh.stride != i:
            return REFUTED, f"position {p}: the write leaves its slot"
        seen[p] = i
    for p, i in seen.items():
        for p2, i2 in seen.items():
            if p < p2 < p + sh.N and i == i2:
                return REFUTED, f"positions {p} and {p2} share slot {i}"
    # the shape: remainder modulo N times the stride plus a constant
    c, d = lin_parts(b)
    rems = (urem(old, const(sh.N, 64)), band(old, const(sh.N - 1, 64)) if is_pow2(sh.N) else None)
    if not d and sh.N == 1 or len(d) == 1 and list(d.values()) == [sh.stride] and list(d)[0] in rems:
        return PROVED, ""
    return UNDEC, f"slot offset {b}"


WR = re.compile(r"(::operator=|::basic_string|::assign|::emplace|::construct|::swap|::append|::insert|::push_\w+|::pop_\w+|::clear|::resize|::~|::reset|::erase)")


def ring_writes(an, events):
    """(event, cell, size or None, way) of everything that may write into the slots."""
    out = []
    for e, al in all_events(events):
        if e.kind in ("store", "rmw", "cmpxchg"):
            c = an.dec(e.addr)
            if an.in_ring(c):
                out.append((e, c, e.size, al))
        elif e.kind in ("copy", "set"):
            c = an.dec(e.dst)
            if an.in_ring(c):
                n = e.n if isinstance(e.n, int) else sval(e.n) if is_int(e.n) else None
                out.append((e, c, n, al))
        elif e.kind == "call" and e.args and not (e.dem or "").endswith(" const"):
            for k, a in enumerate(e.args):
                if a.w != 64:
                    continue
                c = an.dec(a)
                if an.in_ring(c) and (k == 0 and WR.search(e.dem or "")):
                    out.append((e, c, None, al))
    return out


# ------------------------------------------------------------------ C22
def is_call(e):
    return e.kind in ("call", "icall") and (e.kind == "icall" or bool(CALL.search(e.get("dem") or "")))


def find_head(m):
    """The counter the worker takes positions from: the cell it alone writes."""
    own = {}
    for r, lv, al in uniq(m.body.recs):
        for e in lv:
            if e.kind in MODS and not (e.kind == "cmpxchg" and not e.ok):
                c = m.body.an.dec(e.addr)
                if c is not None and not m.body.an.in_ring(c) and is_int(c.rest):
                    own.setdefault(c.id, []).append(e)
    return own


def c22(chk, tier):
    for what in ("stage", "pool"):
        for defs in variants(what, tier):
            worker(chk, Model(chk, what, defs, tier))


def widths(chk, m, name, own, lvs):
    """Counts of positions that start again at zero no longer tell what is accepted and not yet handed on."""
    an = m.body.an
    tw = {e.size for en in m.push for r in en.rets() for e, c, al in mods(en.an, r.events) if m.is_tail(c)}
    hw = {e.size: e for k, es in own.items() if k != m.tail and k in getattr(m, "slotcells", {k}) for e in es if e.kind != "call"}
    if len(tw) != 1 or len(hw) != 1:
        return
    t, (h, e) = tw.pop(), hw.popitem()
    if h >= 8 and t >= 8:
        chk.ob(name, "positions are counted without starting again", PROVED, e.loc)
    elif h < t:
        chk.ob(name, "positions are counted without starting again", REFUTED, e.loc, f"{8 * t} bits of accepted items, {8 * h} bits of items taken")
    else:
        cmp_ = any(a.op in ("ult", "slt") and a.a[0].w == 8 * h and any(x.op in ("ald", "ld") and (c := an.dec(x.a[0])) is not None and m.is_tail(c) for x in atoms(a))
                   for r in m.body.recs for al in ways(r.events) for a, p in al.lits)
        chk.ob(name, "positions are counted without starting again", REFUTED if cmp_ else UNDEC, e.loc, f"counted in {8 * h} bits and compared by order")


def ways(evs):
    for e in evs:
        if e.kind == "loop":
            for al in e.loop.alts:
                yield al
                yield from ways(al.events)


def worker(chk, m):
    sh, an, name = m.sh, m.body.an, m.tag + ":worker"
    own = find_head(m)
    lvs = list(uniq(m.body.recs))
    widths(chk, m, name, own, lvs)
    calls = [(r, lv, al, e) for r, lv, al in lvs for e in lv if is_call(e)]
    loc0 = m.body.loc
    for en in m.push:
        for r in en.rets():
            for e, c, al in mods(en.an, r.events):
                if c.id in own and c.id != m.tail:
                    chk.ob(name, "only the worker moves its own counter", REFUTED, e.loc, "a push moves the worker's counter")
    if m.tail in own:
        chk.ob(name, "only pushes move the count of accepted items", REFUTED, own[m.tail][0].loc, "the worker moves the count of accepted items")
    if not calls:
        opq = [e for r, lv, al in lvs for e in lv if e.kind in ("vcall",)]
        chk.ob(name, "the worker hands items to the stage function", UNDEC if opq else REFUTED, loc0, "the stage function is never called")
        return
    heads = {k for k in own if k != m.tail}
    done = set()
    for r, lv, al, e in calls:
        if id(lv) in done:
            continue
        done.add(id(lv))
        way(chk, m, name, lv, al, heads)
    # ways without a hand-over leave the counter alone
    for r, lv, al in lvs:
        if id(lv) in done:
            continue
        inner = any(is_call(x) for x, _ in all_events(lv))
        for e in lv:
            if e.kind in MODS:
                c = an.dec(e.addr)
                if c is not None and c.id in heads and not (e.kind == "store" and e.get("val") is not None and c.id != ("o", 0) and False):
                    v = UNDEC if inner or r.kind != "ret" and al is None else REFUTED
                    if counter_used(m, c):
                        chk.ob(name, "no position is passed over", v, e.loc, "a position is taken and its item is not handed on")
    reuse(chk, m, name, calls)
    for r in m.body.recs:
        if r.facts.empty():
            continue
        if r.kind == "throw":
            # only reachable when a slot without an item was taken
            chk.ob(name, "the worker reads no empty slot", UNDEC if unknown_guard(m, r) or was_full(m, r) else REFUTED, rec_loc(r, m.body), f"raises {(r.info.get('type') if r.info is not None else '') or (r.info.get('dem') if r.info is not None else '')}")


def was_full(m, r):
    """Was the slot found empty seen to hold an item before, on the same way?"""
    an, f = m.body.an, r.facts
    pos, neg = [], []
    for a, p in list(f.lits) + list(f.opq):
        for x in atoms(a):
            if x.op in ("ld", "ald") and an.in_ring(an.dec(x.a[0])):
                (pos if rules_out_zero(a, p, x) else neg).append(x.a[0])
    for a in pos:
        for b in neg:
            d = f.norm(sub(b, a))
            if is_int(d) and abs(sval(d)) < m.sh.stride:
                return True
    return False


def unknown_guard(m, r):
    """Does a value nothing is known of decide?  The mark of another slot than
    the one found empty does not."""
    an = m.body.an
    unk = {x.id: x for a, p in r.facts.lits for x in atoms(a) if x.op == "unk"}
    if not unk:
        return False
    empty = [x.a[0] for a, p in list(r.facts.lits) + list(r.facts.opq) for x in atoms(a) if x.op in ("ld", "ald") and an.in_ring(an.dec(x.a[0])) and not rules_out_zero(a, p, x)]
    return not empty or not all(hasattr(x.a[0], "op") and x.a[0].w == 64 and an.in_ring(an.dec(x.a[0])) and apart(m, r.facts, x.a[0], b) for x in unk.values() for b in empty)


def leaves(t):
    """What the arithmetic of a term is done with."""
    if is_int(t):
        return set()
    if t.op in ("add", "lin", "mul", "sub", "udiv", "urem", "lshr", "shl", "and", "or", "zext", "sext", "trunc", "sum"):
        return {x for c in children(t) for x in leaves(c)}
    return {t}


def apart(m, facts, a, b):
    """Are the two addresses of the ring in different slots for some position?"""
    an, sh = m.body.an, m.sh
    a, b = (facts.norm(slot_of(sh, an.dec(x))) for x in (a, b))
    pos = sorted({x for t in (a, b) for x in leaves(t)}, key=str)
    for v in pos:
        for q in SAMP(sh.N):
            w = {x: const(q if x is v else 0, 64) for x in pos}
            x, y = fold(a, w), fold(b, w)
            if x is not None and y is not None and not -sh.stride < signed64(x - y) < sh.stride:
                return True
    return False


def counter_used(m, c):
    return c.id in getattr(m, "slotcells", {c.id})


def inner_levels(lv):
    for e in lv:
        if e.kind == "loop":
            for al in e.loop.alts:
                yield al.events
                yield from inner_levels(al.events)


def way(chk, m, name, lv, al, heads):
    """One way of the worker that hands something on."""
    sh, an = m.sh, m.body.an
    calls = [e for e in lv if is_call(e)]
    e = calls[0]
    chk.ob(name, "an item is handed on once", PROVED if len(calls) == 1 else REFUTED, calls[-1].loc, f"the stage function is called {len(calls)} times for one position")
    code = e.args[1] if e.kind == "call" and len(e.args) > 2 else None
    if code is None:
        chk.ob(name, "the item handed on is that of the position taken", UNDEC, e.loc, "the arguments are not recognised")
        return
    chk.ob(name, "the item is handed on with the no-error code", decide(e.facts, eq(code, const(0, code.w)), True), e.loc, f"code {code}")
    item = e.args[2]
    src = item_address(m, lv, e, item)
    # the position: what the slot of the item is computed from
    mv = []
    for x in lv:
        if x.kind in MODS and not (x.kind == "cmpxchg" and not x.ok):
            c = an.dec(x.addr)
            if c is not None and c.id in heads and not an.in_ring(c):
                mv.append((x, c))
    nested = [x for l2 in inner_levels(lv) for x in l2 if x.kind in MODS and (c := an.dec(x.addr)) is not None and c.id in heads]
    rule = "a hand-over takes exactly one position"
    if nested:
        chk.ob(name, rule, UNDEC, nested[0].loc, "the worker's counter moves in an inner loop")
        return
    if not mv:
        batch = al is not None and src is not None and any(a.op in ("k", "m") for a in atoms(src))
        chk.ob(name, rule, UNDEC if batch else REFUTED, e.loc, "an item is handed on and its position is not taken: it is handed on again")
        if batch:
            return
    cells = {c.id for x, c in mv}
    if len(cells) > 1:
        # several counters move: the one that selects the slot counts
        mv2 = [(x, c) for x, c in mv if src is not None and old_of(an, x) is not None and mentions(src, old_of(an, x))]
        if len({c.id for x, c in mv2}) != 1:
            chk.ob(name, rule, UNDEC, e.loc, "several counters move")
            return
        mv = [(x, c) for x, c in mv if c.id == mv2[0][1].id]
    if len(mv) > 1:
        chk.ob(name, rule, REFUTED, mv[-1][0].loc, f"the worker's counter moves {len(mv)} times for one item")
        return
    if mv:
        x, c = mv[0]
        old, new = old_of(an, x), (x.val if x.kind == "store" else x.new)
        d = sub(new, old) if old is not None else None
        d = x.facts.norm(d) if d is not None else None
        v = UNDEC if d is None else PROVED if is_int(d) and ival(d) == 1 else REFUTED if is_int(d) else UNDEC
        chk.ob(name, rule, v, x.loc, f"the worker's counter moves by {d}")
        head, hc = old, c
        m.slotcells = {c.id}
    else:
        return
    if head is None:
        return
    # below the accepted count
    v = guard(m, e.facts, lv, head, hc)
    chk.ob(name, "an item is taken only when its position is below the accepted count", v, x.loc, "nothing relates the position to the accepted count")
    # the slot
    rule = "the item handed on is that of the position taken"
    f = push_slot(m)
    if src is None or f is None:
        chk.ob(name, rule, UNDEC, e.loc, f"item {item}")
        return
    cell = an.dec(src)
    if cell is None or not an.in_ring(cell):
        r, off = an.root(src)
        known = r is not None and (r.op in ("alloca",) or cell is not None)
        chk.ob(name, rule, UNDEC, e.loc, f"item at {src}")
        return
    fb, fold_ = f
    b = e.facts.norm(slot_of(sh, cell))
    h = e.facts.norm(head)
    want = e.facts.norm(subst(fb, {fold_: head}))
    if b is want:
        v = PROVED
    else:
        v = UNDEC
        for q in SAMP(sh.N):
            mp = {h: const(q, 64)}
            x1, x2 = fold(b, mp), fold(want, mp)
            if x1 is not None and x2 is not None and x1 != x2:
                v = REFUTED
                break
    if sh.qsize and v == PROVED:
        v = same_queue(e.facts, cell.q, hc.q)
    chk.ob(name, rule, v, e.loc, f"position {h}: item at ring offset {b}")
    # the slot holds an item
    B = ring_base(m, an.base, cell, head)
    if sh.stride > sh.T:
        flag = flag_read(m, lv, e, addc(B, sh.T))
        if flag is not None:
            v = decide(e.facts, eq(flag, const(0, 8)), False)
            if v == UNDEC and other_slot(m, e.facts, h, want):
                v = REFUTED
            chk.ob(name, "the slot of a position taken holds an item", v, e.loc, f"mark {flag}")


def other_slot(m, facts, h, want):
    """Were slots looked at, and none of them that of the position?"""
    an, sh = m.body.an, m.sh
    n = 0
    for a, p in list(facts.lits) + list(facts.opq):
        for x in atoms(a):
            if x.op in ("ld", "ald", "unk") and hasattr(x.a[0], "op") and x.a[0].w == 64 and an.in_ring(an.dec(x.a[0])):
                n += 1
                b = facts.norm(slot_of(sh, an.dec(x.a[0])))
                for q in SAMP(sh.N):
                    v, w = fold(b, {h: const(q, 64)}), fold(want, {h: const(q, 64)})
                    if v is None or w is None:
                        return False
                    if not 0 <= signed64(v - w) < sh.stride:
                        break
                else:
                    return False
    return n > 0


def old_of(an, x):
    if x.kind == "rmw":
        return x.old
    if x.kind == "cmpxchg":
        return x.exp
    # an atomic store of something computed from a read of the same cell
    d = lin_parts(x.val)[1]
    c = an.load(x.mem, x.addr, x.size, _st(x))
    if is_int(sub(x.val, c)):
        return c
    return None


def _st(e):
    st = engine.State()
    st.facts, st.mem = e.facts, e.mem
    return st


def flag_read(m, lv, e, addr):
    """The mark of the slot as the facts before the hand-over know it."""
    an = m.body.an
    return an.load(e.mem, addr, 1, _st(e))


def push_slot(m, ens=None):
    """(byte offset in the ring, position) as push computes it."""
    for en in ens or m.push:
        for r in en.rets():
            pos = [p for p in position(en, m.sh, r.events) if m.is_tail(p[1]) and p[4] is None]
            if len(pos) != 1 or pos[0][2] is None:
                continue
            old = pos[0][2]
            for x, cl, s, al in ring_writes(en.an, r.events):
                if al is None and slot_verdict(m.sh, slot_of(m.sh, cl), s, old)[0] != REFUTED:
                    inner = (cl.off - m.sh.ring) % m.sh.stride
                    return addc(slot_of(m.sh, cl), -inner), old
    return None


def tails(m, facts, lv):
    """Reads of the accepted count known at a point."""
    an = m.body.an
    out = set()
    for a, p in list(facts.lits) + list(facts.opq):
        for x in atoms(a):
            if x.op == "ald":
                c = an.dec(x.a[0])
                if c is not None and c.id == m.tail:
                    out.add((x, c))
    return out


def guard(m, facts, lv, head, hc):
    best = UNDEC
    ts = tails(m, facts, lv)
    vs = []
    for t, c in ts:
        if c.q is not hc.q and c.q is not None and eqv(facts, c.q, hc.q) != PROVED:
            continue
        if facts.holds(ult(head, t)) or facts.holds(eq(head, t)) is False:
            return PROVED
        v = decide(facts, eq(head, t), False, (head, t) + tuple(atoms(head)))
        if v == PROVED:
            return PROVED
        vs.append(v)
    if not vs:
        return UNDEC if any(a.op in ("unk", "call") and a.w == 1 for l, p in facts.lits for a in atoms(l)) and False else REFUTED
    return REFUTED if all(v == REFUTED for v in vs) else UNDEC


def item_address(m, lv, e, item):
    """Where the item handed on comes from: an address, or None."""
    sh, an = m.sh, m.body.an
    if item.op == "ld" and an.dec(item.a[0]) is not None:
        return item.a[0]
    if item.op == "unk" and item.w == 8 * sh.T and hasattr(item.a[0], "op") and item.a[0].w == 64 and an.in_ring(an.dec(item.a[0])):
        # read at a place of the ring that may be any
        return item.a[0]
    if item.w == 64 and sh.T not in (8,) or item.w == 64:
        c = an.dec(item)
        if c is not None and an.in_ring(c):
            return item
        r, off = an.root(item)
        if r is not None and r.op == "alloca":
            st = _st(e)
            k = [engine.byte_of(an.load(e.mem, addc(item, j), 1, st)) for j in range(sh.T)]
            if all(x is not None and x[0].op == "ld" and x[0].a[2] == 0 for x in k):
                a0 = addc(k[0][0].a[0], k[0][1])
                if all(addc(x[0].a[0], x[1]) is addc(a0, j) for j, x in enumerate(k)):
                    return a0
            b = an.load(e.mem, item, 1, st)
            if b.op == "ld" and b.a[2] == 0:
                bs = [an.load(e.mem, addc(item, j), 1, st) for j in range(sh.T)]
                if all(x.op == "ld" and x.a[0] is addc(b.a[0], j) for j, x in enumerate(bs)):
                    return b.a[0]
            for x in reversed([x for x in lv if x.kind == "call" and x.args and x.args[0] is item and x is not e]):
                if "basic_string(" in (x.dem or "") and len(x.args) > 1 and "basic_string const&" in x.dem.replace("> const&", " const&").replace(">", "") or "::basic_string(" in (x.dem or ""):
                    return x.args[1]
    return None


def reuse(chk, m, name, calls):
    """Between two laps of the ring: an item is not overwritten before it was handed on, nor read twice."""
    sh = m.sh
    heads = getattr(m, "slotcells", set())
    rule = "an accepted item stays in its slot until it has been handed on"
    for en in m.push:
        for r in en.rets():
            if r.facts.empty():
                continue
            f = push_slot(m)
            pos = [p for p in position(en, sh, r.events) if m.is_tail(p[1]) and p[4] is None]
            if f is None or len(pos) != 1 or pos[0][2] is None:
                continue
            old = pos[0][2]
            for x, cl, s_, al in ring_writes(en.an, r.events):
                if al is not None:
                    continue
                ts = [t for a, p in list(x.facts.lits) + list(x.facts.opq) for t in atoms(a) if t.op == "ald" and (c := en.an.dec(t.a[0])) is not None and c.id in heads]
                slotw = [t for a, p in x.facts.lits for t in atoms(a) if t.op in ("ald", "ld") and t.a[0] is not A1 and en.an.in_ring(en.an.dec(t.a[0]))] if "std::string" not in m.tag else []
                v = REFUTED
                for t in ts:
                    g = decide(x.facts, ult(sub(old, t), const(sh.N, 64)), True, (old, t))
                    v = PROVED if g == PROVED else v if g == REFUTED else UNDEC
                    if v != REFUTED:
                        break
                if v == REFUTED and slotw:
                    v = UNDEC
                chk.ob(m.tag + ":" + en.name, rule, v, x.loc, "the slot is overwritten whether or not the item of the previous lap was handed on", key=f"{m.what}.push.overwrites")
                break
    rule = "a slot whose item was handed on is not taken for a full one"
    for r, lv, al, e in calls:
        if al is None:
            continue
        item = item_address(m, lv, e, e.args[2]) if e.kind == "call" and len(e.args) > 2 else None
        cell = m.body.an.dec(item) if item is not None else None
        if cell is None or not m.body.an.in_ring(cell) or sh.stride <= sh.T:
            continue
        inner = (cell.off - sh.ring) % sh.stride
        st = al.st
        flag = m.body.an.load(st.mem, addc(item, sh.T - inner), 1, st)
        v = decide(st.facts, eq(flag, const(0, 8)), True)
        if any(x.kind == "call" and len(x.args) and x.args[0] is item and "reset" in (x.dem or "") for x in lv):
            v = PROVED
        chk.ob(name, rule, REFUTED if v == REFUTED or flag.op == "ld" and st.facts.holds(eq(flag, const(0, 8))) is False else v, e.loc,
               "the slot still holds the old item when its next position is accepted", key=f"{m.what}.worker.stale")


# ------------------------------------------------------------------ C23
def announce(m):
    """The cell the destructor sets for the worker to see."""
    read = set()
    for r, lv, al in uniq(m.body.recs):
        for e in lv:
            if e.kind in ("load", "rmw"):
                c = m.body.an.dec(e.addr)
                if c is not None and c.q is None and not m.body.an.in_ring(c):
                    read.add(c.id)
    return read


def c23(chk, tier):
    for what in ("stage", "pool"):
        for defs in variants(what, tier):
            m = Model(chk, what, defs, tier)
            destruction(chk, m)
            ending(chk, m)
            if m.closed is not None:
                drains(chk, m)
            if m.closed is not None and m.closed[0] != "q":
                unannounced(chk, m)


def drains(chk, m):
    """Some way of taking an item does not ask for the shutdown not to be announced."""
    an = m.body.an
    own = {k for k in find_head(m) if k != m.tail}
    seen, free, barred = {}, [], []

    def shut(evs, facts):
        """Was the shutdown seen not to be announced?"""
        for e in evs:
            if e.kind in ("load", "rmw") and (c := an.dec(e.addr)) is not None and c.id == m.closed:
                v = e.val if e.kind == "load" else e.old
                if (implies_clear if m.up else implies_set)(facts, v):
                    return True
        return False

    def go(evs, facts, bar):
        bar = bar or shut(evs, facts)
        for e in evs:
            if e.kind in MODS and (c := an.dec(e.addr)) is not None and c.id in own:
                (barred if bar else free).append(e)
            elif e.kind == "loop":
                for al in e.loop.alts:
                    if not al.st.facts.empty() and (id(al), bar) not in seen:
                        seen[id(al), bar] = al
                        go(al.events, al.st.facts, bar)
    for r in m.body.recs:
        if r.kind == "ret" and not r.facts.empty():
            go(r.events, r.facts, False)
    if not free and not barred:
        return
    chk.ob(m.tag + ":worker", "items left at the shutdown are still taken", PROVED if free else REFUTED, (free or barred)[0].loc, "every way of taking an item asks for the shutdown not to be announced")


def flat_events(events, al=None):
    for e in events:
        yield e, al
        if e.kind == "loop":
            for a in e.loop.alts:
                yield from flat_events(a.events, a)


def destruction(chk, m):
    en, sh = m.dtor, m.sh
    an, name = en.an, m.tag + ":" + en.name
    read = announce(m)
    m.closed = None
    for r in en.recs:
        if r.facts.empty() or r.kind in ("noreturn", "terminate"):
            continue
        loc = rec_loc(r, en)
        evs = list(flat_events(r.events))
        ann = [(i, e) for i, (e, al) in enumerate(evs) if e.kind in ("store", "rmw") and (c := an.dec(e.addr)) is not None and c.id in read and al is None]
        joins = [(i, e, al) for i, (e, al) in enumerate(evs) if e.kind == "call" and (e.dem or "").startswith("std::thread::join(")]
        det = [e for e, al in evs if e.kind == "call" and (e.dem or "").startswith("std::thread::detach(")]
        for e in det:
            chk.ob(name, "the destructor waits for the workers", REFUTED, e.loc, "a worker is detached")
        rule = "the destructor announces the shutdown before it waits"
        setters = [(i, e, e.val if e.kind == "store" else e.new) for i, e in ann]
        on = [(i, e) for i, e, v in setters if decide(e.facts, eq(v, const(0, v.w)), False) == PROVED]
        m.up = bool(on)
        if not on:
            # the other way round: a flag that says the worker may go on
            on = [(i, e) for i, e, v in setters if decide(e.facts, eq(v, const(0, v.w))) == PROVED]
        if not on:
            v = REFUTED if not any(e.kind in ("icall", "vcall", "rmw", "cmpxchg") for e, _ in evs) else UNDEC
            chk.ob(name, rule, v, loc, "nothing the worker reads is set")
            continue
        m.closed = an.dec(on[0][1].addr).id
        off = [(i, e, v) for i, e, v in setters if i > on[0][0] and an.dec(e.addr).id == m.closed and decide(e.facts, eq(v, const(0, v.w)), m.up) == PROVED]
        if off:
            chk.ob(name, rule, REFUTED, off[0][1].loc, "the announcement is taken back")
        late = [e for i, e, al in joins if i < on[0][0]]
        chk.ob(name, rule, REFUTED if late else PROVED, (late or [on[0][1]])[0].loc, "waits for a worker that has not been told to end")
        waits(chk, m, en, r, evs, joins, name, loc)


def unannounced(chk, m):
    """Nobody but the destructor announces the shutdown."""
    at, rule = addc(A0, m.closed[1]), "the shutdown is not announced before the destruction"
    size = next((e.size for en in [m.dtor] for r in en.recs for e, al in flat_events(r.events) if e.kind == "store" and e.addr is at), 1)
    en = analyse(chk, m.sh, "vp_ctor")
    for r in en.rets() if en.an is not None else ():
        if r.facts.empty():
            continue
        st = next((e for e, al in flat_events(r.events) if is_start(e)), None)
        if st is None:
            continue
        s = engine.State()
        s.facts, s.mem = st.facts, st.mem
        v = en.an.load(st.mem, at, size, s)
        raw = v.op == "undef" or v.op == "ld" and v.a[2] == 0 and v.a[0] is at
        chk.ob(m.tag + ":ctor", rule, REFUTED if raw else decide(st.facts, eq(v, const(0, v.w)), m.up), st.loc, f"it is {'uninitialised' if raw else v} when the worker starts")
    for en in m.push:
        for r in en.recs:
            for e, al in flat_events(r.events) if not r.facts.empty() else ():
                if e.kind in ("store", "rmw") and e.addr is at:
                    v = e.val if e.kind == "store" else e.new
                    chk.ob(m.tag + ":" + en.name, rule, decide(e.facts, eq(v, const(0, v.w)), m.up), e.loc, "accepting an item announces the shutdown")


def known_bound(facts, K, beg, end):
    """Every condition on the count and the bounds is linear in them."""
    return not any(find(a, lambda x: x.op in ("ashr", "lshr", "udiv", "sdiv", "and", "mul")) for a, p in list(facts.lits) + list(facts.opq) if mentions(a, K))


def thread_fields(sh):
    d1 = [f for f in sh.rec.all if f.depth == 1]
    one = [f for f in d1 if f.type in ("std::thread", "std::jthread")]
    vec = [f for f in d1 if re.match(r"std::vector<(class )?std::j?thread", f.type)]
    return one, vec


def waits(chk, m, en, r, evs, joins, name, loc):
    an, sh = en.an, m.sh
    rule = "the destructor waits for every worker before anything the worker uses is destroyed"
    one, vec = thread_fields(sh)
    done = -1
    for f in one:
        if f.type == "std::jthread":
            continue
        a = addc(A0, f.off)
        js = [(i, e) for i, e, al in joins if e.args[0] is a and al is None]
        if js:
            done = max(done, js[0][0])
            chk.ob(name, rule, PROVED, js[0][1].loc, "")
            continue
        nj = [e for e, al in evs if e.kind == "call" and "::joinable()" in (e.dem or "") and e.args[0] is a]
        ok = any(r.facts.holds(e.ret if e.ret.w == 1 else eq(e.ret, const(0, e.ret.w))) is (False if e.ret.w == 1 else True) for e in nj)
        chk.ob(name, rule, PROVED if ok else REFUTED, loc, "a path through the destructor does not wait for the worker")
    for f in vec:
        b, en_ = addc(A0, f.off), addc(A0, f.off + 8)
        beg, end = mk("ld", (b, 8, 0), 64), mk("ld", (en_, 8, 0), 64)
        inl = [(i, e, al) for i, e, al in joins if al is not None]
        if not joins:
            chk.ob(name, rule, REFUTED, loc, "no worker is waited for")
            continue
        if not inl:
            chk.ob(name, rule, REFUTED if sh.P > 1 else UNDEC, joins[0][1].loc, "only one worker is waited for")
            continue
        lp = next((x.loop for x, al in evs if x.kind == "loop" and any(a is inl[0][2] for a in x.loop.alts)), None)
        if lp is None:
            chk.ob(name, rule, UNDEC, inl[0][1].loc, "")
            continue
        done = max(done, max(i for i, e, al in inl))
        vs = []
        bad = inl[0][1]
        for al in lp.alts:
            js = [e for e in al.events if e.kind == "call" and (e.dem or "").startswith("std::thread::join(")]
            nj = [e for e in al.events if e.kind == "call" and "::joinable()" in (e.dem or "")]
            x = (js or nj or [None])[0]
            if x is None:
                vs.append(REFUTED)
                continue
            el = al.st.facts.norm(x.args[0])
            d = sub(el, beg)
            want = mulc(lp.K, 8)
            rev = sub(sub(end, beg), addc(want, 8))
            vs.append(PROVED if d is want or al.st.facts.norm(d) is al.st.facts.norm(want) or al.st.facts.norm(sub(d, rev)) is const(0, 64) else REFUTED if is_int(d) else UNDEC)
            if not js:
                held = [e for e in nj if not any(a is e.ret and not p or (a.op == "not" and a.a[0] is e.ret and p) for a, p in al.lits)]
                if held and not any(al.st.facts.holds(e.ret) is False for e in nj if e.ret.w == 1):
                    vs.append(REFUTED)
        v = decide(r.facts, ult(mulc(lp.K, 8), sub(end, beg)), False, (beg, end, lp.K))
        if v != PROVED:
            if r.facts.holds(eq(mulc(lp.K, 8), sub(end, beg))) or r.facts.holds(ult(lp.K, mk("ashr", (sub(end, beg), const(3, 64)), 64))) is False:
                v = PROVED
            elif any(mentions(a, beg) or mentions(a, end) for a, p in list(r.facts.lits) + list(r.facts.opq) if mentions(a, lp.K)):
                v = UNDEC if v != REFUTED or not known_bound(r.facts, lp.K, beg, end) else v
        vs.append(v)
        chk.ob(name, rule, both(*vs), bad.loc, "the loop does not wait for every worker")
    # destroyed before the wait
    if done >= 0:
        body = accesses(m, m.body, own=True)
        for i, (e, al) in enumerate(evs[:done]):
            if e.kind == "call" and e.args and not (e.dem or "").endswith(" const") and not (e.dem or "").startswith("std::thread::") and not MTX.match(e.dem or "") and not WATCH.match(e.dem or ""):
                c = an.dec(e.args[0])
                if c is not None and any(overlap(span(m, c, None), a.span) for a in body):
                    chk.ob(name, rule, REFUTED, e.loc, f"{(e.dem or '')[:60]} while the worker may still run")


def ending(chk, m):
    an, name, sh = m.body.an, m.tag + ":worker", m.sh
    rets = [r for r in m.body.recs if r.kind == "ret" and not r.facts.empty()]
    ever = [r for r in m.body.recs if r.kind == "forever" and not r.facts.empty()]
    for r in ever:
        chk.ob(name, "the worker ends once shutdown was announced", REFUTED, r.events[-1].loc, "a loop of the worker is never left")
    if ever:
        return
    if not rets:
        chk.ob(name, "the worker ends once shutdown was announced", REFUTED, m.body.loc, "the worker never ends")
        return
    if m.closed is None:
        return
    heads = {k for k in find_head(m) if k != m.tail}
    for r in rets:
        loc = rec_loc(r, m.body)
        seq = list(r.events)
        cl = [(i, e) for i, e in enumerate(seq) if e.kind in ("load", "rmw") and (c := an.dec(e.addr)) is not None and c.id == m.closed]
        on = [(i, e) for i, e in cl if (implies_set if m.up else implies_clear)(r.facts, e.val if e.kind == "load" else e.old)]
        rule = "the worker ends only after shutdown was announced"
        if not on:
            inl = [e for e, al in all_events(seq) if al is not None and e.kind == "load" and (c := an.dec(e.addr)) is not None and c.id == m.closed]
            v = UNDEC if inl and not cl and any(mentions(a, x.val) for x in inl for a, p in r.facts.lits) else REFUTED
            chk.ob(name, rule, v, loc, "the worker ends without having seen the shutdown")
            continue
        chk.ob(name, rule, PROVED, on[0][1].loc, "")
        rule = "the worker ends only with nothing accepted left"
        i0 = on[0][0]
        ts = [(i, e) for i, e in enumerate(seq) if e.kind in ("load", "rmw") and (c := an.dec(e.addr)) is not None and c.id == m.tail]
        best = None
        for hid in heads:
            cands = []
            for i, e in ts:
                c = an.dec(e.addr)
                t = e.val if e.kind == "load" else e.old
                ha = next((x.addr for x, al in all_events(seq) if x.kind in MODS + ("load",) and (k := an.dec(x.addr)) is not None and k.id == hid), None)
                if ha is None:
                    continue
                h = an.load(r.st.mem, ha, e.size, r.st)
                if i < i0:
                    cands.append(REFUTED)
                    continue
                cands.append(decide(r.facts, ult(h, t), False, (t, h) + tuple(atoms(h))))
            v = PROVED if PROVED in cands else UNDEC if UNDEC in cands else REFUTED
            best = v if best is None or v == PROVED else best
        if best is None:
            best = UNDEC
        early = ts and all(i < i0 for i, e in ts)
        chk.ob(name, rule, best, (ts[-1][1].loc if ts else loc), "the queue was seen empty before the shutdown was: an item accepted in between is lost" if early else "items may be left")


def rules_out_zero(a, p, c):
    z = subst(a, {c: const(0, c.w)})
    return is_int(z) and bool(ival(z)) != p or z.op in ("true", "false") and (z.op == "true") != p


def implies_clear(facts, c):
    for a, p in list(facts.lits) + list(facts.opq):
        if mentions(a, c) and all(is_int(z := subst(a, {c: const(k, c.w)})) and bool(ival(z)) != p or z.op in ("true", "false") and (z.op == "true") != p for k in (1, (1 << c.w) - 1)):
            return True
    return facts.holds(eq(c, const(0, c.w))) is True


def implies_set(facts, c):
    for a, p in list(facts.lits) + list(facts.opq):
        if mentions(a, c) and rules_out_zero(a, p, c):
            return True
    return facts.holds(eq(c, const(0, c.w))) is False


# ------------------------------------------------------------------ C24
START = re.compile(r"^std::thread::thread<|::emplace_back<.*lambda")


def starts(events):
    return [(e, al) for e, al in flat_events(events) if e.kind == "call" and (e.dem or "").startswith("std::thread::thread<")
            or e.kind == "call" and "std::thread" in (e.dem or "") and "::emplace_back<" in (e.dem or "")]


SIZES = {"unsigned long": 8, "long": 8, "unsigned int": 4, "int": 4, "unsigned short": 2, "short": 2, "unsigned char": 1, "char": 1, "signed char": 1, "unsigned long long": 8, "long long": 8}


def c24(chk, tier):
    for defs in variants("pool", tier):
        m = Model(chk, "pool", defs, tier)
        sh = m.sh
        if not sh.qsize:
            chk.ob(m.tag, "the queues of the pool are recognised", UNDEC, None, "")
            continue
        creation(chk, m)
        own_queue(chk, m)
        for en in m.push:
            dispatch(chk, m, en)


def creation(chk, m):
    sh = m.sh
    en = analyse(chk, sh, "vp_ctor")
    if en.err:
        return
    an, name = en.an, m.tag + ":ctor"
    rule = "one worker is started per queue"
    for r in en.rets():
        if r.facts.empty():
            continue
        st = starts(r.events)
        loc = rec_loc(r, en)
        if not st:
            chk.ob(name, rule, UNDEC if any(e.kind in ("icall", "vcall") for e, _ in all_events(r.events)) else REFUTED, loc, "no worker is started")
            continue
        lp = next((e.loop for e, al in flat_events(r.events) if e.kind == "loop" and any(a is st[0][1] for a in e.loop.alts)), None)
        if lp is None:
            direct = [e for e, al in st if al is None]
            chk.ob(name, rule, (PROVED if len(direct) == sh.P == 1 else REFUTED if len(direct) < sh.P else UNDEC), direct[0].loc if direct else loc, f"{len(direct)} workers for {sh.P} queues")
            continue
        for al in lp.alts:
            per = [e for e in al.events if (e, al) in [(x, y) for x, y in st]]
            per = [e for e in al.events if any(e is x for x, y in st)]
            if len(per) != 1:
                chk.ob(name, rule, REFUTED if not any(e.kind == "loop" for e in al.events) else UNDEC, (per or [lp])[0].loc, f"{len(per)} workers started for one queue")
                continue
            e = per[0]
            emp = "::emplace_back<" in e.dem
            kept = emp or any(x.kind == "call" and re.search(r"vector<std::thread.*::(push_back|emplace_back)", x.dem or "") for x in al.events)
            chk.ob(name, "every worker is kept for the destructor to wait for", PROVED if kept else UNDEC, e.loc, "")
            idx = index_arg(an, e)
            if idx is None:
                chk.ob(name, "the workers get the queues one by one", UNDEC, e.loc, "the index is not recognised")
                continue
            w = min(idx.w, 32)
            a = trunc(idx, w) if idx.w > w else idx
            want = trunc(lp.K, w)
            v = PROVED if a is want or al.st.facts.norm(a) is al.st.facts.norm(want) else UNDEC
            if v == UNDEC:
                # a permutation of the queues is as good
                vals = [fold(e.facts.norm(a), {lp.K: const(k, 64)}) for k in range(sh.P)]
                if None not in vals:
                    v = PROVED if sorted(vals) == list(range(sh.P)) else REFUTED
            chk.ob(name, "the workers get the queues one by one", v, e.loc, f"worker number k gets queue {a}")
        v = decide(r.facts, eq(lp.K, const(sh.P, 64)), True, (lp.K,))
        if v != PROVED:
            cnt = next((c for c in range(0, sh.P + 9) if decide(r.facts, eq(lp.K, const(c, 64)), True) == PROVED), None)
            v = REFUTED if cnt is not None else UNDEC
            hw = [e.ret for e, _ in all_events(r.events) if e.kind == "call" and e.get("ret") is not None and "hardware_concurrency" in (e.dem or "")]
            if any(mentions(a, h) and mentions(a, lp.K) for h in hw for a, p in list(r.facts.lits) + list(r.facts.opq)):
                v = REFUTED
        chk.ob(name, rule, v, lp.alts[0].events[0].loc if lp.alts[0].events else loc, f"the number of workers is not {sh.P}")


def index_arg(an, e):
    emp = "::emplace_back<" in e.dem
    i = 2
    if len(e.args) <= i:
        return None
    par = e.dem.rstrip(")").rsplit(",", 1)[-1].strip().rstrip("&").strip().replace(" const", "").replace("const ", "")
    n = SIZES.get(par)
    if n is None:
        return None
    return an.load(e.mem, e.args[i], n, _st(e))


def own_queue(chk, m):
    """The worker uses the queue whose number it was given, and only that."""
    an, name = m.body.an, m.tag + ":worker"
    rule = "a worker uses its own queue only"
    seen = set()
    for r, lv, al in uniq(m.body.recs):
        for e in lv:
            for k in ("addr", "dst", "src"):
                a = e.get(k)
                if a is None or a.w != 64:
                    continue
                one_queue(chk, m, name, rule, e, a, seen)
            if e.kind == "call":
                for a in e.args:
                    if a.w == 64:
                        one_queue(chk, m, name, rule, e, a, seen)


def one_queue(chk, m, name, rule, e, a, seen):
    an = m.body.an
    c = an.dec(a)
    if c is None or c.q is None:
        return
    q = e.facts.norm(c.q)
    if (q, short(e.loc)) in seen:
        return
    seen.add((q, short(e.loc)))
    x = q
    while x.op in ("sext", "zext", "trunc"):
        x = x.a[0]
    par = x.op == "ld" and A0 in lin_parts(x.a[0])[1] and x.a[2] == 0
    v = PROVED if par else REFUTED
    lv = [a2 for a2 in atoms_under(q) if a2.op == "ld" and A0 in lin_parts(a2.a[0])[1] and a2.a[2] == 0]
    if not par and len(lv) == 1:
        got = [fold(q, {lv[0]: const(k, lv[0].w)}) for k in range(m.sh.P)]
        if None not in got:
            # any one-to-one choice of an existing queue is as good
            got = [g & ((1 << 64) - 1) for g in got]
            v = PROVED if sorted(got) == list(range(m.sh.P)) else REFUTED
            par = True
        else:
            v, par = UNDEC, True
    if not par:
        d = lin_parts(q)[1]
        if not is_int(q) and not any(a2.op in ("ld", "sext", "zext") for a2 in d):
            v = UNDEC
    chk.ob(name, rule, v, e.loc, f"queue {q}")


def dispatch(chk, m, en):
    """The queue a push chooses exists, and none has a smaller backlog."""
    an, sh, name = en.an, m.sh, m.tag + ":" + en.name
    rule = "an item goes to an existing queue"
    rule2 = "an item goes to a queue with the smallest backlog"
    heads = {k for k in find_head(m) if k != m.tail}
    for r in en.rets():
        if r.facts.empty():
            continue
        pos = [p for p in position(en, sh, r.events) if m.is_tail(p[1]) and p[4] is None]
        if len(pos) != 1:
            continue
        e, c = pos[0][:2]
        q = e.facts.norm(c.q)
        x = q
        while x.op in ("sext", "zext", "trunc"):
            x = x.a[0]
        if is_int(q):
            chk.ob(name, rule, PROVED if ival(q) < sh.P else REFUTED, e.loc, f"queue {ival(q)} of {sh.P}")
            chk.ob(name, rule2, PROVED if sh.P == 1 else REFUTED, e.loc, "the backlog of the queues is not looked at")
            continue
        v = decide(e.facts, ult(q, const(sh.P, 64)), True)
        lp = key = None
        for ev in r.events:
            if ev.kind == "loop":
                for k, kd in list(ev.loop.kinds.items()) + list(ev.loop.cells.items()):
                    ph = phi_of(ev.loop, k)
                    if ph is not None and (ph is x or e.facts.norm(ph) is x):
                        lp, key, x = ev.loop, k, ph
        gq = widen
        if lp is None:
            # a queue computed from the loop's result
            under = atoms_under(q)
            for ev in r.events:
                if ev.kind == "loop" and len(under) == 1:
                    for k, kd in list(ev.loop.kinds.items()) + list(ev.loop.cells.items()):
                        ph = phi_of(ev.loop, k)
                        if ph is not None and (ph in under or e.facts.norm(ph) in under):
                            lp, key, x = ev.loop, k, next(iter(under))
                            gq = lambda t, q=q, x=x: e.facts.norm(subst(q, {x: t}))
        if lp is None:
            if v == UNDEC or v == REFUTED and not loads_any(r, an, heads):
                v2 = REFUTED if not loads_any(r, an, heads) else UNDEC
            else:
                v2 = UNDEC
            chk.ob(name, rule, v if v != REFUTED or x.op == "ald" else UNDEC, e.loc, f"queue {q}")
            if sh.P > 1:
                chk.ob(name, rule2, v2, e.loc, "the backlog of the queues is not looked at")
            continue
        choose(chk, m, en, r, lp, key, x, name, rule, rule2, gq)


def loads_any(r, an, ids):
    return any(e.kind in ("load", "rmw", "call", "icall") and (e.kind in ("call", "icall") or (c := an.dec(e.addr)) is not None and c.id in ids) for e, al in all_events(r.events))


def phi_of(lp, k):
    return (lp.csym if isinstance(k, tuple) else lp.sym).get(k)


def init_of(lp, k):
    return (lp.cinit if isinstance(k, tuple) else lp.inits).get(k)


def strip(x):
    while x.op in ("sext", "zext", "trunc"):
        x = x.a[0]
    return x


def widen(t):
    return t if t.w == 64 else zext(t, 64)


def odd_measure(m, an, heads, allk, lp, key, x, ways, sh):
    """What is noted of a queue in place of its backlog, tried with backlogs a queue can have."""
    for k in allk:
        y = phi_of(lp, k)
        if k == key or y is None:
            continue
        for al in ways:
            ny = al.nexts.get(k)
            if ny is None or ny is y:
                continue
            ts = {e.val for e in al.events if e.kind == "load" and (c := an.dec(e.addr)) is not None and c.q is not None and c.id == m.tail}
            hs = {e.val for e in al.events if e.kind == "load" and (c := an.dec(e.addr)) is not None and c.q is not None and c.id in heads}
            if len(ts) != 1 or len(hs) != 1:
                continue
            t, h = *ts, *hs
            if not mentions(ny, t) or not mentions(ny, h):
                continue
            if al.nexts.get(key) in (None, x):
                continue
            tests = [(a, p) for a, p in al.lits if mentions(a, y) and (mentions(a, t) or mentions(a, h))]
            if not tests:
                continue
            # taken over a queue of another backlog?
            for lo in (0, 5, 1000003):
                ms = [fold(ny, {t: const(lo + b, t.w), h: const(lo, h.w)}) for b in range(sh.N + 1)]
                if None in ms:
                    return None
                bs = sorted({0, 1, 2, sh.N // 2, sh.N - 1, sh.N, *range(250, 260)} & set(range(sh.N + 1)))
                for b1 in bs:
                    for b2 in bs:
                        vs = [(fold(a, {t: const(lo + b2, t.w), h: const(lo, h.w), y: const(ms[b1], y.w)}), p) for a, p in tests]
                        if any(v is None for v, _ in vs):
                            return None
                        if b1 != b2 and all(bool(v) == p for v, p in vs) != (b2 < b1):
                            return f"a queue with {b2} items waiting is {'' if b2 > b1 else 'not '}preferred to one with {b1}"
            return ""
    return None


def choose(chk, m, en, r, lp, key, x, name, rule, rule2, gq):
    an, sh = en.an, m.sh
    heads = {k for k in find_head(m) if k != m.tail}
    init = init_of(lp, key)
    loc = lp.alts[0].events[0].loc if lp.alts and lp.alts[0].events else rec_loc(r, en)
    first = gq(init) if init is not None and init.w == x.w else mk("unk", ("init",), 64)
    vs = [PROVED if is_int(first) and 0 <= sval(first) < sh.P else REFUTED if is_int(first) else UNDEC]
    ways = [al for al in lp.alts if not al.st.facts.empty()]
    for al in ways:
        nx = al.nexts.get(key)
        if nx is x:
            continue
        if nx is None:
            vs.append(UNDEC)
            continue
        n = next((c for c in range(0, sh.P + 9) if decide(r.facts, eq(lp.K, const(c, 64)), True) == PROVED), None)
        got = [fold(gq(nx), {lp.K: const(j, 64)}) for j in range(n)] if n is not None else [None]
        if None not in got:
            # every round the loop makes, one by one
            vs.append(PROVED if all(0 <= g < sh.P for g in got) else REFUTED if not any(p and not mentions(a, lp.K) for a, p in al.lits) else UNDEC)
            continue
        v = decide(al.st.facts, ult(gq(nx), const(sh.P, 64)), True, (lp.K,))
        if v == REFUTED and mentions(nx, lp.K):
            # within the iterations the loop makes?
            c = next((k for k in range(sh.P, sh.P + 2) if possible(al.st.facts, lp.K, k)), None)
            v = UNDEC if c is None else v
        vs.append(v)
    chk.ob(name, rule, both(*vs), loc, "the chosen queue may not exist")
    # the smallest backlog
    def size_in(al):
        """backlogs of one queue read in this way: [(queue, term)]"""
        out = []
        ts, hs = [], []
        for e in al.events:
            if e.kind == "load" and (c := an.dec(e.addr)) is not None and c.q is not None:
                if c.id == m.tail:
                    ts.append((c.q, e.val))
                elif c.id in heads:
                    hs.append((c.q, e.val))
        for q1, t in ts:
            for q2, h in hs:
                if q1 is q2:
                    out.append((q1, sub(t, h)))
        return out
    sized = [al for al in ways if size_in(al)]
    if not sized:
        inner = any(e.kind in ("loop", "call", "icall") for al in ways for e in al.events)
        tl = any(e.kind == "load" and (c := an.dec(e.addr)) is not None and (c.id == m.tail or c.id in heads) for al in ways for e in al.events)
        chk.ob(name, rule2, UNDEC if inner else REFUTED, loc, "the queues are compared by something else than their backlog" if tl else "the backlog of the queues is not looked at")
        return
    best = None
    allk = {**lp.kinds, **lp.cells}
    for k, kd in allk.items():
        y = phi_of(lp, k)
        if k == key or y is None or kd[0] != "gen":
            continue
        for al in ways:
            ny = al.nexts.get(k)
            if ny is not None and ny is not y and any(widen(ny) is s_ or ny is trunc(s_, ny.w) for q_, s_ in size_in(al) if ny.w <= 64):
                best = (k, y)
    if best is None:
        fixed = [al for al in sized if (nq := al.nexts.get(key)) is not None and nq is not x]
        def against_constant(al):
            ss = [s_ for q_, s_ in size_in(al)]
            cmp_ = [a for a, p in al.st.facts.lits if any(mentions(a, z) for s_ in ss for z in atoms(s_) if z.op == "ald")]
            return bool(cmp_) and all(set(z for z in atoms_under(a)) <= set(z for s_ in ss for z in atoms_under(s_)) for a in cmp_)
        if sh.P > 1 and fixed and all(against_constant(al) for al in fixed):
            chk.ob(name, rule2, REFUTED, loc, "a backlog is not compared with the smallest one found so far")
            return
        odd = []
        for k, kd in allk.items():
            y = phi_of(lp, k)
            if k == key or y is None or kd[0] != "gen" or y.w < 32:
                continue
            for al in ways:
                ny = al.nexts.get(k)
                if ny is not None and ny is not y:
                    for a in lin_parts(ny)[1]:
                        if a.op == "ald":
                            odd.append(ny)
        why = odd_measure(m, an, heads, allk, lp, key, x, ways, sh)
        if why is not None:
            chk.ob(name, rule2, REFUTED if why else UNDEC, loc, why or "the queues are compared by what is computed from their backlog")
            return
        chk.ob(name, rule2, REFUTED if odd and all(set(a.op for a in lin_parts(o)[1]) <= {"ald"} for o in odd) else UNDEC, loc, f"the queues are compared by {odd[:1]}")
        return
    k, y = best
    vs, why = [], ""
    for al in ways:
        nq, ny = al.nexts.get(key), al.nexts.get(k)
        S = size_in(al)
        if nq is None or ny is None or not S:
            vs.append(UNDEC)
            continue
        if y.w != 64:
            vs.append(UNDEC)
            continue
        if nq is not x:
            got = [(q_, s_) for q_, s_ in S if ny is s_]
            if not got:
                vs.append(REFUTED if ny is y else UNDEC)
                why = "a queue is chosen without noting its backlog"
                continue
            q_, s_ = got[0]
            if gq is not widen:
                same = eqv(al.st.facts, q_, gq(nq)) == PROVED or fold(sub(q_, gq(nq)), {lp.K: const(1, 64)}) == 0
            else:
                same = eqv(al.st.facts, strip(q_) if strip(q_).w == strip(nq).w else q_, strip(nq) if strip(q_).w == strip(nq).w else widen(nq)) == PROVED or fold(sub(q_, widen(nq)), {lp.K: const(1, 64)}) == 0
            if not same:
                vs.append(REFUTED)
                why = "the chosen queue is not the one whose backlog was read"
                continue
            v = decide(al.st.facts, ult(y, s_), False, (y, s_) + tuple(atoms(s_)))
            why = why or ("a queue with a larger backlog is preferred" if v == REFUTED else "")
            vs.append(v)
        else:
            q_, s_ = S[0]
            v = decide(al.st.facts, ult(s_, y), False, (y, s_) + tuple(atoms(s_)))
            why = why or ("a queue with a smaller backlog is passed over" if v == REFUTED else "")
            vs.append(v)
            if ny is not y and eqv(al.st.facts, ny, y) != PROVED:
                vs.append(REFUTED if any(ny is s2 for _, s2 in S) else UNDEC)
                why = why or "the smallest backlog is overwritten without choosing its queue"
    ib = init_of(lp, k)
    qs = {q_ for al in sized for q_, s_ in size_in(al)}
    if len(qs) == 1:
        qk = next(iter(qs))
        n = next((c for c in range(0, sh.P + 2) if decide(r.facts, eq(lp.K, const(c, 64)), True) == PROVED), None)
        if n is not None:
            seen = {fold(qk, {lp.K: const(j, 64)}) for j in range(n)}
            if ib is not None and not is_int(ib):
                seen.add(sval(first) if is_int(first) else None)
            ok = set(range(sh.P)) <= seen
            vs.append(PROVED if ok else UNDEC if None in seen else REFUTED)
            why = why or ("" if ok else f"only the queues {sorted(x_ for x_ in seen if x_ is not None)} of {sh.P} are compared")
        else:
            vs.append(UNDEC)
    if ib is not None and is_int(ib):
        vs.append(PROVED if ival(ib) >= (1 << 31) - 1 else REFUTED if ival(ib) < 1 << 16 else UNDEC)
        why = why or ("" if vs[-1] != REFUTED else f"backlogs of {ival(ib)} and more are not compared")
    chk.ob(name, rule2, both(*vs), loc, why)


def possible(facts, K, k):
    f = facts.copy()
    return f.add(eq(K, const(k, 64)), True) and not f.empty()


# ------------------------------------------------------------------ accesses
class Acc:
    __slots__ = ("span", "write", "atomic", "held", "loc", "q", "what", "ev")

    def __init__(self, span, write, atomic, held, loc, q, what, ev):
        self.span, self.write, self.atomic, self.held, self.loc, self.q, self.what, self.ev = span, write, atomic, held, loc, q, what, ev


def region(sh, c):
    """The member an offset lies in: (in queue?, from, to)."""
    rec = sh.qrec if c.q is not None and sh.qsize else sh.rec
    d1 = [f for f in rec.all if f.depth == 1]
    best = None
    for f in rec.all:
        if f.off <= c.off < f.off + f.size and f.size and not re.match(r"^(class |struct )?xitren::.*::\w+$", f.type) and not f.base:
            if best is None or f.depth < best.depth:
                best = f
    return best


def span(m, c, size):
    """(kind, lo, hi) of an access; size None: the member the address begins."""
    sh = m.sh
    kind = "q" if c.q is not None else "o"
    if (sh.qsize is not None) == (c.q is not None) and (not is_int(c.rest) or sh.ring <= c.off < sh.ring + sh.rsize):
        return (kind, sh.ring, sh.ring + sh.rsize)
    if size is None:
        f = region(sh, c)
        if f is not None:
            return (kind, c.off, f.off + f.size)
        return (kind, c.off, c.off + 1)
    return (kind, c.off, c.off + size)


def overlap(a, b):
    return a[0] == b[0] and a[1] < b[2] and b[1] < a[2]


CONSTM = re.compile(r"::(begin|end|cbegin|cend|size|empty|front|back|operator\(\)|at|operator\[\]|has_value|load|rbegin|rend|joinable|get_id|max_size)\(")
DEQIT = re.compile(r"^std::_Deque_iterator<.*>::operator(\*|->)\(")


def accesses(m, en, own=False, upto=None):
    """What an operation does to the object, with the mutexes of the object it holds."""
    out = []
    an = en.an
    seen = set()
    for r in en.recs:
        if r.facts.empty() or r.kind in ("noreturn",):
            continue
        cut = upto
        if upto is not None and not any(upto(e) for e in r.events):
            # on this path no thread is waited for: it looked for one and found none running
            cut = lambda e: e.kind == "call" and (e.dem or "").startswith("std::thread::joinable(")
        walk_acc(m, an, r.events, frozenset(), out, seen, cut, [])
    return out


def walk_acc(m, an, events, held, out, seen, upto, its):
    for e in events:
        if upto is not None and upto(e):
            return None
        if e.kind == "loop":
            h0 = held
            for al in e.loop.alts:
                if id(al) in seen:
                    continue
                seen.add(id(al))
                walk_acc(m, an, al.events, h0, out, seen, upto, its)
            continue
        if e.kind == "call":
            d = e.get("dem") or ""
            mm = MTX.match(d)
            if mm:
                c = an.dec(e.args[0])
                k = (c.id, c.q) if c is not None else None
                if k is not None:
                    if mm.group(1) == "lock":
                        held = held | {k}
                    elif mm.group(1) == "lock_shared":
                        held = held | {k + ("shared",)}
                    elif mm.group(1) in ("unlock", "unlock_shared"):
                        held = frozenset(x for x in held if x[:2] != k)
                    else:
                        held = held | {k}
                continue
            if DEQIT.match(d):
                for sp, q in its:
                    put(out, seen, sp, False, False, held, e, q, d)
                continue
            watch = bool(WATCH.match(d))
            for k, a in enumerate(e.args):
                if a.w != 64:
                    continue
                c = an.dec(a)
                if c is None:
                    continue
                sp = span(m, c, None)
                if "std::deque<" in d and ("::begin(" in d or "::end(" in d):
                    its.append((sp, c.q))
                const = d.endswith(" const") or CONSTM.search(d) or d.startswith("std::thread::")
                write = not const and (k == 0 and not re.match(r".*\bconst ?&\)$", "") or k > 0 and False)
                if k > 0 and not const:
                    write = False
                put(out, seen, sp, write and not watch, watch, held, e, c.q, d)
            continue
        ads = []
        if e.kind == "load":
            ads = [(e.addr, e.size, False)]
        elif e.kind in MODS:
            ads = [(e.addr, e.size, True)]
        elif e.kind == "copy":
            n = e.n if isinstance(e.n, int) else sval(e.n) if is_int(e.n) else None
            ads = [(e.dst, n, True), (e.src, n, False)]
        elif e.kind == "set":
            n = e.n if isinstance(e.n, int) else sval(e.n) if is_int(e.n) else None
            ads = [(e.dst, n, True)]
        for a, n, w in ads:
            c = an.dec(a)
            if c is None:
                continue
            at = bool(e.get("atomic"))
            put(out, seen, span(m, c, n), w, at, held, e, c.q, e.kind)
    return held


def put(out, seen, sp, write, atomic, held, e, q, what):
    k = (sp, write, atomic, held, short(e.loc), q)
    if k in seen:
        return
    seen.add(k)
    out.append(Acc(sp, write, atomic, held, e.loc, q, what, e))


# ------------------------------------------------------------------ C25
def c25(chk, tier):
    for what in ("stage", "pool"):
        for defs in variants(what, tier):
            m = Model(chk, what, defs, tier)
            en = analyse(chk, m.sh, "vp_ctor")
            if en.err:
                continue
            before_start(chk, m, en, accesses(m, m.body) + locked(m))
            initial(chk, m, en)
    from . import interval
    interval.c25(chk, tier)


def locked(m):
    """The mutexes of the object the worker locks."""
    out, seen = [], set()
    for r, lv, al in uniq(m.body.recs):
        for e in lv:
            if e.kind == "call" and MTX.match(e.get("dem") or "") and (c := m.body.an.dec(e.args[0])) is not None:
                put(out, seen, span(m, c, None), True, False, frozenset(), e, c.q, "mutex")
    return out


def before_start(chk, m, en, body):
    an, name = en.an, m.tag + ":ctor"
    rule = "a background thread starts only after the members it uses are initialised"
    for r in en.rets():
        if r.facts.empty():
            continue
        started = None
        bad = 0
        for e in r.events:
            if e.kind == "loop":
                st = [x for al in e.loop.alts for x in al.events if is_start(x)]
                for al in e.loop.alts:
                    s = started
                    for x, _ in flat_events(al.events):
                        # in later rounds everything in the loop comes after a start
                        if is_start(x):
                            s = s or x
                        elif s or st:
                            bad += touched(chk, m, an, name, rule, x, s or st[0], body)
                if st:
                    started = started or st[0]
                continue
            if is_start(e):
                started = started or e
            elif started is not None:
                bad += touched(chk, m, an, name, rule, e, started, body)
        if started is not None and not bad:
            chk.ob(name, rule, PROVED, started.loc, "")
        if started is None:
            chk.ob(name, rule, UNDEC, rec_loc(r, en), "no thread is started")


def is_start(e):
    return e.kind == "call" and ((e.dem or "").startswith("std::thread::thread<") or "std::thread" in (e.dem or "") and "::emplace_back<" in (e.dem or ""))


def touched(chk, m, an, name, rule, e, started, body):
    ads = []
    if e.kind in MODS and not e.get("atomic"):
        ads = [(e.addr, e.size)]
    elif e.kind in ("copy", "set"):
        n = e.n if isinstance(e.n, int) else sval(e.n) if is_int(e.n) else None
        ads = [(e.dst, n)]
    elif e.kind == "call" and e.args and not (e.dem or "").endswith(" const") and not MTX.match(e.dem or "") and not WATCH.match(e.dem or "") and not (e.dem or "").startswith("std::thread::"):
        ads = [(e.args[0], None)]
    for a, n in ads:
        c = an.dec(a)
        if c is None:
            continue
        sp = span(m, c, n)
        if any(overlap(sp, b.span) for b in body):
            chk.ob(name, rule, REFUTED, e.loc, f"{e.get('dem') or e.kind} initialises a member after the thread was started at {short(started.loc)}")
            return 1
    return 0


def initial(chk, m, en):
    """Values the worker relies on, at the moment it may start."""
    an, sh = en.an, m.sh
    heads = {k for k in find_head(m) if k != m.tail}
    for r in en.rets():
        if r.facts.empty():
            continue
        st = next((e for e, al in flat_events(r.events) if is_start(e)), None)
        if st is None or m.tail is None:
            continue
        open_ = 0
        for q in range(sh.P if sh.qsize else 1):
            def cell(i):
                return addc(A0, (sh.qoff + q * sh.qsize if i[0] == "q" else 0) + i[1])
            s = engine.State()
            s.facts, s.mem = st.facts, st.mem
            vals = [(h, an.load(st.mem, cell(h), 8, s)) for h in sorted(heads | {m.tail})]
            for h, v in vals:
                raw = v.op == "undef" or v.op == "ld" and v.a[2] == 0 and v.a[0] is cell(h)
                if raw:
                    chk.ob(m.tag + ":ctor", "the counters are initialised when the thread starts", REFUTED, st.loc, f"counter at offset {h[1]} has no value yet")
            if len(vals) == 2:
                d = sub(vals[0][1], vals[1][1])
                if not is_int(d):
                    open_ += 1
                    if open_ > 1:  # one line for the queues a loop fills
                        continue
                chk.ob(m.tag + ":ctor", "the counters of a queue start out equal", PROVED if is_int(d) and ival(d) == 0 else REFUTED if is_int(d) else UNDEC, st.loc, f"they differ by {d}")


# ------------------------------------------------------------------ C26
def c26(chk, tier):
    for what in ("stage", "pool"):
        for defs in variants(what, tier):
            m = Model(chk, what, defs, tier)
            ops = list(m.push)
            for f in ("vp_time", "vp_load"):
                if f in m.unit["by"]:
                    ops.append(analyse(chk, m.sh, f))
            body = accesses(m, m.body)
            pubs = [(en, accesses(m, en)) for en in ops if not en.err]
            pubs.append((m.dtor, accesses(m, m.dtor, upto=lambda e: e.kind == "call" and (e.dem or "").startswith("std::thread::join(") or e.kind == "loop" and any(x.kind == "call" and (x.dem or "").startswith("std::thread::join(") for al in e.loop.alts for x in al.events))))
            conflicts(chk, m.tag, m, body, pubs)
            if what == "pool":
                # two workers: each its own queue
                sh2 = [a for a in body if a.span[0] == "o"]
                pair(chk, m.tag, m, sh2, m.body, sh2, "another worker")
    from . import interval
    interval.c26(chk, tier)


def name_of(m, sp):
    rec = m.sh.qrec if sp[0] == "q" and m.sh.qsize else m.sh.rec
    best = None
    for f in rec.all:
        if f.off <= sp[1] < f.off + f.size and not f.base and (best is None or f.depth > best.depth) and not f.name.startswith("_M") and not f.name.startswith("__"):
            best = f
    return best.name if best is not None else f"offset {sp[1]}"


def conflicts(chk, tag, m, body, pubs):
    for en, acc in pubs:
        pair(chk, tag, m, body, en, acc, en.name)


def pair(chk, tag, m, body, en, acc, who):
    rule = "a member shared with a background thread is synchronised"
    n = 0
    seen = set()
    for a in body:
        for b in acc:
            if not overlap(a.span, b.span) or not (a.write or b.write):
                continue
            n += 1
            ok = a.atomic and b.atomic
            if not ok:
                for x in a.held:
                    for y in b.held:
                        if same_mutex(x, y) and not ("shared" in x and "shared" in y):
                            ok = True
                        if "shared" in x and a.write or "shared" in y and b.write:
                            ok = False
            nm = name_of(m, a.span)
            k = (nm, ok, short(a.loc), short(b.loc))
            if k in seen:
                continue
            seen.add(k)
            ring = getattr(m.sh, "rsize", None) is not None and a.span[1:] == (m.sh.ring, m.sh.ring + m.sh.rsize) and b.span[1:] == a.span[1:]
            chk.ob(tag + ":" + who, rule, PROVED if ok else REFUTED, b.loc if b.write else a.loc,
                   f"{nm}: {'written' if a.write else 'read'} by the thread at {short(a.loc)}, {'written' if b.write else 'read'} by {who} at {short(b.loc)}, without synchronisation",
                   key=f"{m.what}.ring.unsynchronised" if ring and "push" in who and b.write and not a.write else None)


def same_mutex(x, y):
    """x, y: ((kind, offset), queue)"""
    return x[0] == y[0]
