"""C01-C06: the static heap and its container adaptor."""
from ..core import *
from ..terms import *
from .. import build, engine, terms
from ..facts import Facts

A0 = mk("arg", (0,), 64)
A1 = mk("arg", (1,), 64)
A2 = mk("arg", (2,), 64)
SIGN = 1 << 63
QUICK = [1024, 100, 70001]
DEEP = QUICK + [32, 37, 4096, 65536]
AQUICK = ["int", "vp_other"]
ADEEP = AQUICK + ["char", "double"]
OPAQUE = ["^([^(]* )?xitren::allocators::static_heap<[^(]*>::"]


def k64(v):
    return const(v, 64)


def ld(a, size=8):
    return mk("ld", (a, size, 0), size * 8)


class Heap:
    """Where the parts of a heap are: members found by type or by what the public getters return."""

    def __init__(self, chk, n):
        self.n, self.chk = n, chk
        self.unit = u = build.unit("heap", [f"VP_N={n}"])
        name = next(k for k in u["layouts"] if k.startswith("xitren::allocators::static_heap<") and k.endswith(">"))
        self.tn = name
        L = u["layouts"][name]
        self.size = L.size
        links = {k: v for k, v in u["layouts"].items() if k.startswith(name + "::") and len(v.fields) == 2 and v.size == 16}
        self.flat = L.flat()
        start = [f for f in self.flat if f.type in links]
        endp = [f for f in self.flat if f.type.rstrip().endswith("*")]
        arr = [f for f in self.flat if f.array]
        call = [f for f in self.flat if f.type.startswith("std::function<")]
        if len(start) != 1 or len(endp) != 1 or len(arr) != 1 or len(call) != 1:
            raise Broken("the heap's list head, end marker, storage and callback cannot be told apart")
        lk = links[start[0].type]
        self.nx = next(f.off for f in lk.fields if "*" in f.type)
        self.sz = next(f.off for f in lk.fields if "*" not in f.type)
        self.hdr = 16
        self.start, self.endc = addc(A0, start[0].off), addc(A0, endp[0].off)
        self.base, self.blen = addc(A0, arr[0].off), arr[0].size
        self.cb = addc(A0, call[0].off)
        self.F = self.getter("vp_free_size")
        self.MIN = self.getter("vp_min_size")
        self.st = {}
        for f in ("available", "largest", "smallest", "blocks", "min", "allocs", "frees"):
            r = [x for x in engine.Analysis(u["by"]["vp_stat_" + f], u).run() if x.kind == "ret"]
            self.st[f] = sval(r[0].ret)
        # the encoding of links, from what the constructor leaves in the end marker
        self.c = None
        terms.ALIGNED[0] = self.aligned
        self.ctor = chk.analyse(u, "vp_ctor", layout={0: name})
        self.stats = chk.analyse(u, "vp_stats", layout={0: name})
        for r in self.stats.rets():
            if r.facts.empty():
                continue
            for nm, k in (("ALLOCS", "allocs"), ("FREES", "frees")):
                v = self.figure(self.stats, r, k)
                if v.op == "zext" and v.a[0].op == "trunc":
                    v = v.a[0].a[0]             # judged where the figures are
                if v.op == "ld" and v.a[1] == 8:
                    setattr(self, nm, v.a[0])
                elif self.narrow(v):
                    chk.ob("vp_stats", "the figures reported are the heap's own", REFUTED, "include/xitren/allocators/static_heap.hpp", f"the number of {k} is counted in {8 * v.a[0].a[1]} bits and starts again at zero")
        for r in self.ctor.rets():
            if not r.facts.empty():
                e = self.ctor.load(r, self.endc, 8)
                v = self.ctor.load(r, addc(e, self.nx), 8)
                if is_int(v):
                    self.c = v
        if self.c is None or not hasattr(self, "ALLOCS") or not hasattr(self, "FREES"):
            raise Broken("the heap's link encoding or counters cannot be identified")
        self.END = ld(self.endc)

    def figure(self, en, r, k):
        """A figure of the statistics, as the number it is read as."""
        a = addc(A1, self.st[k])
        v = en.load(r, a, 8)
        old = lambda t: any(x.op == "ld" and x.a[2] == 0 and A1 in lin_parts(x.a[0])[1] for x in atoms(t))
        if v.op != "ld" and old(v):
            for n in (4, 2, 1):
                x = en.load(r, a, n)
                if not old(x):
                    return zext(x, 64)
        return v

    def narrow(self, v):
        return self.chk.pid == "C02" and v.op in ("zext", "sext") and v.a[0].op == "ld" and v.a[0].a[1] < 8

    def getter(self, fn):
        r = [x for x in engine.Analysis(self.unit["by"][fn], self.unit).run() if x.kind == "ret"]
        if len(r) == 1 and r[0].ret.op == "ld":
            return r[0].ret.a[0]
        if self.chk.pid == "C02" and len(r) == 1 and is_int(r[0].ret):
            self.chk.ob(fn, "the figures reported are the heap's own", REFUTED, r[0].loc, f"always reports {sval(r[0].ret)}")
        if len(r) == 1 and self.narrow(r[0].ret):
            self.chk.ob(fn, "the figures reported are the heap's own", REFUTED, r[0].loc, f"kept in {8 * r[0].ret.a[0].a[1]} bits: not the amount of a larger heap")
        raise Broken(fn + " does not return a member")

    def aligned(self, a):
        """Addresses of blocks and sizes in block headers are multiples of 8; the heap object is 8-byte aligned."""
        if a.op == "arg" and a.a[0] == 0:
            return 8
        if self.c is not None:
            if self.is_block(a) or a is ld(self.endc):
                return 8
            if a.op in ("ld", "unk"):
                ba = addc(a.a[0], -self.sz)
                if self.is_block(ba) or ba.op == "phi" or ba is addc(A1, -self.hdr):
                    return 8
                c, d = lin_parts(a.a[0])
                if any(self.is_block(x) or x.op == "phi" or x is A1 for x in d):
                    return 8
            if a.op == "and" and is_int(a.a[1]) and ival(a.a[1]) == SIGN:
                return 8
            if a is A1 and self.free_entry:
                return 8
        return 1

    free_entry = False

    def is_block(self, t):
        return t.op == "xor" and t.a[0] == ival(self.c) and len(t.a[1]) == 1 and t.a[1][0].op == "ld" if self.c is not None else False

    def dec(self, t):
        return bxor(self.c, t)

    enc = dec

    def cells(self):
        return {"free": self.F, "min": self.MIN, "allocs": self.ALLOCS, "frees": self.FREES}

    def run(self, chk, fn, **kw):
        return chk.analyse(self.unit, fn, layout={0: self.tn}, **kw)

    # ---------------------------------------------------------------- facts under the list's invariant
    def view(self, en, rec, more=()):
        """The facts of a path under the list invariant; None when the path cannot happen."""
        ts = set()
        for a, p in rec.facts.lits:
            ts |= atoms(a)
        for e in rec.events:
            if e.kind == "store":
                ts |= atoms(e.addr) | atoms(e.val)
        if rec.ret is not None:
            ts |= atoms(rec.ret)
        blocks = [t for t in ts if self.is_block(t)]
        concl, defs = [], []
        for _ in range(3):
            g = Facts()
            g.loops = rec.facts.loops
            for B in blocks:
                # a free block's size carries no mark
                A = band(ld(addc(B, self.sz)), k64(SIGN))
                if A.op == "and":
                    g.define(A, k64(0))
            for t, v in defs:
                if g.norm(t) is t:
                    g.define(t, v)
            ok = True
            for B in blocks:
                M = ld(addc(B, self.sz))
                ok = ok and g.add(eq(B, k64(0)), False) and g.add(ult(B, k64(1 << 56)), True) and g.add(ult(M, k64(1 << 56)), True)
            for a, p in list(more) + concl + list(rec.facts.lits):
                ok = ok and g.add(a, p)
            if not ok or g.bad or g.empty():
                return None
            n = (len(concl), len(defs))
            for t in [t for t in ts if t.op == "and" and is_int(t.a[1]) and ival(t.a[1]) == SIGN]:
                h = g.holds(slt(t.a[0], k64(0)))
                if h is None and g.toint(t.a[0]) is not None and g.holds(ult(t.a[0], k64(SIGN))) is True:
                    h = False
                if h is not None and all(t is not x for x, _ in defs):
                    defs.append((t, k64(SIGN if h else 0)))
            for B in blocks:
                M, nx = ld(addc(B, self.sz)), ld(addc(B, self.nx))
                le, be = g.holds(eq(nx, self.c)), g.holds(eq(B, self.END))
                c = []
                if le is True or be is True:
                    c = [(eq(B, self.END), True), (eq(nx, self.c), True), (eq(M, k64(0)), True)]
                elif le is False or be is False:
                    c = [(eq(B, self.END), False), (eq(nx, self.c), False), (ult(M, k64(self.hdr)), False), (ult(ld(self.F), M), False)]
                concl += [x for x in c if x not in concl]
            if n == (len(concl), len(defs)):
                break
        return g

    def fin(self, en, rec, g, addr):
        """The value a cell has at the end of a path; cells of blocks the path did not touch read as at the start."""
        v = g.norm(en.load(rec, addr, 8))
        us = find(v, lambda t: t.op == "unk" and t.a[1] == 8)
        if us:
            ts = set()
            for a, p in g.lits:
                ts |= atoms(a)
            blocks = [t for t in ts if self.is_block(t)]
            m = {}
            for u in us:
                for B in blocks:
                    for c in (self.sz, self.nx):
                        w = ld(addc(B, c))
                        if u not in m and u.a[0] is not w.a[0] and eqv_(g, u.a[0], w.a[0]) == PROVED and not any(B in lin_parts(a)[1] for e, a in self.stores(en, rec)):
                            m[u] = w
            v = g.norm(subst(v, m))
        return v

    def stores(self, en, rec):
        out = []
        for e in flat_events(rec.events):
            if e.kind in ("store", "rmw", "cas", "set", "copy"):
                a = e.get("addr") or e.get("dst")
                if a is None:
                    continue
                r, off = en.an.root(a)
                if r is not None and r.op == "alloca":
                    continue
                out.append((e, a))
        return out

    def unchanged(self, chk, en, rec, g, rule, loc, allow=()):
        bad = [e for e, a in self.stores(en, rec)]
        v = PROVED if not bad else REFUTED
        chk.ob(en.name, rule, v, bad[0].loc if bad else loc, f"writes {bad[0].get('addr')}" if bad else "")
        return v


def flat_events(evs):
    for e in evs:
        if e.kind == "loop":
            for al in e.loop.alts:
                yield from flat_events(al.events)
        else:
            yield e


def rec_loc(r, en):
    for e in reversed(r.events):
        if e.loc:
            return e.loc
    return en.loc


def heaps(chk, tier):
    for n in (QUICK if tier == "quick" else DEEP):
        Heap.free_entry = False
        yield Heap(chk, n)


FREE_CALLS = ("call", "phi", "unk", "umulo", "xor", "and", "udiv", "mul")


def dec_(g, atom, pol=True):
    """Decide with block addresses, header contents and loop positions counted as arbitrary inputs."""
    extra = set()
    for a in atoms(atom) | set().union(*[atoms(x) for x, p in g.lits] or [set()]):
        if a.op in ("phi", "xor", "mul"):
            extra.add(a)
        if a.op == "and" and is_int(a.a[1]):
            extra.add(a)
        if a.op == "ld" and a.a[2] == 0:
            extra.add(a)
    return decide(g, atom, pol, extra)


def eqv_(g, x, y):
    x, y = g.norm(x), g.norm(y)
    if x is y:
        return PROVED
    return dec_(g, eq(x, y))


class Alloc:
    """A path of an allocating entry that returns a block."""

    def __init__(self, hp, en, rec, g):
        self.P = P = g.norm(rec.ret)
        self.B = B = addc(P, -hp.hdr)
        self.known = hp.is_block(B)
        self.prev = B.a[1][0].a[0] if self.known else None
        self.prevcell = self.prev
        self.M = ld(addc(B, hp.sz))
        self.hv = hp.fin(en, rec, g, addc(B, hp.sz))
        self.S = g.norm(band(self.hv, k64(SIGN - 1)))
        if self.prev is not None:
            self.prev = addc(self.prev, -hp.nx)


def alloc_paths(hp, chk, fn):
    en = hp.run(chk, fn)
    some = False
    for r in en.rets():
        g = hp.view(en, r)
        if g is None:
            continue
        if r.ret is not None and g.holds(eq(r.ret, k64(0))) is not True:
            if is_int(r.ret) and ival(r.ret) == 0:
                yield en, r, g, None
                continue
            some = True
            yield en, r, g, Alloc(hp, en, r, g)
        else:
            yield en, r, g, None
    chk.ob(en.name, "a request can be served", PROVED if some else (UNDEC if en.err else REFUTED), en.loc, "no path returns a block")


def overflow_guard(g, rec, prod, x, y):
    """Is the product known not to wrap?"""
    um = mk("umulo", tuple(sorted((x, y), key=lambda t: t.id)), 1)
    for a, p in g.lits:
        b = a
        while b.op == "not":
            b, p = b.a[0], not p
        if b.op == "umulo" and set(b.a) == {x, y} and not p:
            return PROVED
        if b.op == "eq0" and p and b.a[0] in (x, y):
            return PROVED
    res = UNDEC
    seen = False
    for d, o in ((x, y), (y, x)):
        q = udiv(k64(-1), d)
        for a, p in g.lits:
            if q in atoms(a):
                seen = True
        if dec_(g, ult(q, o), False) == PROVED:
            return PROVED
    if not seen and not any(find(a, lambda t: t.op in ("umulo", "udiv", "udiv2")) for a, p in g.lits):
        return REFUTED
    if seen:
        for d, o in ((x, y), (y, x)):
            q = udiv(k64(-1), d)
            if any(q in atoms(a) for a, p in g.lits):
                f = g.copy()
                if dec_(f, ult(q, o), False) == REFUTED:
                    res = REFUTED
    return res


# -------------------------------------------------------------------------------------------- C01
def c01(chk, tier):
    for hp in heaps(chk, tier):
        for fn in ("vp_alloc", "vp_calloc"):
            for en, r, g, al in alloc_paths(hp, chk, fn):
                if al is None:
                    continue
                loc = rec_loc(r, en)
                n = A1 if fn == "vp_alloc" else mul(A1, A2)
                need = addc(n, hp.hdr)
                chk.ob(en.name, "the block behind the pointer holds the request and its header",
                       dec_(g, ult(al.S, need), False), loc, f"block of {al.S}")
                if al.known:
                    chk.ob(en.name, "the part handed out is no longer than the free block it is taken from", dec_(g, ult(g.norm(al.M), al.S), False), loc, f"{al.S} of {al.M}")
                chk.ob(en.name, "the size computation does not wrap", dec_(g, ult(n, k64(-hp.hdr))), loc, f"request {n}")
                chk.ob(en.name, "the block size is a multiple of 8", eqv_(g, band(al.S, k64(7)), k64(0)), loc, f"size {al.S}")
                chk.ob(en.name, "the pointer is 8-byte aligned", eqv_(g, band(al.P, k64(7)), k64(0)), loc, f"pointer {al.P}")
                chk.ob(en.name, "the block is a free block, not the end marker", dec_(g, eq(al.B, hp.END), False) if al.known else UNDEC, loc, f"{al.B}")
                if fn == "vp_calloc":
                    chk.ob(en.name, "the product of count and size does not wrap", overflow_guard(g, r, n, A1, A2), loc, "an overflowing product is used")
                    cl = [e for e in r.events if e.kind == "set"]
                    lp = [e for e in r.events if e.kind == "loop" and any(x.kind in ("store", "set") for x in flat_events([e]))]
                    if cl:
                        e = cl[-1]
                        v = eqv_(g, e.n, n)
                        if v == UNDEC and unknowns(e.n) <= {A1, A2} and differ(g, e.n, n, {A1, A2}):
                            v = REFUTED
                        v = both(eqv_(g, e.dst, al.P), eqv_(g, e.val, const(0, e.val.w)), v)
                        chk.ob(en.name, "the whole block handed out is zeroed", v, e.loc, f"memset({e.dst}, {e.val}, {e.n})")
                    else:
                        chk.ob(en.name, "the whole block handed out is zeroed", UNDEC if lp else REFUTED, loc, "nothing is cleared")
    for u, t in adaptors(tier):
        en = chk.analyse(u, "vp_a_alloc")
        sz = const_of(u, "vp_a_sizeof")
        n = 0
        for r in en.rets():
            if r.facts.empty():
                continue
            cs = heap_calls(r)
            if len(cs) != 1:
                chk.ob(en.name, "one request is made per allocation", REFUTED if not any(e.kind == "loop" for e in r.events) else UNDEC, en.loc, f"{len(cs)} calls of the heap")
                continue
            e = cs[0]
            n += 1
            want = mulc(A1, sz)
            if op_of(e) == "allocate":
                chk.ob(en.name, "the adaptor asks for count times element size", eqv(e.facts, e.args[1], want), e.loc, f"asks for {e.args[1]}")
            elif op_of(e) == "callocate":
                ok = [x for x in e.args[1:3]]
                chk.ob(en.name, "the adaptor asks for count times element size", PROVED if set(ok) == {A1, k64(sz)} else UNDEC, e.loc, f"asks for {ok}")
                continue
            if sz > 1:
                chk.ob(en.name, "the byte count of the adaptor does not wrap",
                       decide(e.facts, ult(k64((1 << 64) // sz - (1 if (1 << 64) % sz == 0 else 0)), A1), False), e.loc, "a count is accepted whose product wraps")
        chk.ob(en.name, "the adaptor can serve a request", PROVED if n else REFUTED, en.loc, "")


def const_of(unit, fn):
    r = [x for x in engine.Analysis(unit["by"][fn], unit).run() if x.kind == "ret"]
    return sval(r[0].ret)


def adaptors(tier):
    for t in (AQUICK if tier == "quick" else ADEEP):
        terms.ALIGNED[0] = None
        yield build.unit("heap_alloc", [f"VP_T={t}"], opaque=OPAQUE), t


def op_of(e):
    m = e.dem or ""
    return m.split("(")[0].rsplit("::", 1)[-1]


def heap_calls(r):
    return [e for e in r.events if e.kind == "call" and "static_heap<" in (e.dem or "")]


# -------------------------------------------------------------------------------------------- C02
def check_min(chk, en, r, g, hp, F1, loc):
    m0, m1 = g.norm(ld(hp.MIN)), hp.fin(en, r, g, hp.MIN)
    a = eqv_(g, m1, m0)
    b = eqv_(g, m1, F1)
    c = both(a, dec_(g, ult(F1, m0), False))
    d = both(b, dec_(g, ult(m0, F1), False))
    if PROVED in (c, d):
        v = PROVED
    elif c == REFUTED and d == REFUTED:
        v = REFUTED
    else:
        v = UNDEC
    chk.ob(en.name, "the minimum-ever figure becomes the smaller of itself and the current figure", v, loc, f"becomes {m1}")


def c02(chk, tier):
    for hp in heaps(chk, tier):
        for en, r, g, al in alloc_paths(hp, chk, "vp_alloc"):
            loc = rec_loc(r, en)
            if al is None:
                hp.unchanged(chk, en, r, g, "a refused request changes no block and no figure", loc)
                continue
            F0, F1 = g.norm(ld(hp.F)), hp.fin(en, r, g, hp.F)
            chk.ob(en.name, "the free figure falls by exactly the block handed out", eqv_(g, F1, sub(F0, al.S)), loc, f"becomes {F1}, block {al.S}")
            chk.ob(en.name, "the free figure does not wrap", dec_(g, ult(F0, al.S), False), loc, f"{F0} - {al.S}")
            check_min(chk, en, r, g, hp, g.norm(sub(F0, al.S)), loc)
            chk.ob(en.name, "a served request is counted once", eqv_(g, hp.fin(en, r, g, hp.ALLOCS), addc(ld(hp.ALLOCS), 1)), loc, f"{hp.fin(en, r, g, hp.ALLOCS)}")
            chk.ob(en.name, "an allocation counts no release", eqv_(g, hp.fin(en, r, g, hp.FREES), ld(hp.FREES)), loc, "")
        for en, r, g, fr in free_paths(hp, chk):
            loc = rec_loc(r, en)
            if fr is None:
                hp.unchanged(chk, en, r, g, "an ignored release changes no block and no figure", loc)
                continue
            chk.ob(en.name, "the free figure rises by exactly the block taken back", eqv_(g, hp.fin(en, r, g, hp.F), add(ld(hp.F), fr.S)), loc, f"becomes {hp.fin(en, r, g, hp.F)}")
            chk.ob(en.name, "a release leaves the minimum-ever figure", eqv_(g, hp.fin(en, r, g, hp.MIN), ld(hp.MIN)), loc, "")
            chk.ob(en.name, "a release is counted once", eqv_(g, hp.fin(en, r, g, hp.FREES), addc(ld(hp.FREES), 1)), loc, "")
            chk.ob(en.name, "a release counts no allocation", eqv_(g, hp.fin(en, r, g, hp.ALLOCS), ld(hp.ALLOCS)), loc, "")
        en = hp.run(chk, "vp_reset")
        for r in en.rets():
            f = r.facts
            if f.empty():
                continue
            chk.ob(en.name, "resetting sets the minimum-ever figure to the current one", eqv(f, en.load(r, hp.MIN, 8), ld(hp.F)), rec_loc(r, en), "")
            chk.ob(en.name, "resetting changes nothing else", PROVED if all(eqv(f, a, hp.MIN) == PROVED for e, a in hp.stores(en, r)) else REFUTED, rec_loc(r, en), "")
        en = hp.ctor
        for r in en.rets():
            f = r.facts
            if f.empty():
                continue
            loc = rec_loc(r, en)
            first = hp.dec(en.load(r, addc(hp.start, hp.nx), 8))
            s1 = en.load(r, addc(first, hp.sz), 8)
            for nm, cell in (("free", hp.F), ("minimum-ever", hp.MIN)):
                chk.ob(en.name, f"a new heap's {nm} figure is the size of its one block", eqv(f, en.load(r, cell, 8), s1), loc, f"{en.load(r, cell, 8)} / {s1}")
            for nm, cell in (("allocations", hp.ALLOCS), ("releases", hp.FREES)):
                chk.ob(en.name, f"a new heap has counted no {nm}", eqv(f, en.load(r, cell, 8), k64(0)), loc, "")
        check_stats(chk, hp)


def check_stats(chk, hp):
    en = hp.stats
    for r in en.recs:
        if r.kind == "forever" and not r.facts.empty():
            chk.ob(en.name, "the walk ends at the end marker", REFUTED, r.events[-1].loc if r.events else en.loc, "a loop of the query is never left")
    for r in en.rets():
        if hp.view(en, r) is None:
            continue
        f, loc = r.facts, rec_loc(r, en)
        for nm, cell in (("available", hp.F), ("min", hp.MIN), ("allocs", hp.ALLOCS), ("frees", hp.FREES)):
            v = hp.figure(en, r, nm)
            chk.ob(en.name, f"the statistics report the heap's own figure ({nm})", eqv(f, v, ld(cell)), loc, f"reports {v}")
        rs, _ = None, None
        bad = [(e, a) for e, a in hp.stores(en, r) if en.an.root(a)[0] is not A1]
        chk.ob(en.name, "taking statistics changes nothing", PROVED if not bad else REFUTED, bad[0][0].loc if bad else loc, "")
        lps = [e for e in r.events if e.kind == "loop"]
        if len(lps) != 1:
            if f.holds(eq(ld(addc(hp.start, hp.nx)), hp.c)) is True:
                continue                    # no list at all: cannot happen after construction
            if not lps and f.holds(eq(hp.dec(ld(addc(hp.start, hp.nx))), hp.END)) is True:
                cnt = hp.figure(en, r, "blocks")
                chk.ob(en.name, "the number of free blocks is the number of blocks walked", eqv_(f, cnt, k64(0)), loc, f"reports {cnt} when there are none")
                continue
            chk.ob(en.name, "the free blocks are surveyed by one walk over the list", UNDEC if lps else REFUTED, loc, f"{len(lps)} loops")
            continue
        lp = lps[0].loop
        vars_ = {k: hp.figure(en, r, k) for k in ("largest", "smallest", "blocks")}
        # the walker: initially the first block, advancing by the decoded link
        walk = [k for k, s in lp.sym.items() if s.op == "phi" and hp.is_block(lp.inits[k]) and lp.inits[k] is hp.dec(ld(addc(hp.start, hp.nx)))]
        if len(walk) != 1:
            still = all(is_int(f.norm(lp.inits[k])) for k in lp.inits) and not any(e.kind in ("call", "icall", "vcall", "loop") for a in lp.alts for e in a.events)
            chk.ob(en.name, "the free blocks are surveyed by one walk over the list", REFUTED if still else UNDEC, loc, "the loop never moves on to another block" if still else "the walk is not recognised")
            continue
        w = lp.sym[walk[0]]
        M = ld(addc(w, hp.sz))
        cnt = vars_["blocks"]
        if f.holds(eq(hp.dec(ld(addc(w, hp.nx))), hp.END)) is True:
            # the end is tested after each block: there has to be a first one
            none = f.holds(eq(lp.inits[walk[0]], hp.END))
            chk.ob(en.name, "the walk ends at the end marker", PROVED if none is False else REFUTED, loc, "a heap without free blocks is walked all the same")
            chk.ob(en.name, "the number of free blocks is the number of blocks walked", eqv_(f, cnt, addc(lps[0].count, 1)), loc, f"reports {cnt}")
            continue
        chk.ob(en.name, "the number of free blocks is the number of blocks walked", eqv_(f, cnt, lps[0].count), loc, f"reports {cnt}")
        chk.ob(en.name, "the walk ends at the end marker", eqv_(f, w, hp.END), loc, "")
        for k, s in (("largest", "max"), ("smallest", "min")):
            v = vars_[k]
            key = [q for q, t in lp.sym.items() if t is v]
            thin = [x for x in atoms(v) if x.op == "trunc"] + [x for x in [v.a[0]] if v.op in ("zext", "sext")] if v.op in ("zext", "sext") else []
            if len(key) != 1 and thin and thin[0].w < 32:
                chk.ob(en.name, f"the {k} free block is reported", REFUTED, loc, f"reports {v}: {thin[0].w} bits of it")
                continue
            if len(key) != 1:
                chk.ob(en.name, f"the {k} free block is reported", REFUTED if is_int(v) or v.op == "ld" else UNDEC, loc, f"reports {v}")
                continue
            i0 = f.norm(lp.inits[key[0]])
            if is_int(i0):
                chk.ob(en.name, f"the {k} free block is reported", PROVED if (ival(i0) == 0 if s == "max" else ival(i0) >= hp.blen) else REFUTED, loc,
                       f"the survey starts with {ival(i0)} before any block was seen")
            for a in lp.alts:
                g = a.st.facts
                if g.empty():
                    continue
                nv = a.nexts.get(key[0])
                if nv is None:
                    continue
                lo, hi = (v, M) if s == "max" else (M, v)
                # the new value is the old one or this block's size, and at least (most) both
                isold, isnew = eqv_(g, nv, v), eqv_(g, nv, M)
                c = both(isold, dec_(g, ult(v, M) if s == "max" else ult(M, v), False))
                d = both(isnew, dec_(g, ult(M, v) if s == "max" else ult(v, M), False))
                vv = PROVED if PROVED in (c, d) else (REFUTED if c == d == REFUTED else UNDEC)
                chk.ob(en.name, f"the {k} free block is reported", vv, loc, f"takes {nv}")
        for a in lp.alts:
            nv = a.nexts.get(walk[0])
            if nv is not None:
                chk.ob(en.name, "the walk visits every free block", eqv_(a.st.facts, nv, hp.dec(ld(addc(w, hp.nx)))), loc, f"continues at {nv}")


# -------------------------------------------------------------------------------------------- release
class Free:
    """A path of deallocate on which the block is taken back."""

    def __init__(self, hp, en, rec, g):
        self.X = addc(A1, -hp.hdr)
        self.M = ld(addc(self.X, hp.sz))
        self.S = g.norm(band(self.M, k64(SIGN - 1)))


def free_paths(hp, chk):
    Heap.free_entry = True
    M = ld(addc(A1, hp.sz - hp.hdr))
    S = band(M, k64(SIGN - 1))
    en = hp.run(chk, "vp_free", facts=[(ult(S, k64(hp.hdr)), False)])
    mark, link = slt(M, k64(0)), eq(ld(addc(A1, hp.nx - hp.hdr)), hp.c)
    taken = False
    for r in en.rets():
        base = [(ult(S, k64(hp.hdr)), False), (ult(S, k64(1 << 56)), True)]
        mk_ = r.facts.holds(mark)
        A = band(M, k64(SIGN))
        if mk_ is True:
            base = [(eq(A, k64(SIGN)), True)] + base
        elif mk_ is False:
            base = [(eq(A, k64(0)), True)] + base
        g = hp.view(en, r, base)
        if g is None:
            continue
        if hp.stores(en, r):
            taken = True
            yield en, r, g, Free(hp, en, r, g)
        else:
            yield en, r, g, None
    chk.ob(en.name, "a block can be released", PROVED if taken else (UNDEC if en.err else REFUTED), en.loc, "no path takes a block back")
    Heap.free_entry = False


# -------------------------------------------------------------------------------------------- C03
def allowed_writes(chk, hp, en, r, g, cells, rule):
    for e, a in hp.stores(en, r):
        a = g.norm(a)
        size = e.get("size", 8)
        if not isinstance(size, int):
            chk.ob(en.name, rule, UNDEC, e.loc, "a block write")
            continue
        vs = []
        if not any(a is g.norm(c) for c in cells):
            vs = [PROVED] if any(g.eq(a, c) for c in cells) else [eqv_(g, a, c) for c in cells]
        if not vs or PROVED in vs:
            chk.ob(en.name, rule, PROVED, e.loc)
        else:
            chk.ob(en.name, rule, REFUTED if all(v == REFUTED for v in vs) else UNDEC, e.loc, f"writes {a}")


def c03(chk, tier):
    for hp in heaps(chk, tier):
        check_built(chk, hp)
        for en, r, g, al in alloc_paths(hp, chk, "vp_alloc"):
            loc = rec_loc(r, en)
            if al is None:
                hp.unchanged(chk, en, r, g, "a refused request changes no block", loc)
                continue
            if not al.known:
                chk.ob(en.name, "the block handed out is taken from the free list", UNDEC, loc, f"{al.B}")
                continue
            onlist(chk, en, r, hp, al.prev, loc)
            M, S, B = g.norm(al.M), al.S, al.B
            pn = hp.fin(en, r, g, addc(al.prev, hp.nx))
            R = add(B, S)
            nx = ld(addc(B, hp.nx))
            whole = eqv_(g, pn, nx)
            if whole == PROVED:
                chk.ob(en.name, "a block taken whole keeps its size", eqv_(g, S, M), loc, f"size {M} becomes {S}")
            else:
                chk.ob(en.name, "the list continues at the remainder of the block taken", eqv_(g, pn, hp.enc(R)) if whole != UNDEC or pn.op == "xor" else UNDEC, loc, f"link becomes {pn}")
                rs, rn = hp.fin(en, r, g, addc(R, hp.sz)), hp.fin(en, r, g, addc(R, hp.nx))
                chk.ob(en.name, "the parts of a split block make up the block", eqv_(g, rs, sub(M, S)), loc, f"remainder {rs} of {M} after {S}")
                chk.ob(en.name, "the remainder is followed by the block's old successor", eqv_(g, rn, nx), loc, f"followed by {rn}")
                chk.ob(en.name, "a split leaves room for a header in the remainder", dec_(g, ult(M, addc(S, hp.hdr)), False), loc, f"{M} - {S}")
            cells = [addc(al.prev, hp.nx), addc(B, hp.nx), addc(B, hp.sz), addc(R, hp.nx), addc(R, hp.sz), hp.F, hp.MIN, hp.ALLOCS]
            allowed_writes(chk, hp, en, r, g, cells, "an allocation writes to the block, its remainder and the link to it only")
        for en, r, g, fr in free_paths(hp, chk):
            loc = rec_loc(r, en)
            if fr is None:
                hp.unchanged(chk, en, r, g, "an ignored release changes no block", loc)
                continue
            check_insert(chk, hp, en, r, g, fr, loc)


def onlist(chk, en, r, hp, prev, loc):
    """prev is the list head, or reached from it along the links."""
    if prev is hp.start:
        chk.ob(en.name, "the block handed out is taken from the free list", PROVED, loc)
        return
    for e in r.events:
        if e.kind != "loop":
            continue
        lp = e.loop
        for k, s in lp.sym.items():
            if s is prev:
                ok = eqv(r.facts, lp.inits[k], hp.start) == PROVED
                for a in lp.alts:
                    nv = a.nexts.get(k)
                    if a.st.facts.empty() or nv is None:
                        continue
                    if not (nv is hp.dec(ld(addc(s, hp.nx))) or nv is s):
                        ok = False
                chk.ob(en.name, "the block handed out is taken from the free list", PROVED if ok else UNDEC, loc, "the walk is not recognised")
                return
    chk.ob(en.name, "the block handed out is taken from the free list", UNDEC, loc, f"predecessor {prev}")


def check_insert(chk, hp, en, r, g, fr, loc):
    X, S = fr.X, fr.S
    # the predecessor: where the ordering walk stopped
    its = [(e, k, s) for e in r.events if e.kind == "loop" for k, s in e.loop.sym.items()
           if s.op == "phi" and e.loop.inits[k] is addc(hp.start, 0)]
    rule = "a released block is put back in address order"
    if len(its) == 1:
        ev, key, it = its[0]
    elif not its and not any(e.kind == "loop" for e in r.events):
        ev, key, it = None, None, hp.start
    else:
        chk.ob(en.name, rule, UNDEC, loc, "the walk is not recognised")
        return
    N = hp.dec(ld(addc(it, hp.nx)))
    for a in ev.loop.alts if ev else ():
        f = Facts()
        f.add(ult(A1, k64(hp.hdr)), False)
        if not all(f.add(x, p) for x, p in a.st.facts.lits) or f.empty():
            continue
        nv = a.nexts.get(key)
        chk.ob(en.name, rule, both(eqv_(f, nv, N), dec_(f, ult(X, N), False)), loc, f"goes past {nv} while walking")
    chk.ob(en.name, rule, dec_(g, ult(N, X), False), loc, "inserted before a block of lower address")
    g = g.copy()
    # the released block is on no list: it is neither its predecessor nor its successor, and the end marker is not it
    for t in (eq(it, X), eq(N, X)):
        if g.holds(t) is True:
            return
        if not g.add(t, False):
            return
    L, NS = ld(addc(it, hp.sz)), ld(addc(N, hp.sz))
    NX = ld(addc(N, hp.nx))
    final = {c: hp.fin(en, r, g, a) for c, a in (("is", addc(it, hp.sz)), ("in", addc(it, hp.nx)), ("xs", addc(X, hp.sz)), ("xn", addc(X, hp.nx)))}
    # contents of the following block's header, read through the release's own writes, are the original ones
    m = {}
    for v in final.values():
        for u in find(v, lambda t: t.op == "unk"):
            for c in (hp.sz, hp.nx):
                if eqv_(g, u.a[0], addc(N, c)) == PROVED:
                    m[u] = ld(addc(N, c))
    final = {c: g.norm(subst(v, m)) for c, v in final.items()}
    # equal addresses name the same cell: read header cells of N at their canonical address
    m = {}
    for v in final.values():
        for u in find(v, lambda t: t.op == "ld" and t.a[1] == 8 and t.a[2] == 0):
            for c in (hp.sz, hp.nx):
                if u is not ld(addc(N, c)) and eqv_(g, u.a[0], addc(N, c)) == PROVED:
                    m[u] = ld(addc(N, c))
    final = {c: subst(v, m) for c, v in final.items()}
    left, right = eq(add(it, L), X), eq(add(X, S), N)
    isend = eq(N, hp.END)
    encX, encN = hp.enc(X), ld(addc(it, hp.nx))
    want = {
        (0, 0): {"xs": S, "xn": encN, "in": encX, "is": L},
        (0, 1): {"xs": add(S, NS), "xn": NX, "in": encX, "is": L},
        (1, 0): {"is": add(L, S), "in": encN},
        (1, 1): {"is": add(add(L, S), NS), "in": NX},
    }
    res = {}
    for k, w in want.items():
        res[k] = both(*[eqv_(g, final[c], t) for c, t in w.items()])
    rl = "a release joins exactly the neighbours it abuts"
    hit = [k for k in want if res[k] == PROVED]
    if not hit:
        # which outcome does the path call for?
        cases = []
        for l in (0, 1):
            for rr, lits in ((0, ((right, False),)), (0, ((right, True), (isend, True))), (1, ((right, True), (isend, False)))):
                h = g.copy()
                if h.add(left, bool(l)) and all(h.add(t, p) for t, p in lits) and not h.empty():
                    cases.append(((l, rr), h))
        vs = []
        for k, h in cases:
            vs += [eqv_(h, final[c], t) for c, t in want[k].items()]
        chk.ob(en.name, rl, REFUTED if len(cases) == 1 and REFUTED in vs or (cases and all(
            REFUTED in [eqv_(h, final[c], t) for c, t in want[k].items()] for k, h in cases)) else UNDEC, loc,
            f"leaves sizes {final['is']}, {final['xs']} and links {final['in']}, {final['xn']}")
    else:
        l, rr = hit[0]
        chk.ob(en.name, rl, dec_(g, left, bool(l)), loc, ("joins" if l else "does not join") + " the block before")
        if rr:
            chk.ob(en.name, rl, both(dec_(g, right), dec_(g, isend, False)), loc, "joins the block after")
        else:
            v = dec_(g, right, False)
            if v != PROVED:
                w = dec_(g, isend)
                v = PROVED if w == PROVED else (REFUTED if v == w == REFUTED else UNDEC)
            chk.ob(en.name, rl, v, loc, "does not join the block after")
    cells = [addc(it, hp.nx), addc(it, hp.sz), addc(X, hp.nx), addc(X, hp.sz), hp.F, hp.FREES, addc(N, hp.sz), addc(N, hp.nx)]
    allowed_writes(chk, hp, en, r, g, cells, "a release writes to the block and its neighbours only")


def check_built(chk, hp):
    en = hp.ctor
    for r in en.rets():
        f = r.facts
        if f.empty():
            continue
        loc = rec_loc(r, en)
        end = en.load(r, hp.endc, 8)
        first = hp.dec(en.load(r, addc(hp.start, hp.nx), 8))
        lo, hi = hp.base, addc(hp.base, hp.blen - hp.hdr)

        def inside(t):
            d = f.norm(sub(t, hp.base))
            return PROVED if is_int(d) and 0 <= sval(d) <= hp.blen - hp.hdr else (REFUTED if is_int(d) else UNDEC)
        chk.ob(en.name, "the end marker lies inside the storage", inside(end), loc, f"{sub(end, hp.base)} of {hp.blen}")
        chk.ob(en.name, "the first block lies inside the storage", inside(first), loc, f"{sub(first, hp.base)} of {hp.blen}")
        for w, t, lost in (("the first block starts where the storage starts", first, lambda d: d), ("the end marker ends where the storage ends", end, lambda d: hp.blen - d - hp.hdr)):
            d = f.norm(sub(t, hp.base))
            # alignment may cost a little at either end, not a part of the storage
            chk.ob(en.name, w, UNDEC if not is_int(d) else PROVED if lost(sval(d)) <= 4 * hp.hdr else REFUTED, loc, f"offset {d} of {hp.blen}")
        chk.ob(en.name, "the first block is 8-byte aligned", eqv(f, band(first, k64(7)), k64(0)), loc, "")
        chk.ob(en.name, "the end marker is 8-byte aligned", eqv(f, band(end, k64(7)), k64(0)), loc, "")
        chk.ob(en.name, "the first block reaches up to the end marker", eqv(f, en.load(r, addc(first, hp.sz), 8), sub(end, first)), loc, f"{en.load(r, addc(first, hp.sz), 8)}")
        chk.ob(en.name, "the first block is followed by the end marker", eqv(f, en.load(r, addc(first, hp.nx), 8), hp.enc(end)), loc, "")
        chk.ob(en.name, "the end marker has no size", eqv(f, en.load(r, addc(end, hp.sz), 8), k64(0)), loc, "")
        chk.ob(en.name, "the list head has no size", eqv(f, en.load(r, addc(hp.start, hp.sz), 8), k64(0)), loc, "")


# -------------------------------------------------------------------------------------------- C04
def callback_calls(r, hp):
    tests, calls = [], []
    for e in r.events:
        if e.kind == "call" and e.args and e.args[0] is hp.cb:
            d = e.dem or ""
            if "::operator()" in d:
                calls.append(e)
            elif "operator bool" in d or "operator==" in d or "operator!=" in d:
                tests.append(e)
    return tests, calls


def cb_set(r, tests):
    """Does the path know the callback to be set (True), not set (False)?"""
    for e in tests:
        for a, p in r.facts.lits:
            b = a
            while b.op == "not":
                b, p = b.a[0], not p
            if b is e.ret:
                return p if "operator bool" in e.dem or "operator!=" in e.dem else not p
    return None


def c04(chk, tier):
    for hp in heaps(chk, tier):
        for fn in ("vp_alloc", "vp_calloc"):
            for en, r, g, al in alloc_paths(hp, chk, fn):
                loc = rec_loc(r, en)
                tests, calls = callback_calls(r, hp)
                inloop = any(e.kind == "call" and hp.cb in e.args for x in r.events if x.kind == "loop" for e in flat_events([x]))
                if al is not None:
                    chk.ob(en.name, "a served request calls no failure callback", REFUTED if calls else (UNDEC if inloop else PROVED), calls[0].loc if calls else loc, "calls it")
                    continue
                hp.unchanged(chk, en, r, g, "a refused request changes no block and no figure", loc)
                if fn == "vp_calloc" and any(a.op == "umulo" and p for a, p in r.facts.lits) and not calls and not tests:
                    continue
                s = cb_set(r, tests)
                if inloop:
                    v = UNDEC
                elif s is True:
                    v = PROVED if len(calls) == 1 else REFUTED
                elif s is False:
                    v = PROVED if not calls else REFUTED
                else:
                    # the outcome does not depend on whether a callback is set
                    v = REFUTED if not any(e.kind == "call" and hp.cb in e.args and e not in tests and e not in calls for e in r.events) else UNDEC
                chk.ob(en.name, "a refused request calls the failure callback exactly once if one is set", v, loc,
                       f"{len(calls)} call(s), callback {'set' if s else 'not set' if s is False else 'not tested'}")
        refusals(chk, hp)
        en = hp.run(chk, "vp_on_fail")
        for r in en.rets():
            cs = [e for e in r.events if e.kind == "call" and e.args and e.args[0] is hp.cb and ("operator=" in (e.dem or "") or "swap" in (e.dem or ""))]
            chk.ob(en.name, "setting a failure callback replaces the previous one", PROVED if cs else REFUTED if not [1 for e, a in hp.stores(en, r) if A0 in atoms(a)] and not [e for e in flat_events(r.events) if e.kind == "call" and any(A0 in atoms(a) for a in e.args) or e.kind in ("icall", "vcall")] else UNDEC, rec_loc(r, en), "")
    for u, t in adaptors(tier):
        en = chk.analyse(u, "vp_a_alloc", unwind=False)
        for r in en.recs:
            if r.facts.empty():
                continue
            cs = heap_calls(r)
            if r.kind == "ret":
                if len(cs) == 1:
                    chk.ob(en.name, "the adaptor returns the heap's own block", eqv(r.facts, r.ret, cs[0].ret, {cs[0].ret}), cs[0].loc, f"returns {r.ret}")
                    chk.ob(en.name, "the adaptor never returns null", decide(r.facts, eq(r.ret, k64(0)), False, {cs[0].ret}), cs[0].loc, "a refused request is returned as null")
                else:
                    chk.ob(en.name, "the adaptor returns the heap's own block", REFUTED if is_int(r.ret) else UNDEC, en.loc, f"returns {r.ret}")
            elif r.kind in ("throw", "unwind"):
                ts = [e for e in r.events if e.kind == "throw"]
                ty = str(ts[-1].type) if ts else ""
                fn = [e.dem for e in r.events if e.kind == "call" and (e.dem or "").startswith("std::__throw_")]
                isbad = ty in ("_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length") or any("bad_alloc" in x or "bad_array" in x for x in fn)
                if cs:
                    chk.ob(en.name, "a refusal becomes a bad_alloc", PROVED if isbad else (REFUTED if ts else UNDEC), rec_loc(r, en), ty)
                    chk.ob(en.name, "only a refusal becomes a bad_alloc", decide(r.facts, eq(cs[0].ret, k64(0)), True, {cs[0].ret}), rec_loc(r, en), "thrown although a block was obtained")


def refusals(chk, hp):
    """A request is refused only if it is for nothing, not representable, or larger than every free block."""
    rule = "a request is refused only if no free block is large enough"
    n = A1
    low = band(n, k64(7))
    for en, r, g, al in alloc_paths(hp, chk, "vp_alloc"):
        if al is not None:
            continue
        h = g.copy()
        if not h.add(eq(n, k64(0)), False) or h.empty():
            continue
        loc = rec_loc(r, en)
        # the whole block the request needs, and that there may be such a block at all
        z = h.holds(eq(low, k64(0)))
        need = addc(n, hp.hdr) if z is True else sub(addc(n, hp.hdr + 8), low)
        if not h.add(ult(n, k64(hp.blen)), True) or not h.add(ult(low, k64(8)), True) or h.empty():
            chk.ob(en.name, rule, PROVED, loc, "")
            continue
        if z is None and not h.add(eq(low, k64(0)), False):
            chk.ob(en.name, rule, UNDEC, loc, "")
            continue
        loops = [e.loop for e in r.events if e.kind == "loop"]
        if not loops:
            v = dec_(h, ult(ld(hp.F), need))
            bs = {t for x, p in h.lits for t in atoms(x) if hp.is_block(t) and find(x, lambda y: y is ld(addc(t, hp.sz)))}
            if v != PROVED and bs:
                # the first block is tested before the walk begins
                v = both(*[dec_(h, ult(ld(addc(b, hp.sz)), need)) for b in bs])
            chk.ob(en.name, rule, v, loc, "refused without a look at the free blocks")
            continue
        vs = []
        for lp in loops:
            for a in lp.alts:
                f = a.st.facts.copy()
                ok = True
                for x, p in list(h.lits):
                    if not any(t.op == "phi" for t in atoms(x)):
                        ok = ok and f.add(x, p)
                if not ok or f.empty():
                    continue
                bs = {t for x, p in a.lits for t in atoms(x) if hp.is_block(t) and find(x, lambda y: y is ld(addc(t, hp.sz)))}
                if len(bs) != 1:
                    vs.append(UNDEC)
                    continue
                vs.append(dec_(f, ult(ld(addc(bs.pop(), hp.sz)), need)))
        chk.ob(en.name, rule, both(*vs) if vs else UNDEC, loc, "the search passes over a free block that is large enough")


# -------------------------------------------------------------------------------------------- C05
def c05(chk, tier):
    for hp in heaps(chk, tier):
        M = ld(addc(A1, hp.sz - hp.hdr))
        mark, link = slt(M, k64(0)), eq(ld(addc(A1, hp.nx - hp.hdr)), hp.c)
        for en, r, g, fr in free_paths(hp, chk):
            loc = rec_loc(r, en)
            f = r.facts
            if fr is not None:
                w = hp.stores(en, r)[0][0]
                v = dec_(f, eq(A1, k64(0)), False)
                if v == UNDEC and not any(atoms(a) & {A1} and not find(a, lambda t: t.op in ("ld", "unk", "phi")) for a, p in f.lits):
                    v = REFUTED          # the path does not look at the pointer at all
                chk.ob(en.name, "releasing null changes nothing", v, w.loc, "changes the heap without ruling out null")
                chk.ob(en.name, "only a block marked as handed out is taken back", dec_(f, mark), w.loc, "changes the heap without checking the mark")
                fin = hp.fin(en, r, g, addc(fr.X, hp.sz))
                chk.ob(en.name, "a released block no longer carries the mark", marked(g, hp, fr, fin), loc, f"header becomes {fin}")
            else:
                h = f.copy()
                ok = h.add(eq(A1, k64(0)), False) and h.add(mark, True) and h.add(link, True) and not h.empty()
                chk.ob(en.name, "a block that is handed out is taken back", PROVED if not ok else (UNDEC if h.opq and len(f.lits) > 4 else REFUTED), loc, "a valid release is ignored")
        for en, r, g, al in alloc_paths(hp, chk, "vp_alloc"):
            if al is None:
                continue
            loc = rec_loc(r, en)
            chk.ob(en.name, "a block handed out carries the mark", eqv_(g, band(al.hv, k64(SIGN)), k64(SIGN)), loc, f"header {al.hv}")
            chk.ob(en.name, "a block handed out has no successor", eqv_(g, hp.fin(en, r, g, addc(al.B, hp.nx)), hp.c), loc, f"link {hp.fin(en, r, g, addc(al.B, hp.nx))}")


def marked(g, hp, fr, fin):
    """The header's mark is clear: the final size is a sum of block sizes."""
    v = dec_(g, slt(fin, k64(0)), False)
    if v == PROVED:
        return v
    i = g.toint(fin)
    if eqv_(g, fin, fr.M) == PROVED:
        return REFUTED
    c, d = lin_parts(fin)
    A = band(fr.M, k64(SIGN))
    rest = sub(fin, fr.S)
    if not is_int(rest) and fr.M not in lin_parts(rest)[1] or is_int(rest) and ival(rest) < (1 << 56):
        return PROVED
    return UNDEC


# -------------------------------------------------------------------------------------------- C06
def c06(chk, tier):
    for u, t in adaptors(tier):
        heap0 = ld(A0)
        for fn, src, what in (("vp_a_ctor", A1, "the heap it was made for"), ("vp_a_copy", ld(A1), "the same heap as the original"), ("vp_a_rebind", ld(A1), "the same heap as the original")):
            en = chk.analyse(u, fn)
            for r in en.rets():
                if r.facts.empty():
                    continue
                chk.ob(en.name, f"an adaptor refers to {what}", eqv(r.facts, en.load(r, A0, 8), src), rec_loc(r, en), f"refers to {en.load(r, A0, 8)}")
        en = chk.analyse(u, "vp_a_alloc")
        for r in en.recs:
            for e in heap_calls(r):
                if op_of(e) in ("allocate", "callocate", "deallocate"):
                    chk.ob(en.name, "allocation goes to the adaptor's own heap", eqv(e.facts, e.args[0], heap0), e.loc, f"goes to {e.args[0]}")
        en = chk.analyse(u, "vp_a_free")
        for r in en.recs:
            if r.facts.empty() or r.kind != "ret":
                continue
            cs = [e for e in heap_calls(r)]
            h = r.facts.copy()
            if not cs and (not h.add(eq(A1, k64(0)), False) or h.empty()):
                continue
            chk.ob(en.name, "a release goes to the adaptor's heap once", PROVED if len(cs) == 1 and op_of(cs[0]) == "deallocate" else
                   (UNDEC if any(e.kind == "loop" for e in r.events) else REFUTED), en.loc, f"{len(cs)} calls of the heap")
            for e in cs:
                chk.ob(en.name, "a release goes to the adaptor's own heap", eqv(e.facts, e.args[0], heap0), e.loc, f"goes to {e.args[0]}")
                if len(e.args) > 1:
                    chk.ob(en.name, "the very block is released", eqv(e.facts, e.args[1], A1), e.loc, f"releases {e.args[1]}")
        same = eq(ld(A0), ld(A1))
        for fn, pol in (("vp_a_eq", True), ("vp_a_eq_other", True), ("vp_a_ne", False), ("vp_a_ne_other", False)):
            en = chk.analyse(u, fn)
            for r in en.rets():
                if r.facts.empty():
                    continue
                b = r.ret if r.ret.w == 1 else ne0(r.ret)
                for truth in (True, False):
                    h = r.facts.copy()
                    if not h.add(same, truth) or h.empty():
                        continue
                    # at equal heaps the result is pol, otherwise its negation
                    # figures of different heaps are independent of each other
                    fig = {e.ret for e in heap_calls(r) if e.ret is not None} if not truth else ()
                    chk.ob(en.name, "two adaptors are equal exactly when they share the heap", decide(h, b, pol == truth, fig), rec_loc(r, en) or en.loc, f"{b}")
