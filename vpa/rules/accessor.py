"""C35: variable packets: fit, storage, checksum range, verdict (linear domain, vpa/engine.py)."""
from ..core import *
from ..terms import *
from .. import build, engine

ACCS = {"va": True, "vb": False, "vc": True, "vd": False, "ve": False, "vf": True}
A0, A1 = mk("arg", (0,), 64), mk("arg", (1,), 64)
VHDR = "include/xitren/func/packet.hpp:150"


def c35(chk, tier):
    u = build.unit("accessor")
    for nm in ACCS:
        Acc(chk, u, nm).run()


class Acc:
    def __init__(self, chk, u, nm):
        self.chk, self.u, self.nm = chk, u, nm

    def const(self, x):
        e = self.chk.analyse(self.u, f"vp_{self.nm}_k_{x}")
        r = e.rets()
        return ival(r[0].ret) if len(r) == 1 and r[0].ret is not None and is_int(r[0].ret) else None

    def ob(self, nme, rule, v, loc, d=""):
        return self.chk.ob(nme, rule, v, loc or VHDR, d)

    def run(self):
        chk, u, nm = self.chk, self.u, self.nm
        k = {x: self.const(x) for x in ("max", "h", "f", "t", "c", "oh", "of", "ov", "os", "od", "nh", "nf", "ns", "nd", "ih", "if", "is", "id")}
        if None in k.values():
            self.ob(f"vp_{nm}_k", "the operation can be summarised", UNDEC, None, str(k))
            return
        self.k = k
        self.L = k["h"] + k["f"] + k["c"]
        self.body = k["h"] + k["f"]
        self.little = ACCS[nm]
        # where the storage and the stated size are
        e = chk.analyse(u, f"vp_{nm}_size")
        s = None
        for r in e.rets():
            x = r.ret
            while x is not None and x.op == "zext":
                x = x.a[0]
            if x is not None and x.op == "ld" and x.w == 8 * x.a[1]:
                c, d = lin_parts(sub(x.a[0], A0))
                s = c if not d else None
                self.sz = x.a[1]
        if s is None or len(e.rets()) != 1:
            rs = e.rets()
            cst = len(rs) == 1 and rs[0].ret is not None and is_int(rs[0].ret) and not rs[0].facts.bad
            self.ob(f"vp_{nm}_size", "the stated size is a member of the packet", REFUTED if cst else UNDEC, e.loc, f"it is always {sval(rs[0].ret)}" if cst else "")
            return
        self.soff = s
        base = []
        fixed = False
        for op in ("st", "cst"):
            e = chk.analyse(u, f"vp_{nm}_{op}")
            for r in e.rets():
                fixed |= len(e.rets()) == 1 and r.ret.op in ("glob", "int")
                c, d = lin_parts(sub(r.ret, A0))
                base.append(c if not d else None)
        if None in base or len(set(base)) != 1:
            self.ob(f"vp_{nm}_st", "the storage is one place in the packet", REFUTED if None not in base or fixed else UNDEC, e.loc, "an object of its own, not part of the packet" if fixed else str(base))
            return
        self.B = addc(A0, base[0])
        self.setsize()
        self.ser()
        self.des()
        self.nocheck()

    # ------------------------------------------------------------ helpers
    def entry(self, op):
        e = self.chk.analyse(self.u, f"vp_{self.nm}_{op}")
        for r in e.recs:
            if r.kind != "ret":
                self.ob(e.name, "the operation returns", REFUTED if r.kind == "throw" and not r.facts.bad else UNDEC, getattr(r, "loc", None) or e.loc, r.kind)
        return e

    def old(self, e, addr, n):
        """What memory held before the operation."""
        st = engine.State()
        return e.an.load(None, addr, n, st)

    def bytes(self, e, r, mem, addr, n):
        return [self.byte(e.an.load(mem, addc(addr, i), 1, r.st)) for i in range(n)]

    def byte(self, t):
        """One byte by the narrowest name for it."""
        if t.op in ("trunc", "ld") and t.w == 8:
            x, i = engine.byte_of(t)
            n = x.w // 8
            if x.op == "bswap":
                return self.byte(trunc(lshr(x.a[0], const(8 * (n - 1 - i), x.w)), 8))
            if x.op == "ld" and x.w == 8 * x.a[1]:
                return mk("ld", (addc(x.a[0], i), 1, x.a[2]), 8)
        return t

    def olds(self, e, addr, n):
        return [self.old(e, addc(addr, i), 1) for i in range(n)]

    def alleq(self, f, xs, ys):
        return both(*[eqv(f, x, y) for x, y in zip(xs, ys)])

    def within(self, f, addr, n, base, size):
        """[addr, addr + n) lies in [base, base + size)."""
        off = sub(addr, base)
        n = n if not isinstance(n, int) else const(n, 64)
        z = size if not isinstance(size, int) else const(size, 64)
        a = decide(f, ult(z, off), False)
        if a != PROVED:
            # an empty access touches nothing
            g = f.copy()
            if not g.add(eq(n, const(0, 64)), False) or g.empty():
                return PROVED
            return a
        return decide(f, ult(sub(z, off), n), False)

    def rooted(self, t, base):
        """Does the address belong to the object of base?"""
        d = lin_parts(t)[1]
        return any(x is base for x in d)

    def touches(self, e, r, rule, writes=True):
        """Every access to the packet stays in its storage or is the size member."""
        k = self.k
        for ev in r.events:
            acc = []
            if ev.kind == "store":
                acc = [(ev.addr, ev.size, True)]
            elif ev.kind == "set":
                acc = [(ev.dst, ev.n, True)]
            elif ev.kind == "copy":
                acc = [(ev.dst, ev.n, True), (ev.src, ev.n, False)]
            elif ev.kind == "call" and (ev.get("name") or "").startswith("vp_crc"):
                acc = [(ev.args[0], ev.args[1], False)]
            for a, n, w in acc:
                if not self.rooted(a, A0):
                    continue
                v = self.within(ev.facts, a, n, self.B, k["max"])
                if v == REFUTED and eqv(ev.facts, a, addc(A0, self.soff)) == PROVED and (n == self.sz or (not isinstance(n, int) and is_int(n) and ival(n) == self.sz)):
                    v = PROVED
                self.ob(e.name, rule, v, ev.loc, f"{'writes' if w else 'reads'} {n if isinstance(n, int) else show(n)} bytes at {show(sub(a, self.B))} of {k['max']}")

    def crcs(self, r):
        return [ev for ev in r.events if ev.kind == "call" and (ev.get("name") or "").startswith("vp_crc")]

    def crcbytes(self, ev, n):
        v = ev.get("ret")
        bs = [trunc(lshr(v, const(8 * i, v.w)), 8) if n > 1 else v for i in range(n)]
        return bs if self.little else bs[::-1]

    # ------------------------------------------------------------ operations
    def stated(self, e, mem, st=None):
        """The stated size, as the getter reports it."""
        v = e.an.load(mem, addc(A0, self.soff), self.sz, st or engine.State())
        return zext(v, 64) if v.w < 64 else v

    def setsize(self):
        e = self.entry("setsize")
        for r in e.rets():
            got = self.stated(e, r.st.mem, r.st)
            self.ob(e.name, "a stated size round-trips", eqv(r.facts, got, A1), e.loc, show(got)[:80])
            self.touches(e, r, "stating a size writes nothing else")
            for ev in r.events:
                if ev.kind in ("store", "set", "copy"):
                    a = ev.addr if ev.kind == "store" else ev.dst
                    if self.rooted(a, A0):
                        v = self.within(ev.facts, a, ev.size if ev.kind == "store" else ev.n, addc(A0, self.soff), self.sz)
                        self.ob(e.name, "stating a size writes nothing else", v, ev.loc, show(a)[:80])

    def ser(self):
        k, L, T_ = self.k, self.L, self.k["t"]
        e = self.entry("ser")
        n = self.old(e, addc(A1, k["is"]), 8)
        p = self.old(e, addc(A1, k["id"]), 8)
        cap = (k["max"] - L) // T_
        fits = ult(n, const(cap + 1, 64))
        todo = []
        for r in e.rets():
            ret = r.facts.norm(r.ret)
            ret = trunc(ret, 1) if ret.w > 1 else ret
            h = bool(ival(ret)) if is_int(ret) else r.facts.holds(ret)
            if h is not None:
                todo.append((r, r.facts, h))
                continue
            # the outcome is computed without a branch: both outcomes that can be
            for pol in (True, False):
                st = r.st.fork()
                if st.assume(ret, pol) and not self.never(st.facts):
                    x = engine.Record("ret", st, r.ret)
                    todo.append((x, st.facts, pol))
        for r, f, yes in todo:
            v = decide(f, fits, yes)
            self.ob(e.name, "serialising succeeds exactly when the packet fits", v, self.where(r) or e.loc, ("succeeds although the packet may be too large" if yes else "fails although the packet may fit"))
            if not yes:
                for ev in r.events:
                    if ev.kind in ("store", "set", "copy"):
                        a = ev.addr if ev.kind == "store" else ev.dst
                        m = ev.size if ev.kind == "store" else ev.n
                        if not self.rooted(a, A0):
                            continue
                        same_ = UNDEC
                        m = m if isinstance(m, int) else ival(m) if is_int(m) else None
                        if m is not None and m <= 64:
                            same_ = self.alleq(f, self.bytes(e, r, r.st.mem, a, m), self.olds(e, a, m))
                        elif m is None:
                            same_ = REFUTED if ev.kind == "copy" and eqv(f, ev.src, ev.dst) == REFUTED else UNDEC
                        self.ob(e.name, "a failing serialisation writes nothing", same_, ev.loc, f"writes at {show(sub(a, self.B))[:60]}")
                if not any(ev.kind in ("store", "set", "copy") for ev in r.events):
                    self.ob(e.name, "a failing serialisation writes nothing", PROVED, e.loc)
                continue
            if v != PROVED:
                continue
            self.touches(e, r, "serialising stays within the storage")
            mem = r.st.mem
            end = addc(add(self.B, mulc(n, T_)), self.body)
            self.ob(e.name, "the header is written as given", self.alleq(f, self.bytes(e, r, mem, self.B, k["h"]), self.olds(e, addc(A1, k["ih"]), k["h"])), e.loc)
            self.ob(e.name, "the fields are written as given", self.alleq(f, self.bytes(e, r, mem, addc(self.B, k["h"]), k["f"]), self.olds(e, addc(A1, k["if"]), k["f"])), e.loc)
            self.ob(e.name, "the size of the packet is stored", eqv(f, self.stated(e, r.st.mem, r.st), addc(mulc(n, T_), L)), e.loc)
            # data
            j = mk("k", ("byte",), 64)
            g = r.st.fork()
            if g.assume(eq(p, const(0, 64)), False) and g.assume(ult(j, mulc(n, T_)), True) and not g.facts.empty():
                def data_ok(m):
                    got = g.facts.norm(e.an.load(m, add(addc(self.B, self.body), j), 1, g))
                    want = g.facts.norm(self.old(e, add(p, j), 1))
                    x = eqv(g.facts, got, want)
                    return x, f"{show(got)[:60]} instead of {show(want)[:60]}"
                x, d = data_ok(mem)
                if x == UNDEC:
                    # the one block written there: is it all of the data?
                    ws = [ev for ev in r.events if ev.kind in ("copy", "set") and self.rooted(ev.dst, A0) and not (is_int(ev.n) and is_int(sub(ev.dst, self.B)))]
                    xs = [ev for ev in r.events if ev.kind == "store" and not is_int(sub(ev.addr, self.B)) and not mentions(ev.val, p)]
                    loops = any(ev.kind not in ("copy", "set", "store", "call") for ev in r.events)
                    if len(ws) == 1 and ws[0].kind == "copy" and not loops and len(xs) <= 1 and eqv(ws[0].facts, ws[0].dst, addc(self.B, self.body)) == PROVED:
                        if eqv(ws[0].facts, ws[0].n, mulc(n, T_)) == REFUTED and decide(ws[0].facts, ult(ws[0].n, mulc(n, T_)), False) == REFUTED:
                            x, d = REFUTED, f"{show(ws[0].n)[:60]} bytes are copied, not {show(mulc(n, T_))[:60]}"
                self.ob(e.name, "the data are written as given", x, e.loc, d)
            else:
                data_ok = None
            for ev in r.events:
                if ev.kind == "copy" and self.rooted(ev.src, p):
                    self.ob(e.name, "only the data of the packet are read", self.within(ev.facts, ev.src, ev.n, p, mulc(n, T_)), ev.loc, f"{show(ev.n)[:60]} bytes")
            cs = self.crcs(r)
            if len(cs) != 1:
                self.ob(e.name, "the checksum is computed over everything before it", REFUTED if not cs else UNDEC, e.loc, f"computed {len(cs)} times")
                continue
            c = cs[0]
            self.range(e, c, addc(mulc(n, T_), self.body))
            at = c.mem
            self.ob(e.name, "the checksum is computed over what is sent",
                    both(self.alleq(f, self.bytes(e, r, at, self.B, self.body), self.bytes(e, r, mem, self.B, self.body)), data_ok(at)[0] if data_ok else PROVED), c.loc)
            v = self.alleq(f, self.bytes(e, r, mem, end, k["c"]), self.crcbytes(c, k["c"]))
            ss = [ev for ev in r.events if ev.kind == "store" and mentions(ev.val, c.get("ret"))]
            if v == UNDEC and len(ss) == 1 and ss[0].size == k["c"] and not any(ev.kind == "copy" and not self.rooted(ev.src, p) and not is_int(sub(ev.dst, self.B)) for ev in r.events):
                v = REFUTED if eqv(ss[0].facts, ss[0].addr, end) == REFUTED else UNDEC
            self.ob(e.name, "the checksum computed is stored behind the data", v, e.loc)

    def where(self, r):
        return getattr(r, "loc", None)

    def range(self, e, c, n):
        self.ob(e.name, "the checksum is computed over everything before it and nothing else", both(eqv(c.facts, c.args[0], self.B), eqv(c.facts, c.args[1], n)), c.loc,
                f"{show(c.args[1])[:60]} bytes at {show(sub(c.args[0], self.B))[:40]}")

    def oks(self, s):
        return [ult(s, const(self.L, 64)), ult(const(self.k["max"], 64), s)], urem(addc(s, -self.L), const(self.k["t"], 64))

    def des(self):
        k, L, T_ = self.k, self.L, self.k["t"]
        e = self.entry("des")
        s = self.stated(e, None)
        (short_, long_), rem = self.oks(s)
        whole = eq(rem, const(0, 64))
        for r in e.rets():
            f = r.facts
            val = f.norm(e.load(r, addc(A1, k["ov"]), 1))
            cs = self.crcs(r)
            self.touches(e, r, "deserialising reads only within the stored size")
            good = r.st.fork()
            can = good.assume(short_, False) and good.assume(long_, False) and (T_ == 1 or good.assume(whole, True)) and not self.never(good.facts)
            if is_int(val) and ival(val) & 1 == 0 and not cs:
                # reported invalid without a look at the checksum
                if not can:
                    self.ob(e.name, "a packet of a fitting size is judged by its checksum", PROVED, e.loc)
                else:
                    v = both(*[decide(f, a, p) for a, p in ((short_, True), (long_, True), (whole, False))])
                    self.ob(e.name, "a packet of a fitting size is judged by its checksum", REFUTED if self.sample(f, s, True) else UNDEC, self.where(r) or e.loc, "is reported invalid although its size may be right")
                continue
            bad = is_int(val) and ival(val) & 1 == 0
            if not bad:
                for a, p, what in ((short_, False, "shorter than header, fields and checksum"), (long_, False, "longer than the storage"), (whole, True, "no whole number of elements")):
                    if T_ == 1 and what.startswith("no whole"):
                        continue
                    v = decide(f, a, p)
                    if v == UNDEC and self.sample(f, s, False, (a, p)):
                        v = REFUTED
                    self.ob(e.name, "a size that is " + what + " is reported invalid", v, self.where(r) or e.loc)
            if not can:
                continue
            f = good.facts
            if len(cs) != 1:
                self.ob(e.name, "a packet of a fitting size is judged by its checksum", REFUTED if not cs and is_int(val) else UNDEC, e.loc, f"computed {len(cs)} times")
                continue
            c = cs[0]
            self.range2(e, c, addc(s, -k["c"]), good)
            # verdict
            stored = e.an.load(None, add(self.B, addc(s, -k["c"])), k["c"], engine.State())
            want = eq(stored if self.little else bswap_(stored), c.get("ret"))
            val = f.norm(val)
            if is_int(val):
                v = decide(f, want, bool(ival(val) & 1), free=leafs(c.get("ret")) | leafs(stored))
                if v == REFUTED and self.strange(f, c):
                    v = UNDEC
            else:
                b = trunc(val, 1)
                ok1, ok0 = good.fork(), good.fork()
                v = UNDEC
                if b.w == 1:
                    v1 = PROVED if not ok1.assume(b, True) else decide(ok1.facts, want, True)
                    v0 = PROVED if not ok0.assume(b, False) else decide(ok0.facts, want, False)
                    v = both(v1, v0)
            self.ob(e.name, "a packet is valid exactly when the stored checksum is the computed one", v, self.where(r) or c.loc, show(val)[:80])
            mem = r.st.mem
            self.ob(e.name, "the header is returned as received", self.alleq(f, self.bytes(e, r, mem, addc(A1, k["oh"]), k["h"]), self.olds(e, self.B, k["h"])), e.loc)
            self.ob(e.name, "the fields are returned as received", self.alleq(f, self.bytes(e, r, mem, addc(A1, k["of"]), k["f"]), self.olds(e, addc(self.B, k["h"]), k["f"])), e.loc)
            self.count(e, good, e.load(r, addc(A1, k["os"]), 8), s)
            self.ob(e.name, "the position of the data is reported", eqv(f, e.load(r, addc(A1, k["od"]), 8), addc(self.B, self.body)), e.loc)

    def never(self, f):
        """No size satisfies the conditions of the way."""
        if f.bad or f.empty():
            return True
        cs = f.wrap_cases(f.opq) if f.opq else None
        return cs is not None and not cs

    def count(self, e, good, got, s):
        f, T_ = good.facts, self.k["t"]
        want = udiv(addc(s, -self.L), const(T_, 64))
        v = eqv(f, got, want)
        if v == UNDEC:
            # T * count = s - L decides it as well (no wrap: count is a quotient)
            v = PROVED if got.op in ("udiv", "lshr") and eqv(f, mulc(got, T_), addc(s, -self.L)) == PROVED else UNDEC
        if v == UNDEC and self.differ(f, got, want, s):
            v = REFUTED
        self.ob(e.name, "the count of elements is reported", v, e.loc, show(got)[:80])

    def differ(self, f, got, want, s):
        """A size on this way for which the two terms fold to different numbers."""
        for m in self.sizes(f, s):
            x, y = subst(got, m), subst(want, m)
            if is_int(x) and is_int(y) and ival(x) != ival(y):
                return True
        return False

    def sizes(self, f, s):
        k = self.k
        vals = sorted({self.L + i for i in range(-3, 2 * k["t"] + 2)} | {k["max"] + i for i in range(-k["t"] - 1, 4)} | {0, 1, (1 << 64) - 1, (1 << 64) - self.L, 1 << 63, (1 << 32) + self.L})
        for v in vals:
            if v < 0:
                continue
            m = {s: const(v, 64)}
            ok = True
            for a, p in list(f.lits) + list(f.opq):
                if not mentions(a, s):
                    continue
                x = subst(a, m)
                if not is_int(x):
                    if any(y.op == "call" for y in atoms_under(x)):
                        continue        # the checksum may come out either way
                    ok = False
                    break
                if bool(ival(x)) != p:
                    ok = False
                    break
            if ok:
                yield m

    def sample(self, f, s, good, lit=None):
        """A size this way admits that is (not) right, by folding the conditions of the way."""
        for m in self.sizes(f, s):
            v = ival(next(iter(m.values())))
            if good:
                if self.L <= v <= self.k["max"] and (v - self.L) % self.k["t"] == 0:
                    return True
            else:
                a, p = lit
                x = subst(a, m)
                if is_int(x) and bool(ival(x)) != p:
                    return True
        return False

    def strange(self, f, c):
        """Something other than the checksum and the received bytes decides this way."""
        def odd(t):
            return (t.op in ("unk", "undef", "phi") or t.op == "call" and t is not c.get("ret"))
        return any(find(a, odd) for a, p in list(f.lits) + list(f.opq))

    def range2(self, e, c, n, good):
        g = good.facts
        self.ob(e.name, "the checksum is computed over everything before it and nothing else", both(eqv(g, c.args[0], self.B), eqv(g, c.args[1], n)), c.loc,
                f"{show(c.args[1])[:60]} bytes at {show(sub(c.args[0], self.B))[:40]}")

    def nocheck(self):
        k = self.k
        e = self.entry("nocheck")
        s = self.stated(e, None)
        (short_, long_), rem = self.oks(s)
        for r in e.rets():
            good = r.st.fork()
            if not (good.assume(short_, False) and good.assume(long_, False) and (k["t"] == 1 or good.assume(eq(rem, const(0, 64)), True)) and not good.facts.empty()):
                continue
            for o, at, what in (("nh", self.B, "header"), ("nf", addc(self.B, k["h"]), "fields"), ("nd", addc(self.B, self.body), "data")):
                self.ob(e.name, f"the position of the {what} is reported", eqv(good.facts, e.load(r, addc(A1, k[o]), 8), at), e.loc)
            self.count(e, good, e.load(r, addc(A1, k["ns"]), 8), s)


def bswap_(t):
    return engine.bswap(t)
