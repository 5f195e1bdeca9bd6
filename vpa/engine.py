"""Path-sensitive dataflow analysis of one normalised function.

The control-flow graph is read as a tree of natural loops.  Acyclic code is analysed with the
abstract state partitioned by branch outcome; each loop is analysed once, for an arbitrary iteration,
after its header variables and the memory cells it carries have been brought into closed form
(invariant, induction, conditional counter, function of another header variable, or unknown).
Nothing is unrolled and nothing is executed."""
from .terms import *
from .terms import T
from .facts import Facts


class TooBig(Exception):
    pass


class Irreducible(Exception):
    pass


class Ev:
    """One observable event."""
    __slots__ = ("kind", "d", "loc", "facts", "mem", "st")

    def __init__(self, kind, loc, facts, **d):
        self.kind, self.loc, self.facts, self.d = kind, loc, facts, d
        self.mem = None

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def subst(self, m):
        def f(v):
            if isinstance(v, T):
                return subst(v, m)
            if isinstance(v, (list, tuple)):
                return type(v)(f(x) for x in v)
            return v
        e = Ev(self.kind, self.loc, self.facts)
        e.mem = self.mem
        e.d = {k: f(v) for k, v in self.d.items()}
        return e

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={v}' for k, v in self.d.items() if k not in ('fun','loop'))})"


class Node:
    """One entry of the memory history (newest first)."""
    __slots__ = ("prev", "kind", "addr", "size", "val", "x")

    def __init__(self, prev, kind, addr=None, size=None, val=None, x=None):
        self.prev, self.kind, self.addr, self.size, self.val, self.x = prev, kind, addr, size, val, x


class State:
    __slots__ = ("env", "mem", "facts", "events", "foralls", "seq", "escaped")

    def __init__(self):
        self.env, self.mem, self.facts = {}, None, Facts()
        self.events, self.foralls, self.seq, self.escaped = (), (), 0, frozenset()

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem, s.facts, s.events, s.foralls = self.mem, self.facts, self.events, self.foralls
        s.seq, s.escaped = self.seq, self.escaped
        return s

    def assume(self, atom, pol=True):
        f = self.facts.copy()
        ok = f.add(atom, pol)
        self.facts = f
        return ok

    def emit(self, e):
        e.mem = self.mem
        self.events = self.events + (e,)


class Alt:
    """One way through a loop body back to the header."""

    def __init__(self, lits, events, nexts, st):
        self.lits, self.events, self.nexts, self.st = lits, events, nexts, st


class Loop:
    def __init__(self, hid, K, J):
        self.hid, self.K, self.J = hid, K, J
        self.kinds, self.inits, self.alts, self.exits = {}, {}, [], 0
        self.loc = []
        self.cells = {}

    def __repr__(self):
        return f"Loop{self.hid}[{len(self.alts)} ways]"


class Forall:
    """For every j in [0, count): one of the loop's ways back was taken at iteration j."""

    def __init__(self, loop, count, alts):
        self.loop, self.count, self.alts = loop, count, alts


class Record:
    """One way out of the function."""

    def __init__(self, kind, st, ret=None, info=None):
        self.kind, self.st, self.ret, self.info = kind, st, ret, info
        self.facts, self.events, self.foralls = st.facts, st.events, st.foralls

    def __repr__(self):
        return f"<{self.kind} ret={self.ret} facts={[('' if p else '!') + str(a) for a, p in self.facts.lits]}>"


TERMINATE = ("_ZSt9terminatev", "__clang_call_terminate", "abort", "__cxa_pure_virtual", "_ZSt21__glibcxx_assert_failPKciS0_S0_")


class Analysis:
    forever = False      # also give a record for a loop that is never left

    def __init__(self, fn, mod, layout=None, facts=(), unwind=False, max_paths=3000, pure=(), effects=None, big=False,
                 opaque_writes=False):
        self.fn, self.mod = fn, mod
        self.blocks = {b["id"]: b for b in fn["blocks"]}
        self.entry = fn["blocks"][0]["id"]
        self.unwind, self.max_paths, self.big = unwind, max_paths, big
        self.npaths = 0
        self.layout = layout or {}
        self.init_facts = facts
        self.effects = effects
        self.loops_seen = {}
        self.ptrs = set()
        self.inst_count = sum(len(b["is"]) for b in fn["blocks"])
        self._cfg()

    # ------------------------------------------------------------ control flow graph
    def _cfg(self):
        self.succ = {}
        for b in self.blocks.values():
            t = b["is"][-1]
            s = []
            if t["op"] == "br":
                s = list(t["succ"])
            elif t["op"] == "switch":
                s = [c[1] for c in t["cases"]] + [t["default"]]
            elif t["op"] == "invoke":
                s = [t["normal"], t["unwind"]]
            self.succ[b["id"]] = s
        pred = {b: [] for b in self.blocks}
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                n, it = st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        st.append((m, iter(self.succ[m])))
                        break
                else:
                    order.append(n)
                    st.pop()
        dfs(self.entry)
        rpo = list(reversed(order))
        idx = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom, self.pred, self.rpo = idom, pred, rpo

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.dom = dom
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
                elif idx[s] <= idx[b]:
                    raise Irreducible()

    # ------------------------------------------------------------ values
    def val(self, v, st):
        k = v["k"]
        if k == "v":
            return st.env.get(v["id"]) or mk("undef", (v["id"],), 64)
        if k == "int":
            return const(int(v["v"]), v["w"])
        if k == "arg":
            return self.args[v["n"]]
        if k == "gep":
            return self.gep(v, st)
        if k == "glob":
            return mk("glob", (v["n"],), 64)
        if k == "fn":
            return mk("fn", (v["n"],), 64)
        if k == "undef":
            return mk("undef", (0,), 64)
        if k == "fp":
            return mk("fp", (v["v"],), 64)
        if k == "op" and v.get("op") in ("inttoptr", "ptrtoint", "bitcast"):
            return self.val(v["ops"][0], st)
        if k == "agg":
            return mk("agg", tuple(self.val(x, st) for x in v["ops"]), 64)
        return mk("other", (repr(sorted(v.items(), key=str)),), 64)

    def gep(self, g, st):
        b = self.val(g["base"], st)
        self.ptrs.add(b)
        r = addc(b, g["off"])
        for v, k in g["vars"]:
            x = self.val(v, st)
            if x.w < 64:
                x = sext(x, 64)
            elif x.w > 64:
                x = trunc(x, 64)
            r = add(r, mulc(x, k))
        return r

    def width(self, ty):
        if ty == "p":
            return 64
        if ty[0] == "i" and ty[1:].isdigit():
            return int(ty[1:])
        if ty == "f32":
            return 32
        return 64

    # ------------------------------------------------------------ memory
    PRI = {"alloca": 0, "arg": 1, "glob": 2, "new": 2, "fn": 2, "exc": 2}

    def root(self, addr):
        """(root atom, offset term) of an address."""
        c, d = lin_parts(addr)
        best = None
        for a, k in d.items():
            if k != 1:
                continue
            p = self.PRI.get(a.op)
            if a.op == "arg" and self.fn["args"][a.a[0]]["ty"] != "p":
                p = 5
            if p is None:
                p = 3 if a in self.ptrs else (4 if a.op in ("ld", "call", "phi", "xor", "ald") else 6)
            key = (p, a.id)
            if best is None or key < best[0]:
                best = (key, a)
        if best is None:
            return None, addr
        r = best[1]
        return r, sub(addr, r)

    def field(self, root, off):
        lay = self.layout.get(root)
        if not lay:
            return None
        c, d = lin_parts(off)
        if not d:
            for f in lay:
                if f.off <= c < f.off + f.size:
                    return f
            return None
        best = None
        for f in lay:
            if not f.array:
                continue
            dist = 0 if f.off <= c < f.off + f.size else min(abs(c - f.off), abs(c - f.off - f.size))
            if best is None or dist < best[0]:
                best = (dist, f)
        return best[1] if best else None

    def alias(self, addr, size, waddr, wsize, facts):
        d = facts.norm(sub(addr, waddr))
        if is_int(d):
            v = sval(d)
            if v >= wsize or v <= -size:
                return "no", 0
            return "must", v
        ra, oa = self.root(facts.norm(addr))
        rb, ob = self.root(facts.norm(waddr))
        if ra is not rb:
            return "no", 0
        c, dd = lin_parts(d)
        if facts.nonneg(c - wsize, dd) or facts.nonneg(-c - size, {a: -k for a, k in dd.items()}):
            return "no", 0
        fa, fb = self.field(ra, oa), self.field(rb, ob)
        if fa is not None and fb is not None and fa is not fb:
            return "no", 0
        return "may", 0

    def extract(self, v, off, size):
        w = size * 8
        if v.op == "undef":
            return mk("undef", (0,), w)
        if self.big:
            off = v.w // 8 - off - size
        if v.op == "concat" and len(v.a) == v.w // 8 and off + size <= len(v.a):
            bs = list(v.a[off:off + size])
            if self.big:
                bs.reverse()
            return bs[0] if size == 1 else self.concat(bs)
        return trunc(lshr(v, const(off * 8, v.w)), w)

    def load(self, node, addr, size, st, depth=0):
        facts = st.facts
        addr = facts.norm(addr)
        w = size * 8
        ver = 0
        n = node
        while n is not None:
            if n.kind == "st":
                r, off = self.alias(addr, size, n.addr, n.size, facts)
                if r == "must":
                    vs = n.val.w // 8 if n.val.w >= 8 else 1
                    if off >= 0 and off + size <= n.size:
                        if off == 0 and size == n.size:
                            v = n.val
                            if v.w == w:
                                return v
                            if v.w < w:
                                return zext(v, w)
                        if n.val.w == n.size * 8:
                            return self.extract(n.val, off, size)
                        return mk("unk", (addr, size), w)
                    if size <= 8 and size > 1 and depth < 2:
                        bs = [self.load(node, addc(addr, i), 1, st, depth + 1) for i in range(size)]
                        return self.concat(bs)
                    return mk("unk", (addr, size), w)
                if r == "may":
                    return mk("unk", (addr, size, n.addr), w)
            elif n.kind == "cpy":
                r, off = self.alias(addr, size, n.addr, n.size if isinstance(n.size, int) else 1, facts)
                if isinstance(n.size, int):
                    if r == "must" and off >= 0 and off + size <= n.size:
                        st2 = st
                        return self.load(n.prev, addc(n.val, off), size, st2, depth)
                    if r != "no":
                        return mk("unk", (addr, size, n.addr), w)
                else:
                    q = self.in_range(addr, size, n.addr, n.size, facts)
                    if q == "in":
                        return self.load(n.prev, add(n.val, sub(addr, n.addr)), size, st, depth)
                    if q == "may":
                        return mk("unk", (addr, size, n.addr), w)
            elif n.kind == "set":
                q = self.in_range(addr, size, n.addr, n.size, facts)
                if q == "in":
                    if is_int(n.val):
                        b = ival(n.val) & 255
                        return const(int.from_bytes(bytes([b]) * size, "little"), w)
                    return n.val if size == 1 else mk("unk", (addr, size, n.addr), w)
                if q == "may":
                    return mk("unk", (addr, size, n.addr), w)
            elif n.kind == "hav":
                # contents decided by an opaque operation: region [addr, addr+size) or a whole object
                if n.size is None:
                    if self.root(addr)[0] is n.addr:
                        ver = n.val
                        break
                else:
                    r, off = self.alias(addr, size, n.addr, n.size, facts)
                    if r != "no":
                        ver = n.val
                        break
            elif n.kind == "loop":
                for (waddr, wsize, base) in n.x:
                    r = self.alias_j(addr, size, waddr, wsize, n.val, facts)
                    if r:
                        v = self.loop_value(addr, size, waddr, wsize, n, st)
                        if v is not None:
                            return v
                        if wsize < size <= 32 and wsize == 1 and depth < 2:
                            bs = [self.load(node, addc(addr, i), 1, st, depth + 1) for i in range(size)]
                            if not any(b.op == "unk" for b in bs):
                                return self.concat(bs)
                        return mk("unk", (addr, size, n.val[0].K), w)
            n = n.prev
        r, off = self.root(addr)
        if ver == 0 and r is not None and r.op == "alloca":
            return mk("undef", (0,), w)
        g = self.glob_load(r, off, size)
        if g is not None:
            return g
        return mk("ld", (addr, size, ver), w)

    def glob_load(self, r, off, size):
        return None

    def loop_value(self, addr, size, waddr, wsize, n, st):
        """What a completed loop that stores one cell per iteration left at addr; None when not so simple."""
        lo, _ = n.val
        lp = getattr(lo, "lp", None)
        if lp is None or size != wsize:
            return None
        for (oa, os, _) in n.x:
            if (oa, os) != (waddr, wsize) and self.alias_j(addr, size, oa, os, n.val, st.facts):
                return None
        K = lo.K
        wk = subst(waddr, {lo.J: K})
        c, d = lin_parts(wk)
        k = d.pop(K, 0)
        if k == 0 or abs(k) < wsize or any(mentions(a, K) for a in d):
            return None
        dist = sub(st.facts.norm(addr), mk_lin(c, d, 64))
        if k < 0:
            dist, k = neg(dist), -k
        if is_int(dist):
            t = const(ival(dist) // k, 64) if ival(dist) % k == 0 else None
        else:
            i = st.facts.toint(dist)
            t = divexact(dist, k) if i is not None and st.facts.nonneg(*i) else None
        if t is None or st.facts.holds(ult(t, K)) is not True:
            return None
        val = None
        for al in lp.alts:
            ws = []
            q = al.st.mem
            while q is not lp.mem0 and q is not None:
                if q.kind == "st" and q.size == wsize and (q.addr is wk or al.st.facts.norm(q.addr) is wk):
                    ws.append(q.val)
                elif q.kind == "loop":
                    for (ia, iz, _) in q.x:
                        sp = self.span_of(ia, iz, q.val[0], al.st.facts)
                        if sp is None or self.alias(wk, wsize, sp[0], sp[1], al.st.facts)[0] != "no":
                            return None
                elif q.kind == "hav" and q.size is None:
                    if self.root(wk)[0] is q.addr:
                        return None
                elif q.kind not in ("st", "set", "hav") or self.alias(wk, wsize, q.addr, q.size if isinstance(q.size, int) else 1, al.st.facts)[0] != "no":
                    return None
                q = q.prev
            if len(ws) != 1 or val is not None and ws[0] is not val:
                return None
            val = ws[0]
        if val is None or find(val, lambda x: x.op in ("phi", "unk", "undef", "m")):
            return None
        return subst(val, {K: t})

    def in_range(self, addr, size, base, n, facts):
        d = facts.norm(sub(addr, base))
        ra, _ = self.root(facts.norm(addr))
        rb, _ = self.root(facts.norm(base))
        if ra is not rb and not is_int(d):
            return "no"
        nn = n if isinstance(n, T) else const(n, 64)
        c, dd = lin_parts(d)
        e = facts.norm(sub(nn, d))
        ec, ed = lin_parts(e)
        if is_int(d) and sval(d) <= -size:
            return "no"
        if facts.nonneg(c, dd) and facts.nonneg(ec - size, ed):
            return "in"
        if facts.nonneg(-c - size, {a: -k for a, k in dd.items()}) or facts.nonneg(-ec, {a: -k for a, k in ed.items()}):
            return "no"
        return "may"

    def alias_j(self, addr, size, waddr, wsize, info, facts):
        """May the address have been written in an earlier iteration j < K?"""
        loop, jfacts = info
        f = facts.copy()
        for a, p in jfacts:
            if not f.add(a, p):
                return False
        r, off = self.alias(addr, size, waddr, wsize, f)
        return r != "no"

    def concat(self, bs):
        if self.big:
            bs = list(reversed(bs))
        if all(is_int(b) for b in bs):
            return const(int.from_bytes(bytes(ival(b) for b in bs), "little"), 8 * len(bs))
        w = 8 * len(bs)
        # consecutive bytes of one value
        base = None
        ok = True
        for i, b in enumerate(bs):
            s = byte_of(b)
            if s is None or s[1] != i or (base is not None and s[0] is not base):
                ok = False
                break
            base = s[0]
        if ok and base is not None and base.w == w:
            return base
        return mk("concat", tuple(bs), w)

    def store(self, st, addr, size, v, ins, atomic="", vol=False, local_ok=True):
        addr = st.facts.norm(addr)
        st.mem = Node(st.mem, "st", addr, size, v)
        r, _ = self.root(addr)
        if v.op in ("alloca",) or (v.op == "lin" and self.root(v)[0] is not None and self.root(v)[0].op == "alloca"):
            rv = self.root(v)[0]
            if rv is not None and rv.op == "alloca":
                st.escaped = st.escaped | {rv}
        if r is None or r.op != "alloca":
            st.emit(Ev("store", ins["loc"], st.facts, addr=addr, size=size, val=v, atomic=atomic, vol=vol))

    # ------------------------------------------------------------ running
    def run(self):
        st = State()
        self.args = []
        for i, a in enumerate(self.fn["args"]):
            t = mk("arg", (i,), self.width(a["ty"]))
            self.args.append(t)
            if a["ty"] == "p":
                self.ptrs.add(t)
                st.assume(eq(t, const(0, 64)), False) if a.get("nn", False) else None
        for a, p in self.init_facts(self) if callable(self.init_facts) else self.init_facts:
            if a == "def":
                f = st.facts.copy()
                f.define(*p)
                st.facts = f
            else:
                st.assume(a, p)
        self.records = []
        for o in self.explore(self.entry, None, st, None, None):
            self.records.append(o)
        return self.records

    def count_path(self):
        self.npaths += 1
        if self.npaths > self.max_paths:
            raise TooBig()

    def explore(self, start, pred, st, loop, K, skip_phi=False):
        """Outcomes: Record (left the function) or ('back'|'exit', from, to, state)."""
        out = []
        work = [(start, pred, st, skip_phi)]
        while work:
            b, p, s, first = work.pop()
            if loop is not None and b not in self.loops[loop]:
                out.append(("exit", p, b, s))
                self.count_path()
                continue
            if b in self.loops and b != loop:
                for fr, to, s2 in self.run_loop(b, p, s, K):
                    work.append((to, fr, s2, False))
                continue
            if b == loop and not first:
                out.append(("back", p, b, s))
                self.count_path()
                continue
            if not first:
                self.phis(b, p, s)
            for nxt in self.block(b, s, K):
                if isinstance(nxt, Record):
                    out.append(nxt)
                    self.count_path()
                else:
                    work.append((nxt[0], b, nxt[1], False))
        return out

    def phis(self, b, p, st):
        vals = []
        for i in self.blocks[b]["is"]:
            if i["op"] != "phi":
                break
            for fr, v in i["in"]:
                if fr == p:
                    x = self.val(v, st)
                    w = self.width(i["ty"])
                    if x.op == "undef" and x.w != w:
                        x = mk("undef", x.a, w)
                    vals.append((i["id"], x))
                    if i["ty"] == "p":
                        self.ptrs.add(x)
                    break
        for k, v in vals:
            st.env[k] = v

    # ------------------------------------------------------------ loops
    def run_loop(self, h, pred, st, outerK):
        K = mk("k", (h, outerK if outerK is not None else 0), 64)
        J = mk("k", (h, "j", outerK if outerK is not None else 0), 64)
        phis = [i for i in self.blocks[h]["is"] if i["op"] == "phi"]
        s0 = st.fork()
        self.phis(h, pred, s0)
        inits = {i["id"]: s0.env[i["id"]] for i in phis}
        tys = {i["id"]: i["ty"] for i in phis}
        kinds = {i["id"]: ("gen",) for i in phis}
        cells = {}      # (addr, size) -> kind
        cinit = {}
        variant = {}    # (addr term in K, size)
        hav = {}
        down = []
        for rnd in range(12):
            s = st.fork()
            s.events, s.foralls = (), ()
            sym = {}
            last_lo = None
            extra = list(down)

            def value(key, kind, init, w):
                k = kind[0]
                if k == "inv":
                    return init
                KK = K if w == 64 else trunc(K, w) if w < 64 else zext(K, w)
                if k == "ind":
                    return add(init, mulc(KK, kind[1]))
                if k == "cnt":
                    m = mk("m", (h, key if not isinstance(key, tuple) else mk("cell", key, 1), K), 64)
                    extra.append((ult(K, m), False))
                    return add(init, mulc(m if w == 64 else trunc(m, w), kind[1]))
                return mk("phi", (h, key if not isinstance(key, tuple) else mk("cell", key, 1), K), w)
            for i in phis:
                w = self.width(i["ty"])
                kd = kinds[i["id"]]
                if kd[0] != "rel":
                    sym[i["id"]] = value(i["id"], kd, inits[i["id"]], w)
            for i in phis:
                kd = kinds[i["id"]]
                if kd[0] == "rel":
                    sym[i["id"]] = subst(kd[2], {mk("hole", (), 64): sym[kd[1]]})
            for k2, v in sym.items():
                s.env[k2] = v
                if tys[k2] == "p":
                    self.ptrs.add(v)
            if variant:
                jf = self.jfacts(variant, K, J, h)
                lo = Loop(h, K, J)
                last_lo = lo
                s.mem = Node(s.mem, "loop", val=(lo, jf), x=[(subst(a, {K: J}), sz, None) for (a, sz) in variant])
            for (addr, size), ver in hav.items():
                s.mem = Node(s.mem, "hav", addr, size, mk("lv", (h, K), 64))
            csym = {}
            for (addr, size), kd in cells.items():
                w = size * 8
                if (addr, size) not in cinit:
                    cinit[(addr, size)] = self.load(st.mem, addr, size, st)
                v = value((addr, size), kd, cinit[(addr, size)], cinit[(addr, size)].w)
                if kd[0] == "ind" and cinit[(addr, size)].w != w:
                    v = mk("phi", (h, mk("cell", (addr, size), 1), K), w)
                csym[(addr, size)] = v
                s.mem = Node(s.mem, "st", addr, size, v)
            mem0 = s.mem
            f = s.facts.copy()
            for a, p in extra:
                f.add(a, p)
            s.facts = f
            nl = len(f.lits)
            outs = self.explore(h, None, s, h, K, skip_phi=True)
            backs = [o for o in outs if not isinstance(o, Record) and o[0] == "back"]
            exits = [o for o in outs if not isinstance(o, Record) and o[0] == "exit"]
            recs = [o for o in outs if isinstance(o, Record)]
            changed = False
            # what the body writes
            vnew = {}
            for o in backs:
                n = o[3].mem
                while n is not mem0 and n is not None:
                    if n.kind in ("st", "set", "cpy"):
                        a = n.addr
                        if not isinstance(n.size, int):
                            r = self.root(a)[0]
                            if r is not None and (r, None) not in hav:
                                hav[(r, None)] = True
                                changed = True
                        elif self.loop_invariant(a, h, K):
                            key = (a, n.size)
                            if key not in cells and not any(
                                    self.alias(a, n.size, c[0], c[1], st.facts)[0] == "must" for c in cells):
                                cells[key] = ("gen",)
                                changed = True
                        else:
                            na = o[3].facts.norm(a)
                            if na is not a and mentions(a, K) == mentions(na, K) and self.root(na)[0] is self.root(a)[0] and any(
                                    x.op == "k" and x is not K and x not in atoms(na) for x in atoms(a)):
                                # the count of an inner loop is known
                                a = na
                            vnew[(a, n.size)] = True
                    elif n.kind == "hav":
                        if self.loop_invariant(n.addr, h, K) and (n.addr, n.size) not in hav:
                            hav[(n.addr, n.size)] = True
                            changed = True
                    elif n.kind == "loop":
                        for (wa, ws, _) in n.x:
                            sp = self.span_of(wa, ws, n.val[0], o[3].facts)
                            if sp is not None and not self.loop_invariant(sp[0], h, K):
                                vnew[sp] = True
                                continue
                            r = self.root(wa)[0]
                            if r is not None and (r, None) not in hav and self.loop_invariant(r, h, K):
                                hav[(r, None)] = True
                                changed = True
                    n = n.prev
            if set(vnew) != set(variant):
                variant = vnew
                changed = True
            nexts = []
            for o in backs:
                d = {}
                for i in phis:
                    for fr, v in i["in"]:
                        if fr == o[1]:
                            d[i["id"]] = self.val(v, o[3])
                for c in cells:
                    d[c] = self.load(o[3].mem, c[0], c[1], o[3])
                nexts.append(d)
            allk = dict(kinds)
            allk.update(cells)
            for key, kd in list(allk.items()):
                if kd[0] != "gen":
                    continue
                cur = sym.get(key) if not isinstance(key, tuple) else csym.get(key)
                init = inits.get(key) if not isinstance(key, tuple) else cinit.get(key)
                if cur is None or not backs:
                    continue
                diffs = set()
                for d, o in zip(nexts, backs):
                    nx = d.get(key)
                    if nx is None or nx.w != cur.w:
                        diffs.add(None)
                        continue
                    x = o[3].facts.norm(sub(nx, cur))
                    diffs.add(sval(x) if is_int(x) else None)
                new = None
                if diffs == {0}:
                    new = ("inv",)
                elif len(diffs) == 1 and None not in diffs:
                    new = ("ind", next(iter(diffs)))
                elif None not in diffs and len(diffs) == 2 and 0 in diffs:
                    new = ("cnt", next(iter(diffs - {0})))
                if new and init is not None and init.op == "undef" and new[0] != "inv":
                    new = None
                if new:
                    (cells if isinstance(key, tuple) else kinds)[key] = new
                    changed = True
            if not changed:
                # functions of another header variable
                gens = [k for k, v in kinds.items() if v[0] == "gen" and self.width(tys[k]) == 64]
                used = {v[1] for v in kinds.values() if v[0] == "rel"}
                hole = mk("hole", (), 64)
                done = False
                for bk in gens:
                    if bk in used:
                        continue
                    for pk in gens:
                        if pk == bk or done:
                            continue
                        Tt = subst(st.facts.norm(inits[bk]), {st.facts.norm(inits[pk]): hole})
                        if not mentions(Tt, hole) or Tt is hole and False:
                            continue
                        if backs and all(
                                o[3].facts.norm(sub(d[bk], subst(Tt, {hole: d[pk]}))) is const(0, 64)
                                for d, o in zip(nexts, backs)):
                            kinds[bk] = ("rel", pk, Tt)
                            changed = done = True
                    if done:
                        break
            if not changed and not down and backs:
                # downward counters: every iteration so far left room for its step
                alts = [Alt(o[3].facts.lits[nl:], (), {}, o[3]) for o in backs]
                down = self.down_facts(alts, K, st.facts)
                if down:
                    continue
            if not changed:
                break
        lp = Loop(h, K, J)
        lp.kinds, lp.inits, lp.tys = kinds, inits, tys
        lp.cells, lp.cinit = cells, cinit
        lp.loc = self.blocks[h]["is"][-1]["loc"]
        lp.entry_facts = st.facts
        lp.sym, lp.csym = sym, csym
        lp.mem0 = mem0
        if last_lo is not None:
            last_lo.lp = lp
        for o, d in zip(backs, nexts):
            lp.alts.append(Alt(o[3].facts.lits[nl:], o[3].events, d, o[3]))
            lp.alts[-1].K = K
        lp.early = recs
        lp.exits = [(o[1], o[2], o[3].facts.lits[nl:], o[3].events) for o in exits]
        self.loops_seen.setdefault(h, []).append(lp)
        res = []
        base_events, base_foralls = st.events, st.foralls
        bf = self.bound_facts(lp, K)
        for o in exits:
            s2 = o[3]
            fa = Forall(lp, K, lp.alts)
            if not all(s2.assume(a, p) for a, p in bf):
                continue
            s2.facts = s2.facts.copy()
            s2.facts.loops += ((K, [al.lits for al in lp.alts]),)
            s2.foralls = base_foralls + (fa,) + s2.foralls
            tail = s2.events
            s2.events = base_events + (Ev("loop", lp.loc, st.facts, loop=lp, count=K),) + tail
            s2.seq = max(s2.seq, st.seq) + 1
            # a flag every way sets anew: it is what the last iteration set
            over = [key for key, kd in allk.items() if kd[0] == "gen" and lp.alts and len(lp.alts) <= 4
                    and not any(find(a, lambda x: x.op in ("phi", "unk", "undef")) for al in lp.alts for a, _ in al.lits)
                    and (csym if isinstance(key, tuple) else sym).get(key) is not None
                    and (csym if isinstance(key, tuple) else sym)[key].w <= 8
                    and all(al.nexts.get(key) is not None and (is_int(al.nexts[key]) or al.nexts[key].w == 1 and
                            not find(al.nexts[key], lambda x: x.op in ("phi", "unk", "undef", "ald"))) for al in lp.alts)]
            if over:
                syms = {key: (csym if isinstance(key, tuple) else sym)[key] for key in over}
                ini = {key: (cinit if isinstance(key, tuple) else inits)[key] for key in over}
                z = s2.fork()
                if z.assume(eq(K, const(0, 64)), True) and all(z.assume(eq(syms[k_], ini[k_]), True) for k_ in over if ini[k_].op != "undef"):
                    res.append((o[1], o[2], z))
                prev = {K: addc(K, -1)}
                for al in lp.alts:
                    z = s2.fork()
                    if not (z.assume(eq(K, const(0, 64)), False) and all(z.assume(subst(a, prev), p) for a, p in al.lits)):
                        continue
                    zs = [z]
                    for k_ in over:
                        nv = subst(al.nexts[k_], prev)
                        if is_int(nv):
                            zs = [y for y in zs if y.assume(eq(syms[k_], nv), True)]
                        else:
                            ys = []
                            for y in zs:
                                for t, y2 in self.branch(y, nv):
                                    if y2.assume(syms[k_], t):
                                        ys.append(y2)
                            zs = ys
                    res.extend((o[1], o[2], y) for y in zs)
                continue
            res.append((o[1], o[2], s2))
        for r in recs:
            s2 = r.st
            s2.foralls = base_foralls + (Forall(lp, K, lp.alts),) + s2.foralls
            s2.events = base_events + (Ev("loop", lp.loc, st.facts, loop=lp, count=K),) + s2.events
            r.events, r.foralls = s2.events, s2.foralls
            self.records.append(r)
        if self.forever and not exits and not recs and lp.alts:
            # a loop without a way out
            s2 = st.fork()
            s2.events = base_events + (Ev("loop", lp.loc, st.facts, loop=lp, count=K),)
            self.records.append(Record("forever", s2))
        return res

    def bound_facts(self, lp, K):
        """What the previous iteration's conditions say about the count: a(K-1) < b for an upward
        counter a gives a(K) < b + step, whether or not there was a previous iteration."""
        if not lp.alts:
            return []
        common = set(lp.alts[0].lits)
        for al in lp.alts[1:]:
            common &= set(al.lits)
        out = []
        for a, p in common:
            while a.op == "not":
                a, p = a.a[0], not p
            if a.op == "eq0" and not p:
                # an induction variable leaving its bound by equality has not passed it:
                # step k from a multiple distance; usable only when the distance shrinks by one unit
                c, d = lin_parts(a.a[0])
                k = d.get(K)
                others = {x: v for x, v in d.items() if x is not K}
                if k and all(v % k == 0 for v in others.values()) and c % k == 0 and not any(mentions(x, K) for x in others):
                    lim = mk_lin(-c // k, {x: -v // k for x, v in others.items()}, 64)
                    out.append((ult(lim, K), False))
                elif k and not any(mentions(x, K) for x in others) and K.w == a.a[0].w:
                    # iterator ranges: the distance is a whole number of steps (assumption A3)
                    sg = -1 if k > 0 else 1
                    D = mk_lin(c * sg, {x: v * sg for x, v in others.items()}, 64)
                    i = lp.entry_facts.toint(D)
                    if i is not None and lp.entry_facts.nonneg(*i):
                        out.append((ult(D, mulc(K, abs(k))), False))
                continue
            if a.op not in ("ult", "slt"):
                continue
            x, y = a.a
            strict = p
            if not p:
                x, y = y, x
            # x < y (strict) or x <= y, every iteration before K
            cx, dx = lin_parts(x)
            cy, dy = lin_parts(y)
            kx, ky = dx.get(K, 0), dy.get(K, 0)
            if kx - ky <= 0 or x.w != 64:
                continue
            if any(mentions(b, K) for b in list(dx) + list(dy) if b is not K):
                continue
            f = lp.entry_facts
            # integer reading: x0 - k <= y0 - strict must hold without an iteration as well
            x0, y0 = subst(x, {K: const(0, 64)}), subst(y, {K: const(0, 64)})
            step = kx - ky
            i, j = f.toint(x0), f.toint(y0)
            if i is None or j is None:
                continue
            d = dict(j[1])
            for b, v in i[1].items():
                d[b] = d.get(b, 0) - v
            d = {b: v for b, v in d.items() if v}
            if not f.nonneg(j[0] - i[0] + step - (1 if strict else 0), d):
                continue
            # x(K) - step < y(K)
            ge_ = addc(y, step - (1 if strict else 0))
            out.append(((ult if a.op == "ult" else slt)(ge_, x), False))
        return out

    def down_facts(self, alts, K, f0):
        """y(K) = y0 - s*K, every way back needs y(K) >= s: then s*K <= y0 at every iteration reached."""
        common = set(alts[0].lits)
        for al in alts[1:]:
            common &= set(al.lits)
        out = []
        for a, p in common:
            while a.op == "not":
                a, p = a.a[0], not p
            if a.op == "eq0" and not p:
                y, least = a.a[0], 1
                if any(v < 0 for b, v in lin_parts(y)[1].items() if b is K or b.op == "trunc" and b.a[0] is K):
                    pass
                else:
                    y = neg(y)
            elif a.op == "ult":
                x, z = a.a
                if p and is_int(x):
                    y, least = z, ival(x) + 1
                elif not p and is_int(z):
                    y, least = x, ival(z)
                else:
                    continue
            else:
                continue
            c, d = lin_parts(y)
            Kw = K if y.w == 64 else trunc(K, y.w)
            k = d.get(Kw, 0)
            if k >= 0 or any(mentions(b, K) for b in d if b is not Kw):
                continue
            s = -k
            if least < s:
                if not (least == 1 and c % s == 0 and all(v % s == 0 for v in d.values())):
                    continue
            y0 = subst(y, {K: const(0, 64)})
            if f0.toint(y0) is None:
                continue
            out.append((ult(y0 if y.w == 64 else zext(y0, 64), mulc(K, s)), False))
        return out

    def span_of(self, wa, ws, lo, facts):
        """(address, size) of everything a finished loop of a known number of rounds wrote through wa."""
        n = facts.norm(lo.K)
        if not is_int(n):
            b = facts.urange(n)
            if b[1] <= 4096 and facts.holds(eq(n, const(b[1], 64))) is True:
                n = const(b[1], 64)
        if not is_int(n) or not 0 < ival(n) <= 4096 or not isinstance(ws, int):
            return None
        c, d = lin_parts(facts.norm(wa))
        k = d.pop(lo.J, 0)
        k = k - (1 << 64) if k >> 63 else k
        if any(mentions(a, lo.J) or mentions(a, lo.K) for a in d):
            return None
        last = k * (ival(n) - 1)
        return mk_lin(c + min(0, last), d, 64), ws + abs(last)

    def jfacts(self, variant, K, J, h):
        """What holds for an earlier iteration j: j < K, and counters at j do not exceed it."""
        out = [(ult(J, K), True)]
        seen = set()
        for (a, sz) in variant:
            for x in atoms(a):
                if x.op == "m" and x.a[2] is K and x not in seen:
                    seen.add(x)
                    mj = subst(x, {K: J})
                    out.append((ult(J, mj), False))
                    out.append((ult(x, mj), False))  # counters only grow
        return out

    def loop_invariant(self, a, h, K):
        for x in atoms(a):
            if x is K or (x.op in ("phi", "m", "call", "ald", "unk", "lv", "new") and K in atoms(x)):
                return False
            if x.op == "undef":
                return False
        return True

    # ------------------------------------------------------------ blocks
    def branch(self, st, c):
        """[(truth, state)]"""
        h = st.facts.holds(c)
        if c.op == "undef":
            a, b = st.fork(), st
            return [(True, a), (False, b)]
        if h is not None:
            return [(h, st)]
        if c.op == "not":
            return [(not t, s) for t, s in self.branch(st, c.a[0])]
        if c.op in ("band", "bor"):
            res = []
            for t1, s1 in self.branch(st, c.a[0]):
                if t1 == (c.op == "bor"):
                    res.append((t1, s1))
                else:
                    res.extend(self.branch(s1, c.a[1]))
            return res
        if c.op == "bxor":
            res = []
            for t1, s1 in self.branch(st, c.a[0]):
                for t2, s2 in self.branch(s1, c.a[1]):
                    res.append((t1 != t2, s2))
            return res
        res = []
        a, b = st.fork(), st
        if a.assume(c, True):
            res.append((True, a))
        if b.assume(c, False):
            res.append((False, b))
        return res

    def block(self, bid, st0, K):
        """Run one block; yields Records or (successor, state)."""
        ins = self.blocks[bid]["is"]
        states = [st0]
        res = []
        for i in ins:
            op = i["op"]
            if op == "phi":
                continue
            nxt = []
            for st in states:
                if op == "br":
                    if "cond" not in i:
                        res.append((i["succ"][0], st))
                    else:
                        for t, s in self.branch(st, self.val(i["cond"], st)):
                            res.append((i["succ"][0 if t else 1], s))
                elif op == "switch":
                    v = self.val(i["cond"], st)
                    cur = st
                    for cv, to in i["cases"]:
                        if cur is None:
                            break
                        rest = None
                        for t, s in self.branch(cur, eq(v, const(int(cv), v.w))):
                            if t:
                                res.append((to, s))
                            else:
                                rest = s
                        cur = rest
                    if cur is not None:
                        res.append((i["default"], cur))
                elif op == "ret":
                    r = self.val(i["ops"][0], st) if i["ops"] else None
                    rec = Record("ret", st, st.facts.norm(r) if r is not None else None)
                    rec.loc = i["loc"]
                    res.append(rec)
                elif op == "unreachable":
                    res.append(Record("noreturn", st))
                elif op == "resume":
                    res.append(Record("unwind", st))
                elif op in ("call", "invoke"):
                    for s in self.call(i, st, K):
                        if isinstance(s, Record):
                            res.append(s)
                        elif isinstance(s, tuple):
                            res.append(s)
                        elif op == "invoke":
                            res.append((i["normal"], s))
                        else:
                            nxt.append(s)
                else:
                    nxt.extend(self.inst(i, st, K))
            states = nxt
            if not states:
                break
        return res

    def inst(self, i, st, K):
        op = i["op"]
        w = self.width(i["ty"])
        if op == "getelementptr":
            st.env[i["id"]] = self.gep(i["gep"], st)
            return [st]
        if op == "alloca":
            t = mk("alloca", (i["id"],), 64)
            st.env[i["id"]] = t
            self.ptrs.add(t)
            return [st]
        o = [self.val(x, st) for x in i.get("ops", ())]
        V = None
        if op == "load":
            addr = st.facts.norm(o[0])
            self.mark(addr)
            if i["vol"] or i["atomic"] not in ("", "not_atomic"):
                st.seq += 1
                r = self.load(st.mem, addr, i["sz"], st)
                V = mk("ald", (addr, i["id"], st.seq, K if K is not None else 0), w)
                st.emit(Ev("load", i["loc"], st.facts, addr=addr, size=i["sz"], val=V, plain=r, atomic=i["atomic"], vol=i["vol"]))
                # between two accesses of one thread with nothing in between the value is its own
                if not self.shared(addr) and r.w == w:
                    V = r
                    st.events = st.events[:-1] + (Ev("load", i["loc"], st.facts, addr=addr, size=i["sz"], val=V, plain=r, atomic=i["atomic"], vol=i["vol"]),)
            else:
                V = self.load(st.mem, addr, i["sz"], st)
                if self.traced(addr):
                    st.emit(Ev("load", i["loc"], st.facts, addr=addr, size=i["sz"], val=V, plain=V, atomic="", vol=False))
                if V.w != w:
                    V = mk("undef", (0,), w) if V.op == "undef" else (trunc(V, w) if V.w > w else zext(V, w))
            if i["ty"] == "p":
                self.ptrs.add(V)
        elif op == "store":
            addr = st.facts.norm(o[1])
            self.mark(addr)
            v = st.facts.norm(o[0])
            wv = self.width(i["vty"])
            if v.op == "undef" and v.w != wv:
                v = mk("undef", v.a, wv)
            self.store(st, addr, i["sz"], v, i, i["atomic"] if i["atomic"] != "not_atomic" else "", i["vol"])
            return [st]
        elif op == "atomicrmw":
            addr = st.facts.norm(o[0])
            st.seq += 1
            V = mk("ald", (addr, i["id"], st.seq, K if K is not None else 0), w) if self.shared(addr) else self.load(st.mem, addr, i["sz"], st)
            v = o[1]
            nv = {"add": add, "sub": sub, "xchg": lambda a, b: b, "or": bor, "and": band, "xor": bxor}.get(i["rmw"], lambda a, b: mk("rmw", (i["rmw"], a, b), w))(V, v)
            st.mem = Node(st.mem, "st", addr, i["sz"], nv)
            st.emit(Ev("rmw", i["loc"], st.facts, rop=i["rmw"], addr=addr, size=i["sz"], val=v, old=V, new=nv, atomic=i["atomic"]))
        elif op == "cmpxchg":
            addr = st.facts.norm(o[0])
            st.seq += 1
            old = mk("ald", (addr, i["id"], st.seq, K if K is not None else 0), o[1].w)
            a, b = st.fork(), st
            out = []
            for s, ok in ((a, True), (b, False)):
                if ok:
                    if not s.assume(eq(old, o[1]), True):
                        continue
                    s.mem = Node(s.mem, "st", addr, i["sz"], o[2])
                s.emit(Ev("cmpxchg", i["loc"], s.facts, addr=addr, size=i["sz"], exp=o[1], new=o[2], ok=ok, old=old, atomic=i["atomic"]))
                s.env[i["id"]] = mk("agg", (old, TRUE if ok else FALSE), 64)
                out.append(s)
            return out
        elif op == "icmp":
            V = cmp(i["pred"], st.facts.norm(o[0]), st.facts.norm(o[1])) if o[0].op != "undef" and o[1].op != "undef" and o[0].w == o[1].w else mk("undef", (i["id"],), 1)
        elif op == "select":
            out = []
            for t, s in self.branch(st, o[0]):
                v = self.val(i["ops"][1 if t else 2], s)
                if v.op == "undef" and v.w != w:
                    v = mk("undef", v.a, w)
                s.env[i["id"]] = v
                if i["ty"] == "p":
                    self.ptrs.add(v)
                out.append(s)
            return out
        elif op == "freeze":
            V = o[0]
        elif op in ("ptrtoint", "inttoptr", "bitcast"):
            V = o[0]
            if op == "inttoptr":
                self.ptrs.add(V)
            if V.w != w:
                V = trunc(V, w) if V.w > w else zext(V, w)
        elif op in ("zext", "sext") and o[0].w == 1 and o[0].op != "undef" and not is_int(o[0]):
            out = []
            for t, s in self.branch(st, o[0]):
                s.env[i["id"]] = const((1 if op == "zext" else -1) if t else 0, w)
                out.append(s)
            return out
        elif op in ("zext", "sext") and o[0].op == "trunc" and o[0].a[0].w == w and self.fits(st, o[0].a[0], o[0].w - (op == "sext")):
            V = o[0].a[0]
        elif op in ("zext", "sext", "trunc"):
            V = {"zext": zext, "sext": sext, "trunc": trunc}[op](o[0] if o[0].op != "undef" else mk("undef", o[0].a, w), w)
        elif op in ("or", "and", "xor") and w == 1 and K is not None and any(x.op == "phi" for x in o) and sum(x.op not in ("phi", "int", "undef") for x in o) == 1:
            # a flag accumulated over a loop: partition by the new condition
            n = 0 if o[0].op != "phi" else 1
            out = []
            for t, s in self.branch(st, o[n]):
                q = TRUE if t else FALSE
                s.env[i["id"]] = {"or": bor, "and": band, "xor": bxor}[op](q, o[1 - n])
                out.append(s)
            return out
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            f = {"add": add, "sub": sub, "mul": mul, "and": band, "or": bor, "xor": bxor, "shl": shl, "lshr": lshr,
                 "ashr": ashr, "udiv": udiv, "sdiv": sdiv, "urem": urem, "srem": srem}[op]
            a, b = st.facts.norm(o[0]), st.facts.norm(o[1])
            if a.op == "undef" or b.op == "undef":
                V = mk("undef", (i["id"],), w)
            else:
                if w == 1 and op in ("add", "sub"):
                    f = bxor
                elif w == 1 and op == "mul":
                    f = band
                V = f(a, b)
                if op == "and" and is_int(b) and ival(b) and not is_int(a):
                    n = ival(b)
                    if self.fits(st, a, (n & -n).bit_length() - 1):
                        V = const(0, w)
                    elif is_pow2(n + 1) and self.fits(st, a, n.bit_length()):
                        V = a
                if op in ("udiv", "sdiv", "lshr", "ashr") and is_int(b) and not is_int(a) and V.op == op or V.op == "lshr" and op == "udiv":
                    k = (1 << ival(b) if ival(b) < w else 0) if op in ("lshr", "ashr") else sval(b)
                    if k > 0:
                        q = divexact(a, k)
                        if q is not None:
                            i2 = st.facts.toint(a)
                            if op in ("ashr", "lshr") and ival(b) >= 16 and i2 is None:
                                # a shift up and down: a sign or zero extension of the low bits
                                V = (sext if op == "ashr" else zext)(trunc(q, w - ival(b)), w)
                            elif i.get("exact") or (i2 is not None and (op in ("udiv", "lshr") or st.facts.nonneg((1 << (w - 1)) - 1 - i2[0], {x: -v for x, v in i2[1].items()}))):
                                V = q
        elif op == "extractvalue":
            a = o[0]
            V = a
            for ix in i["idx"]:
                V = V.a[ix] if V.op == "agg" and ix < len(V.a) else mk("ev", (V, ix), w)
        elif op == "insertvalue":
            a = o[0]
            ix = i["idx"][0]
            els = list(a.a) if a.op == "agg" else []
            while len(els) <= ix:
                els.append(mk("undef", (0,), 64))
            els[ix] = o[1]
            V = mk("agg", tuple(els), 64)
        elif op == "landingpad":
            st.seq += 1
            V = mk("lp", (i["id"], st.seq, K if K is not None else 0), 64)
        elif op == "fence":
            st.emit(Ev("fence", i["loc"], st.facts))
            return [st]
        else:
            V = mk("op_" + op, tuple(o) + (i.get("pred", ""),), w)
        st.env[i["id"]] = V
        return [st]

    def fits(self, st, t, w):
        """The value of t is below 2^w."""
        i = st.facts.toint(t)
        return i is not None and st.facts.nonneg((1 << w) - 1 - i[0], {a: -v for a, v in i[1].items()})

    def mark(self, addr):
        c, d = lin_parts(addr)
        if len(d) == 1:
            (a, k), = d.items()
            if k == 1:
                self.ptrs.add(a)

    def shared(self, addr):
        """Is memory at addr written by another thread?  Overridden per check."""
        return False

    def traced(self, addr):
        """Is a plain load at addr recorded as an event?  Overridden per check."""
        return False

    # ------------------------------------------------------------ calls
    def call(self, i, st, K):
        """Yields states (normal return), Records, or (block, state) for unwinding."""
        c = i["callee"]
        ops = [self.val(x, st) if x["k"] != "md" else const(0, 1) for x in i["ops"]]
        ops = [st.facts.norm(x) for x in ops]
        w = self.width(i["ty"]) if i["ty"] != "void" else 1
        intr = i.get("intr")
        if intr:
            return self.intrinsic(intr, i, ops, st, w, K)
        name = dem = None
        target = None
        if c["k"] == "fn":
            name, dem = c["n"], c["d"]
        else:
            target = st.facts.norm(self.val(c, st))
            if target.op == "fn":
                name = target.a[0]
                dem = name
        st.seq += 1
        kk = K if K is not None else 0
        R = mk("call", (i["id"], st.seq, kk), w)
        if i["ty"] == "p":
            self.ptrs.add(R)
        if name in TERMINATE:
            r = Record("terminate", st)
            return [r]
        if name == "__cxa_allocate_exception":
            st.env[i["id"]] = mk("exc", (i["id"], st.seq), 64)
            return [st]
        if name in ("_Znwm", "_ZnwmSt11align_val_t", "_Znam", "malloc"):
            R = mk("new", (i["id"], st.seq, kk), 64)
            st.env[i["id"]] = R
            st.emit(Ev("new", i["loc"], st.facts, n=ops[0], val=R))
            return [st]
        if name in ("memcpy", "memmove", "memset"):
            return self.intrinsic("llvm." + name, i, ops, st, w, K)
        kind = "call"
        d = dict(name=name, dem=dem, args=ops, ret=R, id=i["id"], nounwind=i.get("nounwind", False), noret=i.get("noret", False))
        if name is None:
            v = self.vcall(target)
            if v is not None:
                kind = "vcall"
                d["obj"], d["slot"] = v
            else:
                kind = "icall"
            d["target"] = target
        e = Ev(kind, i["loc"], st.facts, **d)
        st.emit(e)
        thrown = name in ("__cxa_throw", "__cxa_rethrow") or (dem or "").startswith("std::__throw_") or i.get("noret")
        out = []
        if name == "__cxa_throw" or name == "__cxa_rethrow":
            st.events = st.events[:-1]
            st.emit(Ev("throw", i["loc"], st.facts, type=self.tname(ops[1]) if name == "__cxa_throw" else "rethrow", obj=ops[0] if ops else None))
        if i["op"] == "invoke":
            may = not i.get("nounwind")
            if thrown:
                return [(i["unwind"], st)]
            if may and self.unwind:
                s2 = st.fork()
                s2.emit(Ev("unwound", i["loc"], s2.facts, call=e))
                self.call_effects(e, s2, i, K)
                out.append((i["unwind"], s2))
        elif thrown:
            r = Record("throw", st, info=st.events[-1])
            r.loc = i["loc"]
            return [r]
        elif self.unwind == "all" and not i.get("nounwind"):
            # no cleanup here: the exception leaves the function
            s2 = st.fork()
            s2.emit(Ev("unwound", i["loc"], s2.facts, call=e))
            r = Record("unwind", s2, info=e)
            r.loc = i["loc"]
            out.append(r)
        self.call_effects(e, st, i, K)
        if i["ty"] != "void":
            st.env[i["id"]] = e.get("ret")
        out.append(st)
        return out

    def tname(self, t):
        return t.a[0] if t.op in ("glob", "fn") else str(t)

    def vcall(self, t):
        """(object, slot) of a virtual call target."""
        if t is None or t.op != "ld":
            return None
        c, d = lin_parts(t.a[0])
        if len(d) != 1 or list(d.values()) != [1]:
            return None
        vt = next(iter(d))
        if vt.op != "ld" or c % 8:
            return None
        return vt.a[0], c // 8

    def havoc(self, st, addr, size, ver):
        st.mem = Node(st.mem, "hav", addr, size, ver)

    def call_effects(self, e, st, i, K):
        kk = K if K is not None else 0
        ver = mk("hv", (i["id"], st.seq, kk), 64)
        eff = None
        if self.effects is not None:
            eff = self.effects(self, e, st)
        if eff is None:
            eff = default_effects(self, e, st)
        for a, size in eff:
            self.havoc(st, a, size, ver)

    def intrinsic(self, n, i, o, st, w, K):
        if n in ("llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.prefetch"):
            return [st]
        if n == "llvm.assume":
            if o[0].w == 1 and o[0].op != "undef":
                if not st.assume(o[0], True):
                    return []
            return [st]
        if n in ("llvm.memcpy", "llvm.memmove"):
            dst, src, ln = o[0], o[1], o[2]
            self.mark(dst)
            self.mark(src)
            r, _ = self.root(dst)
            size = ival(ln) if is_int(ln) else ln
            if r is None or r.op != "alloca":
                st.emit(Ev("copy", i["loc"], st.facts, dst=dst, src=src, n=ln, move=n.endswith("move")))
            st.mem = Node(st.mem, "cpy", dst, size, src)
            if i["ty"] != "void":
                st.env[i["id"]] = dst
            return [st]
        if n == "llvm.memset":
            dst, v, ln = o[0], o[1], o[2]
            self.mark(dst)
            r, _ = self.root(dst)
            if r is None or r.op != "alloca":
                st.emit(Ev("set", i["loc"], st.facts, dst=dst, val=v, n=ln))
            st.mem = Node(st.mem, "set", dst, ival(ln) if is_int(ln) else ln, trunc(v, 8) if v.w > 8 else v)
            if i["ty"] != "void":
                st.env[i["id"]] = dst
            return [st]
        if n in ("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax"):
            c = (ult if n[5] == "u" else slt)(o[0], o[1])
            out = []
            for t, s in self.branch(st, c):
                lo, hi = (o[0], o[1]) if t else (o[1], o[0])
                s.env[i["id"]] = s.facts.norm(lo if n.endswith("min") else hi)
                out.append(s)
            return out
        if n == "llvm.usub.sat":
            out = []
            for t, s in self.branch(st, ult(o[0], o[1])):
                s.env[i["id"]] = const(0, w) if t else sub(o[0], o[1])
                out.append(s)
            return out
        if n in ("llvm.uadd.with.overflow", "llvm.umul.with.overflow", "llvm.usub.with.overflow"):
            if n[6:9] == "add":
                r, ov = add(o[0], o[1]), ult(sub(const(-1, o[0].w), o[1]), o[0])
            elif n[6:9] == "sub":
                r, ov = sub(o[0], o[1]), ult(o[0], o[1])
            else:
                r = mul(o[0], o[1])
                ov = mk("umulo", tuple(sorted((o[0], o[1]), key=lambda t: t.id)), 1)
            st.env[i["id"]] = mk("agg", (r, ov), 64)
            return [st]
        if n == "llvm.bswap":
            st.env[i["id"]] = bswap(o[0])
            return [st]
        if n in ("llvm.fshl", "llvm.fshr"):
            st.env[i["id"]] = mk(n, tuple(o), w)
            return [st]
        if n == "llvm.trap":
            return [Record("terminate", st)]
        if n == "llvm.ubsantrap":
            rec = Record("noreturn", st)
            rec.falls, rec.loc = True, i["loc"]
            return [rec]
        if n in ("llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.expect", "llvm.ssa.copy"):
            st.env[i["id"]] = o[0]
            return [st]
        if n == "llvm.eh.typeid.for":
            st.env[i["id"]] = mk("typeid", (o[0],), w)
            return [st]
        if n in ("llvm.is.constant",):
            st.env[i["id"]] = FALSE
            return [st]
        if n == "llvm.objectsize":
            st.env[i["id"]] = const(-1, w)
            return [st]
        if n.startswith("llvm.threadlocal"):
            st.env[i["id"]] = o[0]
            return [st]
        st.env[i["id"]] = mk(n, tuple(o), w)
        return [st]


def byte_of(b):
    """(value, index) when b is byte index of value."""
    if b.w != 8:
        return None
    if b.op == "trunc":
        x = b.a[0]
        if x.op == "lshr" and is_int(x.a[1]) and ival(x.a[1]) % 8 == 0:
            return x.a[0], ival(x.a[1]) // 8
        return x, 0
    if b.op == "lshr":
        return None
    return b, 0


def bswap(t):
    if is_int(t):
        return const(int.from_bytes(ival(t).to_bytes(t.w // 8, "little"), "big"), t.w)
    if t.op == "bswap":
        return t.a[0]
    return mk("bswap", (t,), t.w)


def default_effects(an, e, st):
    """Memory an opaque call may change: objects of the caller whose address it is given."""
    out = []
    dem = e.get("dem") or ""
    const_method = dem.endswith(" const") or " const::" in dem
    for n, a in enumerate(e.args):
        if a.w != 64 or is_int(a):
            continue
        r, off = an.root(a)
        if r is None:
            continue
        if r.op == "alloca":
            if n == 0 and const_method:
                continue
            out.append((r, None))
    for r in st.escaped:
        out.append((r, None))
    return out
