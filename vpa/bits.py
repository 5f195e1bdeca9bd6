"""Where every bit comes from: abstract interpretation of fixed-size byte shuffling code.

A value is a tuple of bits, least significant first.  A bit is 0, 1, or a name: ('in', object, byte, bit) a bit of the
memory an entry was handed, ('arg', n, bit), ('call', n, bit) a bit of what the n-th opaque call returned, ('u', n)
unknown.  Pointers are an object and a constant offset.  Control decided by constants (the counted loops of fixed-size
copies) is followed; every other condition forks the path and is recorded.  Nothing is solved: a question either folds,
is answered by the oracle a rule supplies, or forks."""
import itertools
import re

LIM_PATHS = 400
LIM_STEPS = 60000


class TooBig(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.obj, self.off) == (o.obj, o.off)

    def __hash__(self):
        return hash((self.obj, self.off))


def const(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def cval(b):
    """The constant a bit vector stands for, or None."""
    if not isinstance(b, tuple):
        return None
    n = 0
    for i, x in enumerate(b):
        if x == 1:
            n |= 1 << i
        elif x != 0:
            return None
    return n


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) else n


class State:
    __slots__ = ("mem", "regs", "lits", "events", "bi", "prev", "memo", "falls")

    def __init__(self):
        self.mem, self.regs, self.lits, self.events, self.memo = {}, {}, [], [], {}

    def fork(self):
        s = State()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.regs, s.lits, s.events, s.memo = dict(self.regs), list(self.lits), list(self.events), dict(self.memo)
        return s


class Ev:
    """kind: store / load (an object the entry was handed, offset, length), copy, call (name, args, reads), other."""
    __slots__ = ("kind", "obj", "off", "n", "name", "args", "data", "loc", "ret", "dem")

    def __init__(self, kind, loc, obj=None, off=None, n=None, name=None, args=None, data=None, ret=None):
        self.kind, self.loc, self.obj, self.off, self.n = kind, loc, obj, off, n
        self.name, self.args, self.data, self.ret = name, args, data, ret

    def __repr__(self):
        return f"{self.kind} {self.obj if self.obj is not None else self.name} {self.off if self.off is not None else self.args} {self.n or ''}"


class Rec:
    def __init__(self, kind, ret, st, loc):
        self.kind, self.ret, self.st, self.loc = kind, ret, st, loc
        self.events, self.lits = st.events, st.lits


class Interp:
    """fn: the exported function; big: the target's byte order; oracle(state, pred, a, b) answers comparisons the constants
    do not: True, False, None (fork); reads: {call name: [(pointer argument, length argument)]} ranges an opaque call reads."""

    def __init__(self, fn, big=False, oracle=None, reads=None):
        self.fn, self.big, self.oracle, self.reads = fn, big, oracle, reads or {}
        self.blocks = {b["id"]: b["is"] for b in fn["blocks"]}
        self.entry = fn["blocks"][0]["id"]
        self.nu = itertools.count()
        self.recs, self.steps, self.forks = [], 0, 0
        self.argw = {}

    # ---- values
    def unk(self, w=8):
        return tuple(("u", next(self.nu)) for _ in range(w))

    def width(self, ty):
        if ty == "p":
            return 64
        m = re.match(r"^i(\d+)$", ty)
        if m:
            return int(m.group(1))
        return {"f32": 32, "f64": 64}.get(ty)

    def val(self, st, v, ty=None):
        k = v["k"]
        if k == "int":
            return const(int(v["v"]) & ((1 << v["w"]) - 1), v["w"])
        if k == "v":
            return st.regs[v["id"]]
        if k == "arg":
            a = self.fn["args"][v["n"]]
            if a["ty"] == "p":
                return Ptr(("arg", v["n"]), 0)
            w = self.width(a["ty"])
            if w is None:
                return ("agg?",)
            return tuple(("arg", v["n"], i) for i in range(w))
        if k == "gep":
            return self.gep(st, v)
        if k in ("glob", "fn"):
            return Ptr((k, v["n"]), 0)
        if k == "undef":
            return None
        if k == "agg":
            return [self.val(st, o) for o in v["ops"]]
        if k == "zero":
            w = self.width(v["ty"])
            return const(0, w) if w else None
        if k == "fp":
            return ("fp", v["v"])
        return None

    def bits(self, v, w):
        """A bit vector of the width, unknown where the value is none."""
        if isinstance(v, tuple) and len(v) == w and (not v or v[0] in (0, 1) or isinstance(v[0], tuple)):
            return v
        if isinstance(v, Ptr):
            return tuple(("ptr", v.obj, v.off, i) for i in range(w))
        if v is None:
            return tuple(("undef",) for _ in range(w))
        return self.unk(w)

    def unptr(self, b):
        """A pointer if the 64 bits are those of one, else the bits."""
        if isinstance(b, tuple) and len(b) == 64 and isinstance(b[0], tuple) and b[0][0] == "ptr":
            o, f = b[0][1], b[0][2]
            if all(x == ("ptr", o, f, i) for i, x in enumerate(b)):
                return Ptr(o, f)
        return b

    def gep(self, st, g):
        b = self.val(st, g["base"])
        b = self.unptr(b)
        off = g["off"]
        for v, sc in g["vars"]:
            c = self.val(st, v)
            n = cval(c)
            if n is None:
                return Ptr(("wild", next(self.nu)), 0)
            off += signed(n, len(c)) * sc
        if isinstance(b, Ptr):
            return Ptr(b.obj, b.off + off)
        n = cval(b)
        if n is not None:
            return Ptr(("abs",), n + off)
        return Ptr(("wild", next(self.nu)), 0)

    # ---- memory: obj -> {byte offset: 8 bits}
    def byte(self, st, obj, i):
        m = st.mem.get(obj)
        if m is not None and i in m:
            return m[i]
        if m is not None and "bad" in m:
            return self.unk()
        if obj[0] == "alloca":
            return (("undef",),) * 8
        if obj[0] in ("arg", "glob", "pt"):
            return tuple(("in", obj, i, j) for j in range(8))
        return self.unk()

    def load(self, st, p, n):
        if not isinstance(p, Ptr):
            return [self.unk() for _ in range(n)]
        return [self.byte(st, p.obj, p.off + i) for i in range(n)]

    def store(self, st, p, bs):
        if not isinstance(p, Ptr) or p.obj[0] == "wild":
            # anything may have changed
            for o in list(st.mem):
                st.mem[o] = {"bad": True}
            st.mem.setdefault(("wildwrite",), {})
            return
        m = st.mem.setdefault(p.obj, {})
        for i, b in enumerate(bs):
            m[p.off + i] = b

    def join(self, bs):
        """Bytes in memory order to a bit vector."""
        out = []
        for b in (reversed(bs) if self.big else bs):
            out += b
        return tuple(out)

    def split(self, v):
        n = (len(v) + 7) // 8
        v = v + (0,) * (n * 8 - len(v))
        bs = [v[8 * i:8 * i + 8] for i in range(n)]
        return list(reversed(bs)) if self.big else bs

    # ---- running
    def run(self):
        st = State()
        work = [(st, self.entry, None, 0)]
        while work:
            st, bi, prev, at = work.pop()
            while True:
                nxt = self.block(st, bi, prev, at, work)
                at = 0
                if nxt is None:
                    break
                prev, bi = bi, nxt
        return self.recs

    def end(self, kind, ret, st, loc):
        self.recs.append(Rec(kind, ret, st, loc))
        if kind == "unreachable" and getattr(st, "falls", None):
            self.recs[-1].falls, self.recs[-1].loc = True, st.falls
        if len(self.recs) > LIM_PATHS:
            raise TooBig("paths")

    def fork(self, st, bi, prev, at, work):
        self.forks += 1
        if self.forks > 4 * LIM_PATHS:
            raise TooBig("forks")
        s = st.fork()
        work.append((s, bi, prev, at))
        return s

    def truth(self, st, c, bi, prev, at, work):
        """The value of one condition bit; the other outcome is queued at the instruction that asked."""
        if c in (0, 1):
            return bool(c)
        neg = False
        while isinstance(c, tuple) and c[0] == "not":
            c, neg = c[1], not neg
        if c in st.memo:
            return st.memo[c] != neg
        if isinstance(c, tuple) and c[0] == "cmp" and self.oracle:
            r = self.oracle(st, c[1], c[2], c[3])
            if r is not None:
                if isinstance(r, list):      # several feasible outcomes, each with what it adds
                    for val, upd in r[1:]:
                        s = self.fork(st, bi, prev, at, work)
                        upd(s)
                        s.memo[c] = val
                    r[0][1](st)
                    st.memo[c] = r[0][0]
                    return r[0][0] != neg
                return r != neg
        s = self.fork(st, bi, prev, at, work)
        s.memo[c] = False
        s.lits.append((c, False))
        st.memo[c] = True
        st.lits.append((c, True))
        return not neg

    def block(self, st, bi, prev, at, work):
        ins = self.blocks[bi]
        if at == 0:
            vals = []
            for i in ins:
                if i["op"] != "phi":
                    break
                v = next((x for b, x in i["in"] if b == prev), None)
                vals.append((i["id"], self.val(st, v)))
            for k, v in vals:
                st.regs[k] = v
        for n in range(at, len(ins)):
            i = ins[n]
            if i["op"] == "phi":
                continue
            self.steps += 1
            if self.steps > LIM_STEPS:
                raise TooBig("steps")
            op = i["op"]
            if op == "br":
                if len(i["succ"]) == 1:
                    return i["succ"][0]
                c = self.val(st, i["cond"])
                c = c[0] if isinstance(c, tuple) and len(c) == 1 else ("u", next(self.nu))
                return i["succ"][0] if self.truth(st, c, bi, prev, n, work) else i["succ"][1]
            if op == "switch":
                c = self.val(st, i["cond"])
                k = cval(c)
                if k is None:
                    # one comparison after another
                    for v, b in i["cases"]:
                        w = len(c) if isinstance(c, tuple) else 32
                        q = self.cmp("eq", self.bits(c, w), const(int(v) & ((1 << w) - 1), w))
                        if self.truth(st, q, bi, prev, n, work):
                            return b
                    return i["default"]
                for v, b in i["cases"]:
                    if int(v) & ((1 << len(c)) - 1) == k:
                        return b
                return i["default"]
            if op == "ret":
                self.end("ret", self.val(st, i["ops"][0]) if i["ops"] else None, st, i["loc"])
                return None
            if op == "unreachable":
                self.end("unreachable", None, st, i["loc"])
                return None
            if op == "resume":
                self.end("unwind", None, st, i["loc"])
                return None
            if op in ("call", "invoke"):
                r = self.call(st, i, (bi, prev, n, work))
                if r == "noret":
                    if op == "invoke":
                        return i["unwind"]
                    self.end("noret", None, st, i["loc"])
                    return None
                if op == "invoke":
                    if r != "intr" and not i.get("nounwind"):
                        s = self.fork(st, i["unwind"], bi, 0, work)
                        s.lits.append((("throws", len(st.events)), True))
                    return i["normal"]
                if r == "calls" and not i.get("nounwind"):
                    # an exception leaves the function here
                    s = st.fork()
                    s.lits.append((("throws", len(st.events)), True))
                    self.end("unwind", None, s, i["loc"])
                continue
            if op == "select":
                c, a, b = (self.val(st, o) for o in i["ops"])
                c = c[0] if isinstance(c, tuple) and len(c) == 1 else ("u", next(self.nu))
                w = self.width(i["ty"])
                if w == 1 and isinstance(a, tuple) and isinstance(b, tuple) and c not in (0, 1) and (cval(a), cval(b)) == (0, 1):
                    st.regs[i["id"]] = (neg(c),)
                elif w == 1 and c not in (0, 1) and (cval(a), cval(b)) == (1, 0):
                    st.regs[i["id"]] = (c,)
                elif a == b:
                    st.regs[i["id"]] = a
                else:
                    st.regs[i["id"]] = a if self.truth(st, c, bi, prev, n, work) else b
                continue
            if op == "icmp" and self.oracle:
                # decided at once, so that the result can be used as a number
                q = self.compute(st, i)
                st.regs[i["id"]] = (int(self.truth(st, q[0], bi, prev, n, work)),) if q[0] not in (0, 1) and self.oracle(st.fork(), *cmp_parts(q[0])) is not None else q
                continue
            st.regs[i["id"]] = self.compute(st, i)
        return None

    def compute(self, st, i):
        op, ty = i["op"], i["ty"]
        w = self.width(ty)
        ops = i.get("ops", [])
        if op == "alloca":
            o = ("alloca", i["id"])
            st.mem.pop(o, None)
            return Ptr(o, 0)
        if op == "getelementptr":
            return self.gep(st, i["gep"])
        if op == "load":
            p = self.unptr(self.val(st, ops[0]))
            bs = self.load(st, p, i["sz"])
            if isinstance(p, Ptr) and p.obj[0] != "alloca":
                st.events.append(Ev("load", i["loc"], p.obj, p.off, i["sz"]))
            elif not isinstance(p, Ptr):
                st.events.append(Ev("load", i["loc"], ("wild",), 0, i["sz"]))
            if w is None:
                return None if not ty.startswith("{") and not ty.startswith("[") else ("memagg", tuple(bs))
            v = self.join(bs)[:w]
            if ty == "p":
                q = self.unptr(v)
                if isinstance(q, Ptr):
                    return q
                if all(isinstance(x, tuple) and x[0] == "in" for x in v):
                    return Ptr(("pt",) + v[0][1:3], 0)
                return self.unptr(v) if cval(v) is not None else Ptr(("wild", next(self.nu)), 0)
            return v
        if op == "store":
            v, p = self.val(st, ops[0]), self.unptr(self.val(st, ops[1]))
            vw = self.width(i["vty"]) or 8 * i["sz"]
            bs = self.split(self.bits(v, vw))
            if isinstance(v, tuple) and v and v[0] == "memagg":
                bs = list(v[1])
            self.store(st, p, bs)
            if not isinstance(p, Ptr):
                st.events.append(Ev("store", i["loc"], ("wild",), 0, i["sz"]))
            elif p.obj[0] != "alloca":
                st.events.append(Ev("store", i["loc"], p.obj, p.off, i["sz"]))
            return None
        if op == "ptrtoint":
            return self.bits(self.val(st, ops[0]), w)
        if op in ("inttoptr", "bitcast"):
            v = self.val(st, ops[0])
            return self.unptr(v) if op == "inttoptr" else v
        if op == "freeze":
            return self.val(st, ops[0])
        if op in ("zext", "sext", "trunc"):
            v = self.val(st, ops[0])
            if not isinstance(v, tuple):
                return self.unk(w)
            if op == "trunc":
                return v[:w]
            return v + ((v[-1] if op == "sext" else 0),) * (w - len(v))
        if op == "extractvalue":
            v = self.val(st, ops[0])
            for k in i["idx"]:
                v = v[k] if isinstance(v, list) and k < len(v) else self.unk(w or 8)
            return v
        if op == "insertvalue":
            a, v = self.val(st, ops[0]), self.val(st, ops[1])
            a = list(a) if isinstance(a, list) else [None] * 8
            if len(i["idx"]) == 1:
                while len(a) <= i["idx"][0]:
                    a.append(None)
                a[i["idx"][0]] = v
            else:
                k = i["idx"][0]
                sub = list(a[k]) if isinstance(a[k], list) else [None] * 16
                sub[i["idx"][1]] = v
                a[k] = sub
            return a
        if op == "landingpad":
            return [Ptr(("exc",), 0), self.unk(32)]
        if op == "icmp":
            a, b = self.val(st, ops[0]), self.val(st, ops[1])
            return (self.icmp(i["pred"], a, b),)
        if w is None:
            return None
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = self.val(st, ops[0]), self.val(st, ops[1])
            return self.arith(op, a, b, w)
        return self.unk(w)

    def arith(self, op, a, b, w):
        if op in ("sub",):
            pa, pb = self.unptr(a), self.unptr(b)
            if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.obj == pb.obj:
                return const((pa.off - pb.off) & ((1 << w) - 1), w)
        if op in ("add", "sub"):
            pa, nb = self.unptr(a), cval(b)
            if isinstance(pa, Ptr) and nb is not None:
                return self.bits(Ptr(pa.obj, pa.off + (signed(nb, w) if op == "add" else -signed(nb, w))), w)
        a, b = self.bits(a, w), self.bits(b, w)
        ca, cb = cval(a), cval(b)
        M = (1 << w) - 1
        if ca is not None and cb is not None:
            if op in ("udiv", "urem", "sdiv", "srem") and cb == 0:
                return self.unk(w)
            sa, sb = signed(ca, w), signed(cb, w)
            f = {"and": lambda: ca & cb, "or": lambda: ca | cb, "xor": lambda: ca ^ cb, "add": lambda: ca + cb, "sub": lambda: ca - cb,
                 "mul": lambda: ca * cb, "shl": lambda: ca << cb if cb < w else 0, "lshr": lambda: ca >> cb if cb < w else 0,
                 "ashr": lambda: sa >> min(cb, w - 1), "udiv": lambda: ca // cb, "urem": lambda: ca % cb,
                 "sdiv": lambda: abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1),
                 "srem": lambda: (abs(sa) % abs(sb)) * (-1 if sa < 0 else 1)}[op]
            return const(f() & M, w)
        if op in ("and", "or", "xor"):
            return tuple(self.bit(op, x, y) for x, y in zip(a, b))
        if op in ("shl", "lshr", "ashr"):
            if cb is None or cb >= w:
                return self.unk(w)
            if op == "shl":
                return (0,) * cb + a[:w - cb]
            return a[cb:] + ((0 if op == "lshr" else a[-1]),) * cb
        if op == "mul" and cb is not None and cb and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            return (0,) * k + a[:w - k]
        if op == "udiv" and cb is not None and cb and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            return a[k:] + (0,) * k
        if op == "urem" and cb is not None and cb and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            return a[:k] + (0,) * (w - k)
        if op == "add" and all(x == 0 or y == 0 for x, y in zip(a, b)):
            return tuple(y if x == 0 else x for x, y in zip(a, b))
        if op == "sub" and cb == 0:
            return a
        if op == "sub" and w > 1:
            return self.unk(w - 1) + (("cmp", "subneg", a, b),)
        return self.unk(w)

    def bit(self, op, x, y):
        if op == "and":
            if x == 0 or y == 0:
                return 0
            return y if x == 1 else x if y == 1 or x == y else ("u", next(self.nu))
        if op == "or":
            if x == 1 or y == 1:
                return 1
            return y if x == 0 else x if y == 0 or x == y else ("u", next(self.nu))
        if x in (0, 1):
            x, y = y, x
        if y == 0:
            return x
        if y == 1:
            return x ^ 1 if x in (0, 1) else neg(x)
        if x == y:
            return 0
        return ("xor",) + tuple(sorted((x, y), key=repr))

    def icmp(self, pred, a, b):
        pa, pb = self.unptr(a), self.unptr(b)
        if isinstance(pa, Ptr) or isinstance(pb, Ptr):
            if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.obj == pb.obj and pa.obj[0] != "wild":
                x, y = pa.off, pb.off
                return int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                            "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred])
            for p, q in ((pa, pb), (pb, pa)):
                if isinstance(p, Ptr) and cval(q) == 0 and p.obj[0] in ("alloca", "arg", "glob") and pred in ("eq", "ne"):
                    return int(pred == "ne")
            return ("cmp", pred, self.bits(a, 64), self.bits(b, 64))
        if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
            return ("u", next(self.nu))
        return self.cmp(pred, a, b)

    def cmp(self, pred, a, b):
        w = len(a)
        x, y = cval(a), cval(b)
        if a == b and not any(isinstance(t, tuple) and t[0] in ("undef",) for t in a):
            return int(pred in ("eq", "ule", "uge", "sle", "sge"))
        if x is not None and y is not None:
            sx, sy = signed(x, w), signed(y, w)
            return int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                        "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}[pred])
        if pred in ("slt", "sge") and y == 0 or pred in ("sgt", "sle") and y == (1 << w) - 1:
            return a[-1] if pred in ("slt", "sle") else neg(a[-1])
        if pred in ("eq", "ne") and any(p in (0, 1) and q in (0, 1) and p != q for p, q in zip(a, b)):
            return int(pred == "ne")
        if w == 1:
            c, k = (a[0], y) if y is not None else (b[0], x)
            if k is not None and pred in ("eq", "ne"):
                return c if (k == 1) == (pred == "eq") else neg(c)
        z = set(zip(a[:0], b[:0]))
        # bits equal on both sides do not matter for equality
        if pred in ("eq", "ne"):
            prs = sorted({tuple(sorted((p, q), key=repr)) for p, q in zip(a, b) if p != q}, key=repr)
            if len(prs) == 1 and prs[0][0] in (0, 1):
                c = prs[0][1]
                return c if (prs[0][0] == 1) == (pred == "eq") else neg(c)
            c = ("cmp", "eq", tuple(p for p, q in prs), tuple(q for p, q in prs)) if not self.oracle else ("cmp", "eq", a, b)
            return c if pred == "eq" else neg(c)
        return ("cmp", pred, a, b)

    def call(self, st, i, at):
        intr = i.get("intr")
        ops = i["ops"]
        loc = i["loc"]
        w = self.width(i["ty"]) if i["ty"] != "void" else None
        name = i["callee"].get("n") or "?"
        if intr:
            base = intr.replace("llvm.", "")
            if base == "ubsantrap":
                st.falls = loc
                return "intr"
            A = [self.val(st, o) for o in ops]
            if base in ("memcpy", "memmove", "memcpy.inline"):
                n = cval(A[2])
                return self.copy(st, A[0], A[1], n, loc)
            if base == "memset":
                n = cval(A[2])
                p = self.unptr(A[0])
                if n is None or not isinstance(p, Ptr):
                    self.store(st, None, [])
                    st.events.append(Ev("store", loc, p.obj if isinstance(p, Ptr) else ("wild",), None, None))
                    return "intr"
                self.store(st, p, [self.bits(A[1], 8)] * n)
                if p.obj[0] != "alloca":
                    st.events.append(Ev("store", loc, p.obj, p.off, n))
                return "intr"
            if base == "bswap":
                v = self.bits(A[0], w)
                st.regs[i["id"]] = tuple(b for k in range(w // 8 - 1, -1, -1) for b in v[8 * k:8 * k + 8])
            elif base == "bitreverse":
                st.regs[i["id"]] = tuple(reversed(self.bits(A[0], w)))
            elif base in ("fshl", "fshr"):
                n = cval(A[2])
                if n is None:
                    st.regs[i["id"]] = self.unk(w)
                else:
                    x = self.bits(A[1], w) + self.bits(A[0], w)
                    n %= w
                    st.regs[i["id"]] = x[w - n:2 * w - n] if base == "fshl" else x[n:n + w]
            elif base in ("expect",):
                st.regs[i["id"]] = A[0]
            elif w is not None:
                st.regs[i["id"]] = self.unk(w)
            elif i["ty"] != "void":
                st.regs[i["id"]] = None
            return "intr"
        A = [self.unptr(self.val(st, o)) for o in ops]
        if name in ("memcpy", "memmove"):
            self.copy(st, A[0], A[1], cval(A[2]), loc)
            st.regs[i["id"]] = A[0]
            return "intr"
        if name in ("memcmp", "bcmp") and cval(A[2]) is not None and all(isinstance(p, Ptr) for p in A[:2]):
            n = cval(A[2])
            x = self.load(st, A[0], n)
            y = self.load(st, A[1], n)
            for p in A[:2]:
                if p.obj[0] != "alloca":
                    st.events.append(Ev("load", loc, p.obj, p.off, n))
            # the sign is that of the first difference
            bx = tuple(b for k in range(n - 1, -1, -1) for b in x[k])
            by = tuple(b for k in range(n - 1, -1, -1) for b in y[k])
            r = 0
            if self.truth(st, self.cmp("ne", bx, by), *at):
                r = 1
                if name == "memcmp" and self.truth(st, self.cmp("ult", bx, by), *at):
                    r = -1
            st.regs[i["id"]] = const(r & ((1 << w) - 1), w)
            return "intr"
        data = {}
        for pa, ln in self.reads.get(name, ()):
            p, n = A[pa], cval(A[ln])
            if isinstance(p, Ptr) and n is not None and n <= 4096:
                data[pa] = tuple(self.load(st, p, n))
                if p.obj[0] != "alloca":
                    st.events.append(Ev("load", loc, p.obj, p.off, n))
        ev = Ev("call", loc, name=name, args=A, data=data)
        ev.dem = i["callee"].get("d") or name
        st.events.append(ev)
        ncall = sum(1 for e in st.events if e.kind == "call")
        if w is not None:
            v = tuple(("call", ncall, k) for k in range(w))
            if i["ty"] == "p":
                v = Ptr(("ret", ncall), 0)
            st.regs[i["id"]] = v
            ev.ret = v
        elif i["ty"] != "void":
            st.regs[i["id"]] = None
        if name not in self.reads:
            # what it was handed may have changed
            for p in A:
                if isinstance(p, Ptr):
                    self.clobber(st, p.obj)
        if i.get("noret"):
            return "noret"
        return "calls"

    def clobber(self, st, obj):
        st.mem[obj] = {"bad": True}

    def copy(self, st, d, s, n, loc):
        d, s = self.unptr(d), self.unptr(s)
        if n is None or not isinstance(d, Ptr):
            self.store(st, None, [])
            st.events.append(Ev("store", loc, d.obj if isinstance(d, Ptr) else ("wild",), None, None))
            st.events.append(Ev("load", loc, s.obj if isinstance(s, Ptr) else ("wild",), None, None))
            return "intr"
        if n == 0:
            return "intr"
        bs = self.load(st, s, n)
        if not isinstance(s, Ptr) or s.obj[0] != "alloca":
            st.events.append(Ev("load", loc, s.obj if isinstance(s, Ptr) else ("wild",), s.off if isinstance(s, Ptr) else None, n))
        if d.obj[0] != "alloca":
            st.events.append(Ev("store", loc, d.obj, d.off, n))
        self.store(st, d, bs)
        return "intr"


def neg(c):
    if c in (0, 1):
        return 1 - c
    return c[1] if isinstance(c, tuple) and c[0] == "not" else ("not", c)


def cmp_parts(c):
    while isinstance(c, tuple) and c[0] == "not":
        c = c[1]
    if isinstance(c, tuple) and c[0] == "cmp":
        return c[1], c[2], c[3]
    return "?", (), ()
