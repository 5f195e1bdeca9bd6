import re
"""C07, C08: the LRU cache, by symbolic execution-free simulation of its list and its index along every path."""
from ..core import *
from ..terms import *
from .. import build, engine
from .observers import const_of
from .registry import rec_loc

N0 = mk("arg", ("n0",), 64)
REST = "*"
NEVER = "the cache never holds more entries than its capacity"


def flat(dem):
    out, d = [], 0
    i = 0
    while i < len(dem):
        c = dem[i]
        if c == "<" and not dem.startswith("operator<", max(0, i - 8)) and not dem.startswith("<=>", i):
            d += 1
        elif c == ">" and d:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


METHOD = re.compile(r"(?:^|[ :])(list|unordered_map|map)::(~?\w+|operator\S+?)\((.*)\)(?: const)?$")


def method(e):
    if e.kind != "call":
        return None
    d = (e.get("dem") or "").replace("std::__cxx11::", "std::").replace("std::_", "std::_")
    m = METHOD.search(flat(d))
    if not m:
        return None
    return ("list" if m.group(1) == "list" else "map"), m.group(2), m.group(3)


def eff(an, e, st):
    """Container operations leave everything but their own nodes alone; the nodes' payloads survive relinking."""
    if method(e) or (e.get("dem") or "").endswith("::now()"):
        return []
    return None


class Item:
    def __init__(self, tok, payload):
        self.tok, self.payload = tok, payload


class Sim:
    def __init__(self, chk, en, r, obj, K, V, sh):
        self.chk, self.en, self.r, self.an = chk, en, r, en.an
        self.obj, self.K, self.V, self.sh = obj, K, V, sh
        self.unknown = None
        self.seq, self.gone = [REST], set()
        self.val = {}            # term -> token ("H", "LAST", "FIRST", "END", ("N", i))
        self.ref = {}            # term of a payload reference -> token
        self.find = None         # result of the lookup of K in the index
        self.mend = set()
        self.bools = {}          # term -> ("hit", polarity)
        self.mgone = set()
        self.slots = {}          # address of an index slot for K -> token held
        self.mapK = None
        self.items = {}
        self.now = []
        self.facts = r.facts.copy()
        self.calls = set()
        self.ld, self.md = 0, 0
        self.size_terms = []
        self.events = []
        self.hit_known = None

    # ---------------------------------------------------------------- helpers
    def why(self, s):
        if self.unknown is None:
            self.unknown = s

    def load(self, mem, addr, size):
        st = engine.State()
        st.facts = self.r.facts
        return self.an.load(mem, addr, size, st)

    def hit(self, facts=None):
        f = facts or self.r.facts
        for t in ([self.find] if self.find is not None else []):
            for e in self.mend:
                h = f.holds(eq(t, e))
                if h is not None:
                    return not h
        for t, pol in self.bools.items():
            h = f.holds(t if t.w == 1 else lnot(eq(t, const(0, t.w))))
            if h is not None:
                return h == pol
        return None

    def tok(self, t):
        """The list position an iterator value denotes."""
        if t in self.val:
            return self.val[t]
        if t.op == "ld":
            a = t.a[0]
            if self.find is not None and a is addc(self.find, self.sh["second"]):
                return "H"
            for s in self.slots:
                if a is s:
                    return self.slots[s]
            # neighbours of the end marker and of known nodes
            for x, k in list(self.val.items()):
                if k == "END" and a is addc(x, 8):
                    return self.last()
                if k == "END" and a is x:
                    return self.first()
        return None

    def last(self):
        if self.seq and self.seq[-1] == REST and "LAST" in self.gone:
            return "LAST2"
        return "LAST" if self.seq and self.seq[-1] == REST else self.seq[-1] if self.seq else None

    def first(self):
        if self.seq and self.seq[0] == REST and "FIRST" in self.gone:
            return "FIRST2"
        return "FIRST" if self.seq and self.seq[0] == REST else self.seq[0] if self.seq else None

    def key_of(self, e, a):
        """Which entry's key a reference argument holds: 'K' (the one asked for), a token, or None."""
        d = addc(a, -self.sh["key"])
        if d in self.ref:
            return self.ref[d]
        for x in list(find(a, lambda y: y.op in ("ld", "call"))):
            if addc(x, self.sh["deref"] + self.sh["key"]) is a:
                t = self.tok(x)
                if t is not None:
                    return t
        got = self.load(e.mem, a, self.sh["ksize"])
        if eqv(self.r.facts, got, self.K) == PROVED:
            return "K"
        # a copy of the key of some entry
        for x in find(got, lambda y: y.op == "ld"):
            if x is got:
                d = addc(x.a[0], -self.sh["key"])
                if d in self.ref:
                    return self.ref[d]
                t = self.tok(addc(d, -self.sh["deref"]))
                if t is not None:
                    return t
        return None

    def part_of(self, e, a):
        """The part of an entry other than its key that a reference argument is made from."""
        got = self.load(e.mem, a, self.sh["ksize"])
        for x in find(got, lambda y: y.op == "ld"):
            for part in ("value", "time"):
                d = addc(x.a[0], -self.sh[part])
                if d in self.ref or self.tok(addc(d, -self.sh["deref"])) is not None:
                    return part
        return None

    # ---------------------------------------------------------------- the walk
    def run(self):
        evs = list(self.r.events)
        for n, e in enumerate(evs):
            if e.kind == "unwound":
                continue
            failed = n + 1 < len(evs) and evs[n + 1].kind == "unwound" and evs[n + 1].call is e
            self.step(e, failed)
            if self.unknown:
                return
        for t, d in self.size_terms:
            self.facts.add(eq(t, addc(N0, d)), True)
        self.facts.add(ult(const(self.sh["cap"], 64), N0), False)
        self.calls |= {t for t, _ in self.size_terms} | set(self.now)

    def step(self, e, failed):
        if e.kind == "loop":
            if any(method(x) or x.kind in ("store", "vcall", "icall", "copy") for al in e.loop.alts for x in al.events):
                self.why("a loop over the containers")
            return
        if e.kind == "call" and (e.get("dem") or "").endswith("::now()"):
            if "system_clock" in e.dem:
                self.now.append(e.ret)
            return
        if e.kind == "store":
            for s in self.slots:
                if e.addr is s:
                    t = self.tok(e.val)
                    self.slots[s] = t if t is not None else "?"
                    self.mapK = self.slots[s]
                    return
            if self.find is not None and e.addr is addc(self.find, self.sh["second"]):
                self.mapK = self.tok(e.val) or "?"
            return
        if e.kind == "call" and re.match(r"std::_List_\w*iterator std::(prev|next)\(", flat(e.get("dem") or "")) and len(e.args) == 2 and is_int(e.args[1]):
            n = sval(e.args[1]) * (-1 if "std::prev(" in flat(e.dem) else 1)
            t = self.tok(e.args[0])
            if n == -1 and t == "END":
                self.val[e.ret] = self.last()
            elif n == 0 and t:
                self.val[e.ret] = t
            return
        m = method(e)
        if not m or failed:
            return
        kind, op, prm = m
        a = e.args
        if kind == "list":
            self.list_op(e, op, prm, a)
        else:
            self.map_op(e, op, prm, a)

    def list_op(self, e, op, prm, a):
        sq = self.seq
        if op in ("list", "~list"):
            if self.an.root(a[0])[0] is not None and self.an.root(a[0])[0].op == "alloca":
                return self.aux(e, op, a)
            return self.why(f"list::{op}")
        aux = self.is_aux(a[0])
        if aux:
            return self.aux(e, op, a)
        if op in ("size",):
            self.size_terms.append((e.ret, self.ld))
        elif op == "empty":
            self.calls.add(e.ret)
        elif op in ("begin", "cbegin"):
            self.val[e.ret] = self.first()
        elif op in ("end", "cend"):
            self.val[e.ret] = "END"
        elif op in ("front", "back"):
            self.ref[e.ret] = self.first() if op == "front" else self.last()
        elif op in ("push_front", "emplace_front", "push_back", "emplace_back"):
            i = ("N", len(self.items))
            self.items[i] = self.payload(e, op, a)
            (sq.insert(0, i) if "front" in op else sq.append(i))
            self.ld += 1
            if op.startswith("emplace"):
                self.ref[e.ret] = i
        elif op == "insert" or op == "emplace":
            t = self.tok(a[1]) if len(a) > 1 else None
            if t in ("END",) or t is not None and t == self.first():
                i = ("N", len(self.items))
                self.items[i] = self.payload(e, op, a[1:])
                (sq.append(i) if t == "END" else sq.insert(0, i))
                self.ld += 1
                self.val[e.ret] = i
            else:
                self.why("list::insert")
        elif op in ("pop_back", "pop_front"):
            self.remove(self.last() if op == "pop_back" else self.first(), e)
        elif op == "erase":
            t = self.tok(a[1]) if len(a) == 2 else None
            if t in (None, "?"):
                return self.why("list::erase of an entry that is not recognised")
            self.remove(t, e)
        elif op == "splice":
            src = a[2] if len(a) > 2 else None
            if src is not None and self.is_aux(src):
                its = self.auxl.pop(src, [])
                t = self.tok(a[1])
                if t == "END":
                    sq.extend(its)
                elif t is not None and t == self.first():
                    sq[0:0] = its
                else:
                    return self.why("list::splice")
                self.ld += len(its)
                self.auxl[src] = []
                return
            if len(a) != 4:
                return self.why("list::splice")
            p, t = self.tok(a[1]), self.tok(a[3])
            if t in (None, "?", "END") or p is None:
                return self.why("list::splice of an entry that is not recognised")
            f = self.first()
            self.take(t)
            if p == "END":
                sq.append(t)
            elif p == f or p == t:
                sq.insert(0, t) if p == f else self.why("list::splice")
            else:
                self.why("list::splice")
        elif op == "clear":
            self.seq[:] = []
            self.gone.add("ALL")
        else:
            self.why(f"list::{op}")

    auxl = None

    def is_aux(self, a):
        if self.auxl is None:
            self.auxl = {}
        r, _ = self.an.root(a)
        if r is not None and r.op == "alloca":
            return True
        return False

    def aux(self, e, op, a):
        l = self.auxl.setdefault(a[0], []) if self.auxl is not None else None
        if self.auxl is None:
            self.auxl = {a[0]: []}
            l = self.auxl[a[0]]
        if op == "list" and len(a) == 1 or op == "~list":
            return
        if op in ("push_front", "emplace_front", "push_back", "emplace_back"):
            i = ("N", len(self.items))
            self.items[i] = self.payload(e, op, a)
            l.insert(0, i) if "front" in op else l.append(i)
        elif op in ("begin", "cbegin"):
            self.val[e.ret] = l[0] if l else "?"
        elif op in ("front", "back"):
            self.ref[e.ret] = (l[0] if op == "front" else l[-1]) if l else "?"
        elif op in ("end", "cend"):
            self.val[e.ret] = ("AUXEND",)
        else:
            self.why(f"a local list's {op}")

    def take(self, t):
        if t in self.seq:
            self.seq.remove(t)
        else:
            self.gone.add(t)

    def remove(self, t, e):
        if t is None:
            return self.why("an entry is removed from an empty list")
        if t in ("LAST2", "FIRST2") and t in self.gone:
            return self.why("several entries are removed")
        self.take(t)
        self.removed = getattr(self, "removed", set()) | {t}
        self.ld -= 1

    def payload(self, e, op, a):
        """(key, value, time) of a new entry, from the arguments of the call that makes it."""
        s = self.sh
        if op.startswith("emplace") and len(a) == 4:
            return (self.load(e.mem, a[1], s["ksize"]), self.chunks(e.mem, a[2]), self.load(e.mem, a[3], 8), e)
        if len(a) == 2:
            return (self.load(e.mem, addc(a[1], s["key"]), s["ksize"]), self.chunks(e.mem, addc(a[1], s["value"])), self.load(e.mem, addc(a[1], s["time"]), 8), e)
        return None

    def chunks(self, mem, addr):
        n, out, o = self.sh["vsize"], [], 0
        while o < n:
            k = next(k for k in (8, 4, 2, 1) if k <= n - o)
            out.append(self.load(mem, addc(addr, o), k))
            o += k
        return tuple(out)

    def map_op(self, e, op, prm, a):
        if op in ("begin", "cbegin"):
            return
        if op in ("end", "cend"):
            self.mend.add(e.ret)
            return
        if op == "size":
            self.size_terms.append((e.ret, self.md))
            return
        if op == "empty":
            return
        if op in ("find", "contains", "count", "operator[]", "at", "try_emplace", "emplace", "insert", "insert_or_assign"):
            k = self.key_of(e, a[1]) if len(a) > 1 else None
            if op in ("find", "contains", "count"):
                if k != "K":
                    return self.why("a lookup of another key")
                if self.mapK is not None or self.mgone:
                    return self.why("a lookup after a change")
                if op == "find":
                    self.find = e.ret
                    if "unordered_map::" not in flat(e.dem.replace("std::__cxx11::", "std::")):
                        self.sh = dict(self.sh, second=self.sh["second_ord"])
                else:
                    self.bools[e.ret] = True
                return
            if k != "K":
                self.odd = getattr(self, "odd", []) + [(e, k)]
                return self.why("the index gets another key")
            h = self.hit(e.facts)
            if op in ("operator[]", "at"):
                if op == "at" and h is not True:
                    return self.why("map::at")
                self.slots[e.ret] = "H" if h else "?"
                if h is not True:
                    self.mapK = "?"
                    self.fresh = e
                    self.md += 1
                return
            it = a[2] if len(a) > 2 else addc(a[1], 8)
            t = self.tok(self.load(e.mem, it, 8))
            if op in ("emplace", "insert", "try_emplace") and h is True:
                return
            if h is None and op != "insert_or_assign":
                return self.why(f"map::{op}")
            self.mapK = t if t is not None else "?"
            if not h:
                self.md += 1
            return
        if op == "erase":
            if self.find is not None and a[1] is self.find:
                t = "H"
            else:
                t = self.key_of(e, a[1])
            if t is None:
                p = self.part_of(e, a[1])
                if p is None:
                    return self.why(f"map::erase of a key that is not recognised: {a[1]}")
                t = f"of whatever the {p} of an entry is as a key"
            self.mgone.add("H" if t == "K" else t)
            self.md -= 1
            return
        self.why(f"map::{op}")

    def entry(self, tok):
        """(key, value, time) of the entry at the end of the path."""
        if tok in self.items:
            return self.items[tok]
        if tok == "H":
            base = addc(mk_ld(self.find, self.sh), self.sh["deref"])
            mem = self.r.st.mem
            return (self.load(mem, addc(base, self.sh["key"]), self.sh["ksize"]), self.chunks(mem, addc(base, self.sh["value"])), self.load(mem, addc(base, self.sh["time"]), 8), None)
        return None


def mk_ld(find_ret, sh):
    return mk("ld", (addc(find_ret, sh["second"]), 8, 0), 64)


def shape(chk, unit, cap):
    def off(fn, base=0):
        en = chk.analyse(unit, fn)
        t = en.rets()[0].ret
        return ival(sub(t, mk("arg", (base,), 64)))

    def through(fn):
        t = chk.analyse(unit, fn).rets()[0].ret
        c, _ = lin_parts(t)
        return c
    en = chk.analyse(unit, "vp_has")
    h = find(en.rets()[0].ret, lambda y: y.op == "ld")
    ex = chk.analyse(unit, "vp_expired").rets()[0].ret
    return dict(key=off("vp_item_key"), value=off("vp_item_value"), time=off("vp_item_time"), deref=through("vp_deref"), second=through("vp_second"), second_ord=through("vp_second_ord"),
                has=ival(sub(next(iter(h)).a[0], mk("arg", (0,), 64))), pay=off("vp_payload"), ksize=const_of(unit, "vp_sizeof_K"),
                vsize=const_of(unit, "vp_sizeof_V"), exp=ex, cap=cap)


def units(tier):
    full = [("int", "long", 5, "true"), ("int", "long", 70000, "false"), ("int", "long", 1, "true")]
    if tier != "quick":
        full += [("int", "long", 5, "false"), ("long", "char", 64, "true"), ("char", "int", 2, "false"), ("unsigned", "double", 1000, "false")]
    for k, v, n, x in full:
        yield build.unit("lru", [f"VP_K={k}", f"VP_V={v}", f"VP_N={n}", f"VP_EXC={x}"]), n, x == "true"


def paths(chk, unit, fn, obj, cap):
    sh = shape(chk, unit, cap)
    en = chk.analyse(unit, fn, effects=eff, unwind="all")
    base = 1 if fn == "vp_put" else 2
    for r in en.recs:
        if r.facts.empty() or r.kind in ("noreturn", "terminate"):
            continue
        if r.kind == "unwind":
            # only what allocates is taken to fail; keys hash and compare without raising
            u = [e.call for e in r.events if e.kind == "unwound"]
            m = method(u[-1]) if u else None
            if m and not re.match(r"push|emplace|try_emplace|insert|operator\[\]|list$", m[1]):
                continue
        K = mk("ld", (mk("arg", (base,), 64), sh["ksize"], 0), sh["ksize"] * 8)
        s = Sim(chk, en, r, mk("arg", (obj,), 64), K, None, sh)
        s.run()
        yield en, r, s, s.sh


RULES = {
    "same": "the index and the recency order describe the same entries",
    "one": "an entry put is held once, in front",
    "evict": "a full cache loses exactly its least recently used entry, any other none",
}


def c07(chk, tier):
    for unit, cap, exc in units(tier):
        for fn, obj in (("vp_put", 0), ("vp_get", 1)):
            for en, r, s, sh in paths(chk, unit, fn, obj, cap):
                loc = rec_loc(r, en)
                if s.unknown:
                    chk.ob(fn, RULES["same"], UNDEC, loc, s.unknown)
                    continue
                h = s.hit()
                gone = getattr(s, "removed", set())
                same_obs(chk, fn, r, s, h, gone, loc)
                if "ALL" in s.gone:
                    chk.ob(fn, RULES["evict"], REFUTED, loc, "every entry is removed")
                    continue
                news = [t for t in s.seq if isinstance(t, tuple)]
                # capacity
                if s.ld > 0:
                    v = decide(s.facts, ult(const(cap, 64), addc(N0, s.ld)), False, free=s.calls)
                    chk.ob(fn, NEVER, v, loc, f"up to {s.ld} more than it held on this path, with room for {cap}")
                if fn == "vp_put" and r.kind == "ret":
                    if h is None:
                        chk.ob(fn, RULES["one"], UNDEC, loc, "the path does not tell whether the key is held")
                        continue
                    hold = [t for t in s.seq if t == "H" or isinstance(t, tuple)]
                    hin = h and "H" not in gone and "H" not in s.seq
                    ok = len(hold) == 1 and not hin and s.seq[:1] == hold
                    chk.ob(fn, RULES["one"], PROVED if ok else REFUTED, loc,
                           "the key's old entry stays where it is" if hin else "nothing is inserted" if not hold else "the entry is held twice" if len(hold) > 1 else "the entry is not put in front")
                ev = gone - {"H"}
                if r.kind == "ret":
                    if ev - {"LAST"}:
                        chk.ob(fn, RULES["evict"], REFUTED, loc, "an entry other than the least recently used one is removed")
                    elif ev and (fn == "vp_get" or h):
                        chk.ob(fn, RULES["evict"], REFUTED, loc, "an entry is removed although none is added")
                    elif ev:
                        chk.ob(fn, RULES["evict"], decide(s.facts, ult(N0, const(cap, 64)), False, free=s.calls), loc, "an entry is removed although there is room")
                    elif fn == "vp_put" and not h and news:
                        chk.ob(fn, RULES["evict"], decide(s.facts, ult(N0, const(cap, 64)), True, free=s.calls), loc, "an entry is added to a full cache and none removed")


def same_obs(chk, fn, r, s, h, gone, loc):
    what = "" if r.kind == "ret" else " after an exception"
    rule = RULES["same"]
    mg = set(s.mgone)
    if s.mapK is not None and "H" in mg:
        mg -= {"H"}          # erased and entered again
    lg = {t for t in gone if not isinstance(t, tuple)}
    news = [t for t in s.seq if isinstance(t, tuple)]
    hkept = h and "H" not in gone
    if "ALL" in s.gone:
        return chk.ob(fn, rule, UNDEC, loc, "the list is cleared")
    # entries other than K's
    if lg - {"H"} != mg - {"H"}:
        d = (lg - {"H"}) ^ (mg - {"H"})
        return chk.ob(fn, rule, REFUTED, loc, f"an entry ({', '.join(sorted(map(str, d)))}) is removed from one of them only{what}")
    # K's entry
    holds = news + (["H"] if hkept else [])
    inmap = s.mapK if s.mapK is not None else ("H" if h and "H" not in s.mgone else None)
    if h is None and (s.mapK is not None or news or "H" in s.mgone):
        if s.mapK == "?" and not news:
            return chk.ob(fn, rule, REFUTED, loc, "an index entry is made for a key that may not be held, without a list entry")
        return chk.ob(fn, rule, UNDEC, loc, "the path does not tell whether the key is held")
    if inmap == "?":
        sl = [x for x in s.slots.values()]
        return chk.ob(fn, rule, REFUTED if not holds or getattr(s, "fresh", None) is not None and sl == ["?"] and not stored(s) else UNDEC, loc, f"an index entry leads nowhere{what}")
    if inmap is None and holds:
        return chk.ob(fn, rule, REFUTED, loc, f"an entry is in the list and not in the index{what}")
    if inmap is not None and not holds:
        return chk.ob(fn, rule, REFUTED, loc, f"an entry is in the index and not in the list{what}")
    if inmap is not None and (len(holds) != 1 or holds[0] != inmap):
        return chk.ob(fn, rule, REFUTED, loc, f"the list holds the key {len(holds)} times{what}" if len(holds) != 1 else f"the index entry leads to another entry ({inmap}){what}")
    chk.ob(fn, rule, PROVED, loc)


def stored(s):
    return any(e.kind == "store" and any(e.addr is a for a in s.slots) for e in s.r.events)


def same_val(s, got, want):
    if isinstance(got, tuple):
        vs = [same_val(s, g, w) for g, w in zip(got, want)]
        return both(*vs)
    return eqv(s.facts, got, want, free=s.calls)


def c08(chk, tier):
    for unit, cap, exc in units(tier):
        # the lifetime is the one configured
        ec = chk.analyse(unit, "vp_ctor", effects=eff)
        for r in ec.rets():
            sh = shape(chk, unit, cap)
            if sh["exp"].op == "ld":
                got = ec.load(r, sh["exp"].a[0], 8)
                chk.ob("vp_ctor", "the lifetime is the one configured", eqv(r.facts, got, mk("arg", (1,), 64)), rec_loc(r, ec), f"{got}")
        for en, r, s, sh in paths(chk, unit, "vp_put", 0, cap):
            loc = rec_loc(r, en)
            if r.kind != "ret":
                continue
            if s.unknown or s.hit() is None:
                chk.ob("vp_put", "an entry put carries its key, value and the time of insertion", UNDEC, loc, s.unknown or "")
                continue
            cand = [t for t in s.seq if t == "H" or isinstance(t, tuple)]
            if len(cand) != 1:
                continue
            it = s.entry(cand[0])
            if it is None:
                chk.ob("vp_put", "an entry put carries its key, value and the time of insertion", UNDEC, loc, "the entry is not recognised")
                continue
            k, v, t, e = it
            want = s.chunks(None, mk("arg", (2,), 64))
            vk = PROVED if cand[0] == "H" and k.op == "ld" else same_val(s, k, s.K)
            chk.ob("vp_put", "an entry put carries its key", vk, loc, f"{k}")
            chk.ob("vp_put", "an entry put carries its value", same_val(s, v, want), loc, f"{v}")
            stale = t.op in ("ld", "int") and t.w == 64
            chk.ob("vp_put", "an entry put carries the time of insertion", PROVED if any(t is n for n in s.now) else REFUTED if stale or find(t, lambda y: y in s.now) or t.op == "int" else UNDEC, loc, f"{t} is not a reading of the clock")
        for en, r, s, sh in paths(chk, unit, "vp_get", 1, cap):
            loc = rec_loc(r, en)
            if r.kind == "unwind":
                continue
            check_get(chk, en, r, s, sh, loc, exc)


def check_get(chk, en, r, s, sh, loc, exc):
    fn = "vp_get"
    if s.unknown:
        chk.ob(fn, "the answer is the live entry, nothing, or the timeout", UNDEC, loc, s.unknown)
        return
    h = s.hit()
    full = None
    if r.kind == "ret":
        fl = en.load(r, addc(mk("arg", (0,), 64), sh["has"]), 1)
        full = bool(ival(fl) & 1) if is_int(fl) else None
        if full is None:
            chk.ob(fn, "the answer is the live entry, nothing, or the timeout", UNDEC, loc, f"{fl}")
            return
    if h is None:
        chk.ob(fn, "a key that is not stored yields nothing", UNDEC if full is False else REFUTED, loc, "the answer does not depend on whether the key is stored")
        return
    if not h:
        chk.ob(fn, "a key that is not stored yields nothing", PROVED if full is False else REFUTED, loc, "something else than an empty result for a key that is not stored")
        return
    base = addc(mk_ld(s.find, sh), sh["deref"]) if s.find is not None else None
    if base is None:
        chk.ob(fn, "the answer is the live entry, nothing, or the timeout", UNDEC, loc, "")
        return
    exp = subst(sh["exp"], {mk("arg", (0,), 64): mk("arg", (1,), 64)})
    t0 = mk("ld", (addc(base, sh["time"]), 8, 0), 64)
    live = None
    vs = []
    for n in s.now:
        vs.append((decide(s.facts, slt(sub(n, t0), exp), True, free=s.calls), decide(s.facts, slt(sub(n, t0), exp), False, free=s.calls)))
    if full:
        # never an entry whose age has reached the lifetime
        v = PROVED if any(a == PROVED for a, _ in vs) else REFUTED if not vs or all(a == REFUTED for a, _ in vs) else UNDEC
        chk.ob(fn, "an entry is returned only while its age is below the lifetime", v, loc, "an entry may be returned whose age has reached the lifetime")
        mem = r.st.mem
        a0 = addc(mk("arg", (0,), 64), sh["pay"])
        as_h = {x: base for x, k in s.ref.items() if k == "H"}
        got = (s.load(mem, addc(a0, sh["key"]), sh["ksize"]), s.chunks(mem, addc(a0, sh["value"])), s.load(mem, addc(a0, sh["time"]), 8))
        got = tuple(tuple(subst(y, as_h) for y in x) if isinstance(x, tuple) else subst(x, as_h) for x in got)
        want = (mk("ld", (addc(base, sh["key"]), sh["ksize"], 0), sh["ksize"] * 8), s.chunks(None, addc(base, sh["value"])), t0)
        # the stored key equals the one asked for
        s.facts.add(eq(want[0], s.K), True)
        chk.ob(fn, "a live entry is returned as stored", both(*[same_val(s, g, w) for g, w in zip(got, want)]), loc, f"{got}")
        chk.ob(fn, "a live entry becomes the most recently used", PROVED if s.seq and s.seq[0] == "H" else REFUTED, loc, "the entry is not moved to the front")
    else:
        v = PROVED if any(b == PROVED for _, b in vs) else REFUTED if not vs or all(b == REFUTED for _, b in vs) else UNDEC
        chk.ob(fn, "a live entry is returned", v, loc, "no entry is returned although its age may be below the lifetime")
        if r.kind == "throw":
            ty = str(r.info.get("type")) if r.info is not None else ""
            chk.ob(fn, "an expired entry raises the timeout error only where configured", PROVED if exc and "cache_timeout" in ty else REFUTED if not exc or "_ZTI" in ty else UNDEC, loc, f"raises {ty}")
        else:
            chk.ob(fn, "an expired entry raises the timeout error only where configured", REFUTED if exc else PROVED, loc, "an empty result although the cache was configured to raise the timeout error")
