"""Registries of observers / modules: arrays with a count, and vectors.  Shared by C09, C10, C12-C16."""
from ..core import *
from ..terms import *
from .. import engine

A0 = mk("arg", (0,), 64)
Z = const(0, 64)


class Reg:
    """kind 'array': elements at this+off, length cell (in elements) at this+cnt, capacity N.
    kind 'vector': this+off holds begin, this+off+8 holds end."""

    def __init__(self, kind, off, cnt=None, cap=None, this=A0, csize=8):
        self.kind, self.off, self.cnt, self.cap, self.this, self.csize = kind, off, cnt, cap, this, csize
        if kind == "array":
            self.base = addc(this, off)
            self.count0 = mk("ld", (addc(this, cnt), csize, 0), csize * 8)
            c = self.count0 if csize == 8 else zext(self.count0, 64)
            self.len0 = mulc(c, 8)
        else:
            self.vec = addc(this, off)
            self.base = mk("ld", (self.vec, 8, 0), 64)
            self.end0 = mk("ld", (addc(self.vec, 8), 8, 0), 64)
            # the vector holds a whole number of entries (assumption A3)
            self.n0 = mk("cnt0", (self.vec,), 64)
            self.len0 = mulc(self.n0, 8)

    def init_facts(self):
        if self.kind == "array":
            if self.cap >= 1 << 8 * self.csize:
                return []
            return [(ult(const(self.cap, self.csize * 8), self.count0), False)]
        return [("def", (self.end0, add(self.base, self.len0))), (ult(self.n0, const(1 << 50, 64)), True)]

    def length(self, e, rec):
        """Final length in bytes."""
        if self.kind == "array":
            c = e.load(rec, addc(self.this, self.cnt), self.csize)
            return mulc(c if self.csize == 8 else zext(c, 64), 8)
        return sub(e.load(rec, addc(self.vec, 8), 8), e.load(rec, self.vec, 8))

    def index(self, an, facts, addr):
        """Byte offset of addr inside the elements, or None when it is elsewhere."""
        addr = facts.norm(addr)
        r, off = an.root(addr)
        rb, ob = an.root(facts.norm(self.base))
        if r is not rb:
            return None
        d = facts.norm(sub(addr, self.base))
        if self.kind == "array":
            if is_int(d):
                return d if 0 <= sval(d) < 8 * self.cap else None
            f = an.field(r, off)
            if f is not None and not (f.off <= self.off < f.off + f.size):
                return None
        return d

    def elem(self, d):
        return mk("ld", (add(self.base, d), 8, 0), 64)

    def is_elem(self, t):
        """Byte offset of the element whose (initial) content t is, else None."""
        if t.op == "ld" and t.a[1] == 8 and t.a[2] == 0:
            d = sub(t.a[0], self.base)
            if self.kind == "array":
                c, dd = lin_parts(d)
                if self.this in dd:
                    return None
                if not dd and not (0 <= c < 8 * self.cap):
                    return None
            elif self.base in lin_parts(d)[1] or not mentions(t.a[0], self.base):
                return None
            return d
        return None


COUNTS = {"size_type": 8, "std::size_t": 8, "size_t": 8, "unsigned long": 8, "uint32_t": 4, "std::uint32_t": 4, "unsigned int": 4, "unsigned": 4,
          "uint16_t": 2, "std::uint16_t": 2, "unsigned short": 2, "uint8_t": 1, "std::uint8_t": 1, "unsigned char": 1}


def wide(chk, name, tn, reg):
    """A count too narrow for the capacity starts again at zero while entries are registered."""
    chk.ob(name, "the count of entries holds every number up to the capacity", PROVED if reg.cap < 1 << 8 * reg.csize else REFUTED, "include/xitren/comm",
           f"{tn}: room for {reg.cap}, counted in {8 * reg.csize} bits")


def array_reg(chk, unit, tn, elem_hint="*", this=A0):
    """The registry inside record tn, found by type; None when the shape is not recognised."""
    rec = unit["layouts"].get(tn)
    if rec is None:
        return None
    fl = rec.flat()
    arrs = [f for f in fl if f.array and "*" in f.type]
    vecs = [f for f in fl if f.type.startswith("std::vector<") and "*" in f.type]
    if len(vecs) == 1 and not arrs:
        return Reg("vector", vecs[0].off, this=this)
    if len(arrs) != 1:
        return None
    a = arrs[0]
    cap = a.size // 8
    import re
    m = re.search(r", (\d+)(?:UL)?>$", a.type)
    if m:
        cap = int(m.group(1))
    cs = [f for f in fl if not f.array and f.off > a.off and
          f.type.replace("const ", "") in COUNTS]
    if not cs:
        cs = [f for f in fl if not f.array and f.type in COUNTS]
    if not cs:
        return None
    named = [f for f in cs if "cnt" in f.name or "count" in f.name]
    f = (named or cs)[0]
    size = COUNTS[f.type.replace("const ", "")]
    if f.type.endswith("size_type") and f.size in (1, 2, 4):
        size = f.size
    return Reg("array", a.off, f.off, cap, this, size)


# ---------------------------------------------------------------- scans and loops
def affine(t, K):
    """(coefficient of K, rest) of a term linear in K, else None."""
    c, d = lin_parts(t)
    k = d.pop(K, 0)
    if any(mentions(a, K) for a in d):
        return None
    return k, mk_lin(c, d, t.w)


def counters(fa):
    """[(m, increasing ways, other ways)] of the conditional counters of a completed loop."""
    lp = fa.loop
    out = []
    for key, kd in list(lp.kinds.items()) + list(lp.cells.items()):
        if kd[0] == "gen":
            # a latch: set to something else than its first value by some ways, left alone by the others
            cur = lp.csym.get(key) if isinstance(key, tuple) else lp.sym.get(key)
            init = lp.cinit.get(key) if isinstance(key, tuple) else lp.inits.get(key)
            if cur is None or init is None or not is_int(init):
                continue
            inc, oth = [], []
            for al in fa.alts:
                nx = al.nexts.get(key)
                if nx is cur:
                    oth.append(al)
                elif nx is not None and nx.w == init.w and al.st.facts.eq(nx, init) is False:
                    inc.append(al)
                else:
                    break
            else:
                out.append((sub(cur, init), inc, oth))
            continue
        if kd[0] != "cnt":
            continue
        m = mk("m", (lp.hid, key if not isinstance(key, tuple) else mk("cell", key, 1), lp.K), 64)
        cur = lp.csym.get(key) if isinstance(key, tuple) else lp.sym.get(key)
        inc, oth = [], []
        for al in fa.alts:
            nx = al.nexts.get(key)
            d = al.st.facts.norm(sub(nx, cur)) if nx is not None and cur is not None and nx.w == cur.w else None
            if d is None or not is_int(d):
                break
            (inc if ival(d) else oth).append(al)
        else:
            out.append((m, inc, oth))
    return out


def taken(fa, facts):
    """The ways of a completed loop that some iteration may have taken, given what is known after it."""
    alts = list(fa.alts)
    for m, inc, oth in counters(fa):
        if facts.eq(m, const(0, m.w)) is True:
            alts = [a for a in alts if a in oth]
        elif m.op == "m" and facts.eq(m, fa.count) is True:
            alts = [a for a in alts if a in inc]
    return alts


def surely_taken(fa, facts):
    """Sets of ways of which at least one iteration took one."""
    out = []
    for m, inc, oth in counters(fa):
        if facts.eq(m, const(0, m.w)) is False:
            out.append(inc)
        if m.op == "m" and facts.eq(m, fa.count) is False:
            out.append(oth)
    return out


def ranges_not_equal(reg, rec, x):
    """Byte ranges [lo, hi) of the initial registry shown to hold no x by the completed loops."""
    out = []
    for fa in rec.foralls:
        K = fa.loop.K
        got = None
        for al in taken(fa, rec.facts):
            offs = set()
            f = al.st.facts
            for t in set(f.neq) | {a.a[0] for a, p in al.lits if a.op == "eq0" and not p}:
                for o in differ_from(reg, f, t, x):
                    offs.add(o)
            # an alternative that leaves the loop's filter with x found does not clear the element
            offs = {o for o in offs if affine(o, K) and affine(o, K)[0] in (8, -8)}
            got = offs if got is None else got & offs
        for o in got or ():
            k, r = affine(o, K)
            n = mulc(fa.count, 8)
            if k == 8:
                out.append((r, add(r, n)))
            else:
                out.append((addc(sub(r, n), 8), addc(r, 8)))
    # single elements compared outside loops
    for t in set(rec.facts.neq):
        for o in differ_from(reg, rec.facts, t, x):
            out.append((o, addc(o, 8)))
    return out


def differ_from(reg, f, t, x):
    """Offsets o such that the known-nonzero term t says elem(o) != x."""
    c, d = lin_parts(t)
    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
        a, b = d
        if b is x:
            a, b = b, a
        if a is x:
            o = reg.is_elem(b)
            if o is not None:
                yield o


def match_offsets(reg, facts, x):
    """Offsets whose element equals x according to the facts."""
    out = []
    for a, p in facts.lits:
        if a.op == "eq0" and p:
            c, d = lin_parts(a.a[0])
            if c == 0 and len(d) == 2:
                p1, p2 = d
                if p2 is x:
                    p1, p2 = p2, p1
                if p1 is x:
                    o = reg.is_elem(p2)
                    if o is not None:
                        out.append(facts.norm(o))
    return out


def covers(facts, rs, lo, hi):
    """Do the ranges cover [lo, hi)?  proved / refuted / undecided.  refuted needs a single candidate
    whose ends are linear and provably able to miss an element."""
    best = UNDEC
    # greedy chaining from lo
    cur, used = lo, set()
    for _ in range(len(rs) + 1):
        if decide(facts, ult(cur, hi), False) == PROVED or eqv(facts, cur, hi) == PROVED:
            return PROVED
        for i, (a, b) in enumerate(rs):
            if i not in used and eqv(facts, a, cur) == PROVED:
                used.add(i)
                cur = b
                break
        else:
            break
    if decide(facts, ult(cur, hi), False) == PROVED or eqv(facts, cur, hi) == PROVED:
        return PROVED
    if not rs:
        return REFUTED if decide(facts, ult(lo, hi), False) == REFUTED else UNDEC
    if used or len(rs) == 1:
        v = [decide(facts, eq(cur, hi), True)]
        if used and v[0] == REFUTED:
            return REFUTED
        if not used and decide(facts, eq(rs[0][0], lo), True) == REFUTED:
            return REFUTED
    return best


def writes(rec):
    """Top-level events that write memory."""
    return [e for e in rec.events if e.kind in ("store", "set", "copy", "rmw", "cmpxchg")]


def loop_writes(lp):
    out = []
    for al in lp.alts:
        for e in al.events:
            if e.kind in ("store", "set", "copy", "rmw", "cmpxchg"):
                out.append((al, e))
            elif e.kind == "loop":
                out += [(al, x) for _, x in loop_writes(e.loop)]
    return out


import re

REORDER = re.compile(r"^(?:[^(]* )?std::(partition|sort|make_heap|shuffle|nth_element|partial_sort|reverse)<")
STD_MEMBER = re.compile(r"^(?:[^(]* )?std::vector<.*>::(clear|push_back|emplace_back|pop_back|reserve|resize|shrink_to_fit|erase|assign)\(|^std::vector<.*>::~vector")


def append_call(e, reg):
    """The event appends one element to the vector: returns the pointer to the new value."""
    d = e.get("dem") or ""
    if e.kind == "call" and reg.kind == "vector" and e.args and e.args[0] is reg.vec:
        if "::push_back(" in d or "::emplace_back" in d:
            return e.args[1] if len(e.args) > 1 else None
    return None


def insert_call(e, reg):
    """(position offset, pointer to the value) of a single-element insertion at a position."""
    d = e.get("dem") or ""
    if e.kind == "call" and reg.kind == "vector" and len(e.args) == 3 and e.args[0] is reg.vec and ("::insert(" in d or "::emplace<" in d):
        return sub(e.facts.norm(e.args[1]), reg.base), e.args[2]
    return None


def touches_vec(e, reg):
    return e.kind == "call" and reg.kind == "vector" and any(a is reg.vec for a in e.args)


def params(dem):
    """The parameter types of a demangled function, or None."""
    d = dem[:-6] if dem.endswith(" const") else dem
    if not d.endswith(")"):
        return None
    n, j, out, end = 0, len(d) - 1, [], len(d) - 1
    while j >= 0:
        c = d[j]
        if c in ")>":
            n += 1
        elif c in "(<":
            n -= 1
            if n == 0:
                out.append(d[j + 1:end].strip())
                break
        elif c == "," and n == 1:
            out.append(d[j + 1:end].strip())
            end = j
        j -= 1
    if n:
        return None
    return [] if out == [""] else out[::-1]


def only_reads(e, vec):
    """By the signature of what is called, the vector cannot be changed through this call."""
    d = e.get("dem") or ""
    ps = params(d)
    if ps is None:
        return d.endswith(" const")
    first = len(e.args) - len(ps)
    for i, a in enumerate(e.args):
        if a is vec and not (ps[i - first].endswith("const&") if i >= first else d.endswith(" const")):
            return False
    return True


def mutation_events(en, reg, rec):
    """Writes to the registry (elements or length) among all events, as [(where, event)]."""
    an = en.an
    out = []

    def see(e, facts, loop):
        if e.kind in ("store", "rmw", "cmpxchg"):
            r, off = an.root(facts.norm(e.addr))
            if reg.kind == "vector" and is_int(sub(e.addr, reg.vec)) and 0 <= sval(sub(e.addr, reg.vec)) < 24:
                out.append(("len", e, loop))
            elif reg.kind == "array" and e.addr is addc(reg.this, reg.cnt):
                out.append(("len", e, loop))
            elif reg.index(an, facts, e.addr) is not None:
                out.append(("elem", e, loop))
        elif e.kind in ("copy", "set"):
            if reg.index(an, facts, e.dst) is not None:
                out.append(("elem", e, loop))
        elif touches_vec(e, reg):
            if not only_reads(e, reg.vec):
                out.append(("call", e, loop))
        elif e.kind == "loop":
            for al in e.loop.alts:
                for x in al.events:
                    see(x, al.st.facts, e.loop)
            for x in getattr(e.loop, "exit_events", ()):
                see(x, facts, e.loop)
    for e in rec.events:
        see(e, rec.facts, None)
    return out


def unchanged(en, reg, rec):
    """The registry is exactly as it was."""
    mu = mutation_events(en, reg, rec)
    if not mu:
        return PROVED, None
    v = PROVED
    for what, e, loop in mu:
        if what == "len" and e.kind == "store" and not loop:
            if eqv(rec.facts, reg.length(en, rec), reg.len0) == PROVED:
                continue
            r = eqv(rec.facts, reg.length(en, rec), reg.len0)
            return (REFUTED if r == REFUTED else UNDEC), e
        if what == "elem" and e.kind == "store" and not loop:
            o = reg.index(en.an, rec.facts, e.addr)
            # a write beyond the registered entries changes nothing observable
            if decide(rec.facts, ult(o, reg.len0), False) == PROVED and reg.kind == "array" and \
                    decide(rec.facts, ult(o, const(8 * reg.cap, 64)), True) == PROVED:
                continue
            if eqv(rec.facts, e.val, reg.elem(o)) == PROVED:
                continue
            return REFUTED, e
        if what == "call":
            return REFUTED, e
        if loop is not None:
            # stores the very value it found
            if e.kind == "store" and what == "elem":
                for al in loop.alts:
                    if e in al.events and e.val is reg.elem(reg.index(en.an, al.st.facts, e.addr)):
                        break
                else:
                    v = UNDEC
                continue
            return UNDEC, e
        return UNDEC, e
    return v, (mu[0][1] if v != PROVED else None)


def looks_at(reg, rec, x):
    """Something on this path compares x in a way the ranges do not capture."""
    for fa in rec.foralls:
        for al in fa.alts:
            if any(mentions(a, x) or mentions(a, K_of(al)) and find(a, lambda t: t.op in ("phi", "unk", "call")) for a, p in al.lits):
                return True
            if any(e.kind in ("call", "icall", "loop") for e in al.events):
                return True
            if any(nx.op != "int" and (mentions(nx, x) or find(nx, lambda t: t.op in ("ld", "unk", "call"))) for nx in al.nexts.values()):
                return True
    return any(e.kind in ("call", "icall") and any(mentions(a, x) for a in e.args) and append_call(e, reg) is None for e in rec.events) or \
        any(find(a, lambda t: t.op in ("call", "unk")) for a, p in rec.facts.lits)


def steps(lp, k):
    kd = (lp.cells.get(k) if isinstance(k, tuple) else lp.kinds.get(k)) or ("gen",)
    return kd[0] in ("inv", "ind", "rel")


def forgets(fa, key):
    """A loop variable every way sets to a constant, one of them to its first value, and none looks at."""
    lp = fa.loop
    cur = lp.csym.get(key) if isinstance(key, tuple) else lp.sym.get(key)
    init = lp.cinit.get(key) if isinstance(key, tuple) else lp.inits.get(key)
    if cur is None or init is None or not is_int(init):
        return False
    vs = [al.nexts.get(key) for al in fa.alts]
    return all(v is not None and is_int(v) for v in vs) and any(v is init for v in vs) and \
        not any(mentions(a, cur) for al in fa.alts for a, p in al.lits)


def shown_absent(reg, rec, x):
    rs = ranges_not_equal(reg, rec, x)
    v = covers(rec.facts, rs, Z, reg.len0)
    if v != PROVED:
        for fa in rec.foralls:
            for al in taken(fa, rec.facts):
                f = al.st.facts
                if not f.empty() and any(affine(o, K_of(al)) and affine(o, K_of(al))[0] in (8, -8) or is_int(o) for o in match_offsets(reg, f, x)) \
                        and not any(e.kind in ("call", "icall", "loop") for e in al.events) and all(steps(fa.loop, k) or forgets(fa, k) for k in al.nexts):
                    return REFUTED
    if v == REFUTED and not rs and looks_at(reg, rec, x):
        return UNDEC
    return v


def shown_present(reg, rec, x):
    """Some element within the registered range equals x."""
    for o in match_offsets(reg, rec.facts, x):
        v = decide(rec.facts, ult(o, reg.len0), True)
        if v == PROVED:
            return PROVED
        if v == REFUTED:
            return REFUTED
    for fa in rec.foralls:
        for alts in surely_taken(fa, rec.facts):
            if alts and all(match_offsets(reg, al.st.facts, x) for al in alts):
                return PROVED
    return UNDEC


# ---------------------------------------------------------------- add
def check_add(chk, en, reg, x, codes, unit, fullcheck=True, name=""):
    """C12 / C09: registration.  codes: dict of status numbers or None (exceptions)."""
    n = 0
    for r in en.recs:
        if r.kind in ("terminate", "noreturn", "unwind"):
            continue
        if r.facts.empty():
            continue
        n += 1
        loc = rec_loc(r, en)
        ok = r.kind == "ret" and (codes is None or (r.ret is not None and is_int(r.ret) and sval(r.ret) == codes["ok"]))
        if ok:
            check_appended(chk, en, reg, r, x, loc, name)
            v = shown_absent(reg, r, x) if name != "noscan" else PROVED
            chk.ob(en.name, "a registration is accepted only after every registered entry was compared with it", v, loc,
                   f"accepted although some registered entries were not compared ({show_ranges(reg, r, x)})")
            if reg.kind == "array":
                chk.ob(en.name, "a registration is accepted only while there is room",
                       decide(r.facts, ult(reg.len0, const(8 * reg.cap, 64)), True), loc,
                       f"accepted with the registry full (capacity {reg.cap})")
        else:
            v, e = unchanged(en, reg, r)
            chk.ob(en.name, "a rejected registration leaves the registry as it was", v, e.loc if e is not None else loc,
                   f"the rejecting path writes the registry: {e}")
            st = sval(r.ret) if codes is not None and r.ret is not None and is_int(r.ret) else None
            if r.kind == "throw" or (codes is not None and st == codes["dup"]):
                if reg.kind == "vector" or st is not None:
                    chk.ob(en.name, "'already registered' is reported only when it is", shown_present(reg, r, x), loc,
                           "the reporting path does not establish that an entry equals the observer")
                if r.kind == "throw":
                    thrown_code(chk, en, r, codes_of(unit), "dup", loc)
            elif codes is not None and st == codes["full"] and reg.kind == "array":
                chk.ob(en.name, "'full' is reported only when it is",
                       decide(r.facts, ult(reg.len0, const(8 * reg.cap, 64)), False), loc,
                       f"reported although there is room (capacity {reg.cap})")
            elif codes is not None and st is not None:
                bad = shown_absent(reg, r, x)
                chk.ob(en.name, "the status of a rejected registration is 'full' or 'already registered'",
                       REFUTED if st in codes.values() else UNDEC, loc, f"status {st}")
            else:
                chk.ob(en.name, "the outcome is a known status", UNDEC, loc, str(r.ret))
    return n


def codes_of(unit):
    return unit.get("codes")


def load_codes(unit):
    """Status numbers as the current enumeration defines them."""
    out = {}
    for k in ("ok", "full", "dup", "missing", "broken", "recursion"):
        f = unit["by"].get("vp_code_" + k)
        if f is None:
            raise Broken("status constants are missing")
        an = engine.Analysis(f, unit)
        rs = [r for r in an.run() if r.kind == "ret"]
        out[k] = sval(rs[0].ret)
    if len(set(out.values())) != len(out):
        out["ambiguous"] = 1
    unit["codes"] = out
    return out


def thrown_code(chk, en, r, codes, want, loc):
    """The thrown exception object carries the expected status."""
    for e in r.events:
        if e.kind == "throw":
            obj = e.get("obj")
            if obj is None or "observable" not in str(e.get("type")):
                return
            v = en.an.load(r.st.mem, addc(obj, 8), 4, r.st)
            if is_int(v) and codes:
                chk.ob(en.name, f"the exception carries the status '{want}'", PROVED if sval(v) == codes[want] else REFUTED, loc, f"carries {sval(v)}")


def show_ranges(reg, r, x):
    rs = ranges_not_equal(reg, r, x)
    return "compared byte ranges: " + (", ".join(f"[{a},{b})" for a, b in rs) or "none") + f" of [0,{reg.len0})"


def rec_loc(r, en):
    return getattr(r, "loc", None) or (r.events[-1].loc if r.events else en.loc)


def check_appended(chk, en, reg, r, x, loc, name=""):
    mu = mutation_events(en, reg, r)
    if reg.kind == "vector":
        calls = [(w, e, l) for w, e, l in mu if w == "call"]
        apps = [e for w, e, l in calls if append_call(e, reg) is not None and l is None]
        v = UNDEC
        if len(apps) == 1 and len(mu) == 1:
            p = append_call(apps[0], reg)
            r0, _ = en.an.root(p)
            val = en.an.load(apps[0].mem, p, 8, r.st)
            v = eqv(r.facts, val, x)
            if val.op in ("arg",) and val is not x:
                v = REFUTED
        elif not mu:
            v = REFUTED
        elif len(apps) > 1:
            v = REFUTED
        elif len(mu) == 1 and insert_call(mu[0][1], reg):
            o, p = insert_call(mu[0][1], reg)
            v = both(eqv(r.facts, o, reg.len0), eqv(r.facts, en.an.load(mu[0][1].mem, p, 8, r.st), x))
        chk.ob(en.name, "an accepted registration appends exactly this observer", v, loc, f"registry changes on this path: {[e for _, e, _ in mu]}")
        return
    if not mu:
        chk.ob(en.name, "an accepted registration appends exactly this observer", REFUTED, loc, "nothing is recorded")
        return
    ln = reg.length(en, r)
    chk.ob(en.name, "an accepted registration grows the count by one", eqv(r.facts, ln, addc(reg.len0, 8)), loc, f"length becomes {ln}")
    good = False
    for w, e, loop in mu:
        if w != "elem":
            continue
        if loop is not None or e.kind != "store":
            chk.ob(en.name, "an accepted registration writes only its own entry", UNDEC, e.loc, f"{e}")
            continue
        o = reg.index(en.an, r.facts, e.addr)
        same = eqv(r.facts, o, reg.len0)
        if same == PROVED:
            good = True
            chk.ob(en.name, "the recorded entry is the observer", eqv(r.facts, e.val, x), e.loc, f"records {e.val}")
        else:
            # another entry is overwritten
            if eqv(r.facts, e.val, reg.elem(o)) != PROVED:
                chk.ob(en.name, "an accepted registration writes only its own entry", same, e.loc, f"writes entry at byte {o}, not at {reg.len0}")
        chk.ob(en.name, "the entry written lies inside the registry",
               decide(e.facts, ult(o, const(8 * reg.cap, 64)), True), e.loc, f"byte {o} of {8 * reg.cap}")
    if not good and not any(w == "elem" for w, _, _ in mu):
        chk.ob(en.name, "the recorded entry is the observer", REFUTED, loc, "no entry is written")


# ---------------------------------------------------------------- remove
def check_remove(chk, en, reg, x, codes, unit, quiet_missing=False):
    n = 0
    for r in en.recs:
        if r.kind in ("terminate", "noreturn", "unwind") or r.facts.empty():
            continue
        n += 1
        loc = rec_loc(r, en)
        st = sval(r.ret) if codes is not None and r.ret is not None and is_int(r.ret) else None
        mu = mutation_events(en, reg, r)
        if quiet_missing:
            # no status: a path either removes or shows the module absent
            if mu and unchanged(en, reg, r)[0] != PROVED:
                if shown_absent(reg, r, x) == PROVED and eqv(r.facts, reg.length(en, r), reg.len0) == REFUTED:
                    chk.ob(en.name, "removing a party that is not registered changes nothing", REFUTED, loc, "the length changes although every entry was compared and differs")
                    continue
                check_removed(chk, en, reg, r, x, loc)
            else:
                chk.ob(en.name, "nothing is removed only when the party is not registered", absent_or_undec(reg, r, x), loc,
                       "a path leaves the registry alone without having compared every entry (" + show_ranges(reg, r, x) + ")")
            continue
        ok = r.kind == "ret" and (codes is None or st == codes["ok"])
        if ok:
            check_removed(chk, en, reg, r, x, loc)
        else:
            v, e = unchanged(en, reg, r)
            chk.ob(en.name, "an unsuccessful removal changes nothing", v, e.loc if e is not None else loc, f"{e}")
            if r.kind == "throw" or st == (codes or {}).get("missing"):
                chk.ob(en.name, "'not registered' is reported only when it is so", absent_or_undec(reg, r, x), loc,
                       "reported without having compared every entry (" + show_ranges(reg, r, x) + ")")
                if r.kind == "throw":
                    thrown_code(chk, en, r, codes_of(unit), "missing", loc)
            elif codes is not None and st is not None:
                chk.ob(en.name, "the status of an unsuccessful removal is 'not registered'", REFUTED if st in codes.values() else UNDEC, loc, f"status {st}")
    return n


def absent_or_undec(reg, r, x):
    v = shown_absent(reg, r, x)
    if v == UNDEC and match_offsets(reg, r.facts, x):
        # the path knows the observer is registered
        if shown_present(reg, r, x) == PROVED:
            return REFUTED
    return v


def check_removed(chk, en, reg, r, x, loc):
    """The final registry is the initial one without x, order kept."""
    an, F = en.an, r.facts
    mu = mutation_events(en, reg, r)
    for e in r.events:
        if e.kind == "call" and REORDER.search(e.get("dem") or "") and e.args and reg.index(an, F, e.args[0]) is not None:
            chk.ob(en.name, "the order of the remaining entries is kept", REFUTED, e.loc, "a reordering algorithm is run over the entries: " + e.dem[:80])
            return
    if any(w == "call" for w, _, _ in mu):
        chk.ob(en.name, "a successful removal takes out exactly that entry", UNDEC, loc, "through an opaque container operation")
        return
    ln = reg.length(en, r)
    if not any(w == "len" for w, _, _ in mu) or eqv(F, ln, reg.len0) == PROVED:
        if shown_absent(reg, r, x) == PROVED:
            chk.ob(en.name, "success is reported only when an entry was removed", REFUTED, loc, "nothing was found")
            return
        chk.ob(en.name, "a successful removal shortens the registry", REFUTED, loc, f"length stays {ln}")
        return
    elem = [(e, loop) for w, e, loop in mu if w == "elem"]
    loops = []
    for e, loop in elem:
        if loop is not None and loop not in loops and any(e in al.events and not al.st.facts.empty() for al in loop.alts):
            loops.append(loop)
    plain = [e for e, loop in elem if loop is None and e.kind == "store"]
    copies = [e for e, loop in elem if loop is None and e.kind == "copy"]
    ms = match_offsets(reg, F, x)
    # a plain store that only clears the vacated entry is harmless
    clears = [e for e in plain if decide(F, ult(reg.index(an, F, e.addr), ln), False) == PROVED]
    plain = [e for e in plain if e not in clears]
    for e in clears:
        o = reg.index(an, F, e.addr)
        if reg.kind == "array":
            chk.ob(en.name, "the vacated entry lies inside the registry", decide(F, ult(o, const(8 * reg.cap, 64)), True), e.loc, f"byte {o} of {8 * reg.cap}")
    rule = "a successful removal takes out exactly that entry and keeps the rest in order"
    if plain:
        # recognised wrong shape: another entry moved into the hole
        if len(plain) == 1 and not loops and not copies and ms and eqv(F, reg.index(an, F, plain[0].addr), ms[0]) == PROVED:
            src = reg.is_elem(plain[0].val)
            if src is not None:
                v = eqv(F, src, addc(ms[0], 8))
                # correct only if the hole was the last or last but one entry
                tail = eqv(F, addc(ms[0], 16), reg.len0)
                chk.ob(en.name, rule, PROVED if both(v, tail) == PROVED else (REFUTED if REFUTED in (v, tail) else UNDEC), plain[0].loc,
                       f"entry {src} is moved over the removed one at {ms[0]}; the order of the others changes")
                return
        chk.ob(en.name, rule, UNDEC, loc, f"{plain}")
        return
    if not loops and not copies:
        if ms:
            one = eqv(F, ln, addc(reg.len0, -8))
            last = eqv(F, addc(ms[0], 8), reg.len0)
            if one == PROVED:
                chk.ob(en.name, rule, last, loc, f"no entry is moved although the removed one at byte {ms[0]} need not be the last")
            else:
                # truncation
                chk.ob(en.name, rule, REFUTED if last == REFUTED else (both(eqv(F, ln, ms[0]), last)), loc,
                       f"the length becomes {ln}, dropping entries other than the removed one")
        else:
            chk.ob(en.name, rule, UNDEC, loc, "no located entry")
        return
    if copies and not loops:
        if len(copies) == 1 and ms:
            c = copies[0]
            d, s = reg.index(an, F, c.dst), reg.index(an, F, c.src)
            if d is None or s is None:
                chk.ob(en.name, rule, UNDEC, c.loc, f"{c}")
                return
            v = [eqv(F, d, ms[0]), eqv(F, s, addc(ms[0], 8)), eqv(F, add(addc(ms[0], 8), c.n), reg.len0), eqv(F, ln, addc(reg.len0, -8))]
            chk.ob(en.name, rule, both(*v), c.loc, f"moves {c.n} bytes from {s} to {d}; removed entry at {ms[0]}, length {reg.len0} -> {ln}")
            return
        chk.ob(en.name, rule, UNDEC, loc, f"{copies}")
        return
    if len(loops) == 1 and not copies:
        check_compaction(chk, en, reg, r, x, loc, loops[0], ms, ln, rule)
        return
    chk.ob(en.name, rule, UNDEC, loc, "more than one moving loop")


def check_compaction(chk, en, reg, r, x, loc, lp, ms, ln, rule):
    an, F, K = en.an, r.facts, lp.K
    fa = [f for f in r.foralls if f.loop is lp]
    if not fa:
        chk.ob(en.name, rule, UNDEC, loc, "loop without summary")
        return
    count = fa[0].count
    wr, keep, drop = None, None, []
    read0 = None
    shape = True
    back = None
    moves = []
    for al in lp.alts:
        if al.st.facts.empty():
            continue
        st = [e for e in al.events if e.kind == "store" and reg.index(an, al.st.facts, e.addr) is not None]
        other = [e for e in al.events if e.kind in ("loop", "copy", "set") or touches_vec(e, reg)]
        if other or len(st) > 1:
            shape = False
            continue
        if st:
            e = st[0]
            o = reg.index(an, al.st.facts, e.addr)
            s = reg.is_elem(e.val)
            if s is None:
                shape = False
                s2 = reg.index(an, al.st.facts, e.val.a[0]) if e.val.op == "unk" else None
                if s2 is not None and len(lp.alts) == 1 and is_int(sub(s2, o)) and sval(sub(s2, o)) in (0, -8) and decide(F, ult(count, const(2, 64))) == REFUTED:
                    back = e
                a = affine(o, K)
                if a is not None and a[0] == -8 and len(lp.alts) == 1 and not is_int(a[1]) and F.holds(eq(reg.elem(a[1]), x)) is True:
                    # from the removed entry downwards: the ones before it are overwritten as soon as there are any
                    back = e
                continue
            moves.append((al, e, o, s))
        else:
            drop.append(al)
    if back is not None:
        chk.ob(en.name, rule, REFUTED, back.loc, "entries other than the removed one are overwritten")
        return
    if not shape or len(moves) != 1:
        chk.ob(en.name, rule, UNDEC, loc, "the moving loop is not a recognised filter or shift")
        return
    al, e, o, s = moves[0]
    sa = affine(s, K)
    wa_ = affine(o, K)
    if sa is not None and wa_ is not None and sa[0] == wa_[0] and sa[0] > 8 and not drop:
        # one entry moved per step, the next ones skipped
        chk.ob(en.name, rule, REFUTED if decide(F, ult(count, const(2, 64)), True) != PROVED else UNDEC, e.loc, f"moves only every {sa[0] // 8}th entry")
        return
    if sa is None or sa[0] != 8:
        chk.ob(en.name, rule, UNDEC, e.loc, f"reads {s}")
        return
    r0 = sa[1]
    wa = affine(o, K)
    c, d = lin_parts(o)
    ms_ = [a for a in d if a.op == "m"]
    if wa is not None and wa[0] == 8 and not ms_:
        # shift: every later entry moves by a constant distance
        w0 = wa[1]
        v = []
        if drop:
            chk.ob(en.name, rule, UNDEC, e.loc, "shift with skipped entries")
            return
        if not ms:
            chk.ob(en.name, rule, UNDEC, e.loc, "shift without a located entry")
            return
        v.append(eqv(F, w0, ms[0]))
        v.append(eqv(F, sub(r0, w0), const(8, 64)))
        # everything behind the hole is moved: r0 + 8*count == len0
        v.append(eqv(F, add(r0, mulc(count, 8)), reg.len0))
        v.append(eqv(F, ln, addc(reg.len0, -8)))
        chk.ob(en.name, rule, both(*v), e.loc,
               f"moves {count} entries from byte {r0} to byte {w0}; removed entry at {ms[0]}, length {reg.len0} -> {ln}")
        v2 = decide(al.st.facts, ult(s, reg.len0), True)
        chk.ob(en.name, "entries are moved only from the registered range", v2, e.loc, f"reads byte {s} of {reg.len0}")
        return
    if len(ms_) == 1 and d[ms_[0]] == 8:
        m = ms_[0]
        w0 = mk_lin(c, {a: k for a, k in d.items() if a is not m}, 64)
        if any(mentions(a, K) for a in lin_parts(w0)[1]):
            chk.ob(en.name, rule, UNDEC, e.loc, "filter with moving start")
            return
        # kept entries are exactly those different from x
        f = al.st.facts
        keepok = f.eq(s_term(reg, s), x)
        v = [PROVED if keepok is False else (REFUTED if keepok is True else UNDEC)]
        for dl in drop:
            q = dl.st.facts.eq(s_term(reg, s), x)
            v.append(PROVED if q is True else (REFUTED if q is False or not dl.lits else UNDEC))
        # the writer starts where the reader does, or just behind a located entry
        pre = eqv(F, w0, r0)
        if pre == PROVED:
            v.append(both(eqv(F, r0, Z)))
        else:
            v.append(eqv(F, r0, addc(w0, 8)))
            if ms:
                v.append(eqv(F, w0, ms[0]))
                v.append(covers(F, ranges_not_equal(reg, r, x), Z, ms[0]) if eqv(F, ms[0], Z) != PROVED else PROVED)
            else:
                v.append(UNDEC)
        v.append(eqv(F, add(r0, mulc(count, 8)), reg.len0))
        mfin = subst(m, {K: count})
        v.append(eqv(F, ln, add(w0, mulc(mfin, 8))))
        v = [UNDEC if (q == REFUTED and i not in (0,) and False) else q for i, q in enumerate(v)]
        chk.ob(en.name, rule, both(*v), e.loc, f"filter loop: reads from {r0}, writes from {w0}, {count} entries, length -> {ln}; parts {v}")
        return
    chk.ob(en.name, rule, UNDEC, e.loc, "the writer is neither a shift nor a filter")


def s_term(reg, s):
    return reg.elem(s)


# ---------------------------------------------------------------- deliveries to every entry
def check_foreach(chk, en, reg, r, per_alt, rule, loc, skip=None, ordered=True):
    """Every registered entry is visited exactly once, in order.  per_alt(alt, elem) -> (verdict, detail, loc):
    what each visit must do.  skip(alt, elem): True if the way is allowed to do nothing."""
    an, F = en.an, r.facts
    hits = []
    for e in r.events:
        if e.kind != "loop":
            continue
        lp = e.loop
        infos = []
        for al in lp.alts:
            if al.st.facts.empty():
                continue
            el = visited(reg, an, al)
            infos.append((al, el))
        if any(el for _, el in infos):
            hits.append((e, lp, infos))
    if not hits and not any(e.kind == "icall" or e.kind == "call" and touches(reg, e) for e in r.events):
        # entries looked at and left alone, with a delivery on the way out
        for e in r.events:
            if e.kind == "loop":
                infos = [(al, looked(reg, al)) for al in e.loop.alts if not al.st.facts.empty()]
                if infos and all(el and len(el) == 1 for _, el in infos):
                    hits.append((e, e.loop, infos))
        if len(hits) > 1:
            hits = []
    if not hits:
        # maybe nothing to visit
        v = decide(F, eq(reg.len0, Z), True)
        if v == PROVED:
            return PROVED
        sure = []
        opaque = any(e.kind in ("call", "icall") and touches(reg, e) for e in r.events) or any(may_visit(e, reg, sure) for e in r.events)
        few = sure and decide(F, ult(const(len(set(sure)), 64), reg.len0), True) == PROVED
        if sure and not few and decide(F, ult(reg.len0, const(len(set(sure)) + 1, 64)), True) != REFUTED:
            opaque = True
        chk.ob(en.name, rule, UNDEC if opaque or v == UNDEC else REFUTED, loc, "not all registered entries are visited on this path" if sure else "no registered entry is visited on this path")
        return UNDEC
    if len(hits) > 1:
        chk.ob(en.name, rule, UNDEC, loc, f"{len(hits)} loops visit the entries")
        return UNDEC
    e, lp, infos = hits[0]
    K = lp.K
    fa = [f for f in r.foralls if f.loop is lp]
    count = fa[0].count if fa else e.count
    idx = None
    first = [affine(o, K) for al, el in infos for o in el]
    lead = next((a for a in first if a and a[0]), None)
    for al, el in infos:
        if not el:
            continue
        if lead is not None:
            # an entry named otherwise but known to be the one this step is at
            el = [add(mulc(K, lead[0]), lead[1]) if (affine(o, K) or (1,))[0] == 0 and al.st.facts.eq(o, add(mulc(K, lead[0]), lead[1])) is True else o for o in el]
        offs = set(el)
        if len(offs) > 1:
            ks = [affine(o, K) for o in offs]
            if any(a and a[0] in (8, -8) for a in ks) and any(a and a[0] == 0 for a in ks) and not any(x.kind in ("call", "icall", "loop") and not (x.get("dem") or "").startswith("std::function<") for x in al.events):
                chk.ob(en.name, rule, REFUTED, lp.loc, f"one step visits the entries at {sorted(map(str, offs))}: some entry is visited more than once")
                return UNDEC
            chk.ob(en.name, rule, UNDEC, lp.loc, f"several entries per step: {offs}")
            return UNDEC
        o = next(iter(offs))
        a = affine(o, K)
        if a is None or a[0] == 0:
            w = narrow(o, K)
            if w and (reg.kind == "vector" or reg.cap > 1 << w):
                chk.ob(en.name, rule, REFUTED, lp.loc, f"a {w}-bit index cannot reach the entries from {1 << w} on")
                return UNDEC
            chk.ob(en.name, rule, UNDEC, lp.loc, f"entry {o}")
            return UNDEC
        if idx is not None and idx != a:
            chk.ob(en.name, rule, UNDEC, lp.loc, f"entries {idx} and {a}")
            return UNDEC
        idx = a
    k, r0 = idx
    if k == 8:
        v = both(eqv(F, r0, Z), eqv(F, mulc(count, 8), reg.len0))
        chk.ob(en.name, rule, v, lp.loc, f"visits bytes [{r0}, {r0}+8*{count}) of [0, {reg.len0})")
    elif k == -8 and is_int(r0) and ival(r0) == 0 and decide(F, ult(reg.len0, const(16, 64))) != PROVED:
        chk.ob(en.name, rule, REFUTED, lp.loc, "the visits start at the first entry and go backwards")
        return UNDEC
    elif k == -8:
        v = both(eqv(F, addc(r0, 8), reg.len0), eqv(F, mulc(count, 8), reg.len0))
        if not ordered:
            chk.ob(en.name, rule, v, lp.loc, f"visits bytes ({r0}-8*{count}, {r0}] of [0, {reg.len0})")
        else:
            chk.ob(en.name, rule, REFUTED if v == PROVED else UNDEC, lp.loc, "the entries are visited in reverse order")
    else:
        chk.ob(en.name, rule, REFUTED if k in (16, 24) else UNDEC, lp.loc, f"step of {k} bytes")
    el = reg.elem(add(mulc(K, k), r0))
    for al, _ in infos:
        f = al.st.facts.copy()
        if not f.add(eq(el, Z), False) or f.empty():
            continue          # only possible for a null entry
        if skip is not None and skip(al, el):
            continue
        for verdict, detail, l2 in per_alt(al, el):
            chk.ob(en.name, rule, verdict, l2 or lp.loc, detail)
    return PROVED


def touches(reg, e):
    if STD_MEMBER.search(e.get("dem") or ""):
        return False
    return any(a is getattr(reg, "vec", None) or a is reg.this for a in e.get("args", ()))


HARMLESS = re.compile(r"^(const |void |bool |int |unsigned long |char\b\S* )*(std::|__cxa_|__cxx|operator (new|delete)|__gnu_cxx::|_Hash_bytes|mem(cpy|set|move|cmp)\b|str(len|cmp)\b)")


def may_visit(e, top=None, sure=None):
    """Can this event, or one inside it, be a visit of an entry the analysis did not recognise?"""
    if e.kind == "loop":
        return any(may_visit(x) for al in e.loop.alts if not al.st.facts.empty() for x in al.events)
    if e.kind in ("vcall", "icall"):
        o = e.get("obj")
        if top is not None and o is not None and sure is not None:
            i = top.is_elem(o)
            if i is not None and is_int(i):
                # one entry at a fixed place: not all of them when there may be more
                sure.append(i)
                return False
        return top is None or o is None or not (o is top.this or o.op == "arg")
    if e.kind == "call":
        return top is None and not HARMLESS.match(e.get("dem") or e.get("name") or "")
    return False


def visited(reg, an, al):
    """Offsets of the entries a way through the loop calls or writes to."""
    out = []
    for e in al.events:
        t = None
        if e.kind == "vcall":
            t = e.obj
        elif e.kind in ("store", "rmw") and e.get("addr") is not None:
            t, _ = an.root(e.addr)
        elif e.kind in ("call", "icall"):
            for a in e.args:
                if a.w == 64:
                    q, _ = an.root(a) if not is_int(a) else (None, None)
                    if q is not None and reg.is_elem(q) is not None:
                        t = q
                        break
        if t is not None and t.w == 64:
            o = reg.is_elem(t)
            if o is not None:
                out.append(o)
    return out


def narrow(o, K):
    """The width of the counter when o is 8 times an iteration counter that wraps below 32 bits, from 0."""
    c, d = lin_parts(o)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 8 and a.op == "zext" and a.a[0].op == "trunc" and a.a[0].a[0] is K and a.a[0].w < 32:
            return a.a[0].w
    return None


def looked(reg, al):
    """Offsets of the moving entries a way's conditions depend on."""
    out = set()
    for a, p in al.lits:
        for q in find(a, lambda x: x.op == "ld" and x.a[1] == 8):
            o = reg.is_elem(q)
            if o is not None and affine(o, K_of(al)) and affine(o, K_of(al))[0]:
                out.add(o)
    return list(out)


def K_of(al):
    return al.K


def slot_of(unit, cls, fn):
    for t, tabs in unit["vtables"].items():
        if t == "vtable for " + cls:
            for tab in tabs:
                for i, n in enumerate(tab):
                    if n and n.startswith(f"{cls}::{fn}("):
                        return i - 2
    raise Broken(f"virtual {fn} of {cls} not found")


def vcalls(al, slot=None):
    return [e for e in al.events if e.kind == "vcall" and (slot is None or e.slot == slot)]
