"""Obligations, verdicts and the objects the rules work on."""
import itertools
import json
import os
import time
from . import build, engine
from .terms import *
from .terms import T
from .facts import Facts

PROVED, REFUTED, UNDEC = "proved", "refuted", "undecided"
FREE = ("arg", "ld", "k", "m", "ald", "glob", "obj", "new", "alloca", "hole", "cnt0", "tyid")


def free_atom(a, extra=()):
    if a.op in FREE or a in extra:
        if a.op == "ld" and a.a[2] != 0:
            return a in extra
        return True
    if a.op == "and" and is_int(a.a[1]) and is_pow2(ival(a.a[1]) + 1) and ival(a.a[1]) <= 15:
        return True
    if a.op in ("zext", "sext", "trunc"):
        return free_atom(a.a[0], extra)
    return False


def leafs(t):
    """The linear atoms of a boolean or numeric term."""
    if t.op in ("not", "eq0"):
        return leafs(t.a[0])
    if t.op in ("ult", "slt", "band", "bor", "bxor"):
        return leafs(t.a[0]) | leafs(t.a[1])
    if is_int(t):
        return set()
    if t.w == 1:
        return {t}
    return set(lin_parts(t)[1])


def decide(facts, atom, pol=True, free=()):
    """proved / refuted / undecided for a literal at a point with the given facts."""
    while atom.op == "not":
        atom, pol = atom.a[0], not pol
    r = facts.holds(atom)
    if r is not None and r == pol:
        return PROVED
    f = facts.copy()
    if not f.add(atom, not pol) or f.empty():
        return PROVED
    if facts.bad:
        return PROVED
    # the negation is consistent with everything the domain knows; is everything relevant known?
    rel = leafs(f.norm(atom)) | leafs(atom)
    lits = [(leafs(f.norm(a)), a) for a, p in f.lits]
    opq = [(leafs(f.norm(a)) | leafs(a), a, p) for a, p in f.opq]
    ch = True
    while ch:
        ch = False
        for ls, a in lits + [(x[0], x[1]) for x in opq]:
            if ls & rel and not ls <= rel:
                rel |= ls
                ch = True
    # a completed loop either did not run, or its last iteration took one of its ways
    lps = [(K, ways) for K, ways in f.loops if K in rel or set(lin_parts(f.norm(K))[1]) & rel]
    if lps:
        n = 1
        for K, ways in lps:
            n *= len(ways) + 1
        if n <= 64:
            alive = [f]
            for K, ways in lps:
                nxt = []
                for g in alive:
                    h = g.copy()
                    if h.add(eq(K, const(0, 64)), True) and not h.empty():
                        nxt.append(h)
                    last = {K: addc(K, -1)}
                    for w in ways:
                        h = g.copy()
                        if h.add(eq(K, const(0, 64)), False) and all(h.add(subst(a, last), p) for a, p in w) and not h.empty():
                            nxt.append(h)
                alive = nxt
            if not alive:
                return PROVED
    opq = [(a, p) for ls, a, p in opq if ls & rel]
    if opq:
        cs = f.wrap_cases(opq)
        if cs is None:
            return UNDEC
        if not cs:
            return PROVED
    for a in rel:
        if not free_atom(a, free):
            return instance(facts, atom, pol, rel, free)
    if two_widths([f.norm(a) for a, _ in f.lits] + [f.norm(atom)], rel):
        return instance(facts, atom, pol, rel, free)
    return REFUTED


def two_widths(atoms, rel):
    """Is one unknown compared at more than one width?  The domain does not relate these."""
    seen = {}
    for t in atoms:
        while t.op == "not":
            t = t.a[0]
        for x in t.a if t.op in ("ult", "slt", "eq0") else ():
            for a in lin_parts(x)[1]:
                if a.op in ("zext", "sext") and leafs(a) & rel:
                    if seen.setdefault(a.a[0], a) is not a:
                        return True
                elif a in rel and a.w < 64 and seen.setdefault(a, a) is not a:
                    return True
    return False


JOINT = (0, 1, 2, 3, 100, 190, 256, 1000, (1 << 64) - 1, (1 << 64) - 200)
SAMPLES = (0, 1, 255, 256, 65536, (1 << 32) + 1, 1 << 63)


def instance(facts, atom, pol, rel, free):
    """A value of one free atom that the facts allow and that makes the literal false by mere folding."""
    base = set()
    for a in rel:
        base |= {x for x in atoms_under(a)}
    if len(base) > 3 or not all(free_atom(x, free) for x in base):
        return UNDEC
    if 1 < len(base) and len(base) <= 3:
        # all of them at once: every related fact must fold to true
        lits, todo = [], True
        rb = set(base)
        while todo:
            todo = False
            for a, p in list(facts.lits) + list(facts.opq):
                if (a, p) in lits:
                    continue
                bs = atoms_under(a)
                if bs & rb:
                    lits.append((a, p))
                    rb |= bs
                    todo = True
        if len(rb) <= 3 and all(free_atom(x, free) for x in rb):
            rs = sorted(rb, key=lambda x: x.n if hasattr(x, "n") else id(x))
            for cs in itertools.product(JOINT, repeat=len(rs)):
                m = {x: const(c, x.w) for x, c in zip(rs, cs)}
                t = subst(atom, m)
                if t.op == "int" and bool(ival(t)) != pol and all((u := subst(a, m)).op == "int" and bool(ival(u)) == p for a, p in lits):
                    return REFUTED
    for x in base:
        for c in SAMPLES:
            if c >> x.w:
                continue
            t = subst(atom, {x: const(c, x.w)})
            h = None
            if t.op == "int":
                h = bool(ival(t))
            if h is None or h == pol:
                continue
            f = facts.copy()
            if f.add(eq(x, const(c, x.w)), True) and not f.empty() and not any(mentions(a, x) for a, p in f.opq):
                return REFUTED
    return UNDEC


VALS = (0, 1, 2, 3, 7, 10, 95, 1000, 123456789)


def differ(facts, x, y, free):
    """Do values of the free terms that the facts allow make x and y different?"""
    free = sorted(free, key=str)
    if not free or len(free) > 6:
        return False
    for n in range(24):
        m = {}
        h = facts.copy()
        ok = True
        for j, a in enumerate(free):
            v = VALS[(n * (j + 1) + 3 * j + n // len(VALS)) % len(VALS)]
            if a.w >= 32 and n >= 12:
                v = v * 1000003 + 17 * j
            m[a] = const(v, a.w)
            ok = ok and h.add(eq(a, m[a]), True)
        if not ok or h.empty():
            continue
        p, q = subst(x, m), subst(y, m)
        if is_int(p) and is_int(q) and p is not q:
            return True
    return False


def unknowns(t, ops=("phi", "m", "ald", "ld", "call")):
    """The unknowns a term is made of."""
    out, st = set(), [t]
    while st:
        x = st.pop()
        if x.op in ops or x.op in ("arg", "unk", "k"):
            out.add(x)
            continue
        for y in x.a:
            z = [y]
            while z:
                w = z.pop()
                if hasattr(w, "op"):
                    st.append(w)
                elif isinstance(w, tuple):
                    z.extend(w)
    return out


def atoms_under(t):
    if is_int(t):
        return set()
    if t.op in FREE and not (t.op == "ld" and t.a[2] != 0):
        return {t}
    kids = [k for k in t.a if isinstance(k, T)] if t.op != "lin" else list(lin_parts(t)[1])
    if t.op in ("phi", "unk", "call", "ald", "undef", "m", "k") or not kids:
        return {t}
    out = set()
    for k in kids:
        out |= atoms_under(k)
    return out


def eqv(facts, x, y, free=()):
    if x is y:
        return PROVED
    if x.w != y.w:
        return UNDEC
    return decide(facts, eq(x, y), True, free)


def both(*vs):
    if any(v == REFUTED for v in vs):
        return REFUTED
    return PROVED if all(v == PROVED for v in vs) else UNDEC


class Ob:
    __slots__ = ("entry", "rule", "verdict", "loc", "detail", "key")

    def __init__(self, entry, rule, verdict, loc, detail, key):
        self.entry, self.rule, self.verdict, self.loc, self.detail, self.key = entry, rule, verdict, loc, detail, key


def short(loc):
    """file:line (function) of the repository construct an event comes from."""
    for fr in loc or []:
        f = str(fr[0])
        if "/include/xitren/" in f:
            i = f.index("/include/xitren/")
            return f"{f[i + 1:]}:{fr[1]}"
    for fr in loc or []:
        return f"{fr[0]}:{fr[1]}"
    return "?"


def func_of(loc):
    for fr in loc or []:
        if "/include/xitren/" in str(fr[0]):
            return fr[2] if len(fr) > 2 else ""
    return ""


class Entry:
    """The analysis of one entry point."""

    def __init__(self, name, unit, recs, an, err=None):
        self.name, self.unit, self.recs, self.an, self.err = name, unit, recs, an, err

    def rets(self):
        return [r for r in self.recs if r.kind == "ret"]

    def load(self, rec, addr, size):
        return self.an.load(rec.st.mem, addr, size, rec.st)

    @property
    def loc(self):
        for b in self.an.fn["blocks"]:
            for i in b["is"]:
                for fr in i.get("loc") or []:
                    if "/include/xitren/" in str(fr[0]):
                        return i["loc"]
        return []


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.obs, self.notes, self.units, self.entries = [], [], set(), []
        self.counts = {}
        self.broken = []
        self.positives = []

    def ob(self, entry, rule, verdict, loc=None, detail="", key=None):
        self.obs.append(Ob(entry, rule, verdict, short(loc) if not isinstance(loc, str) else loc, detail, key))
        return verdict

    def note(self, s):
        self.notes.append(s)

    def analyse(self, unit, fn, layout=None, cls=engine.Analysis, **kw):
        """Entry for unit (from build.unit) and the demangled name of an entry point."""
        self.units.add((unit["unit"], tuple(unit["defs"])))
        f = unit["by"].get(fn)
        if f is None:
            raise Broken(f"entry {fn} of {unit['unit']} is missing from the normalised module")
        lay = {}
        for i, tn in (layout or {}).items():
            rec = unit["layouts"].get(tn)
            if rec is not None:
                lay[mk("arg", (i,), 64) if isinstance(i, int) else i] = rec.flat()
        try:
            an = cls(f, unit, layout=lay, **kw)
            recs = an.run()
            err = None
        except engine.TooBig:
            recs, err = [], "too many paths"
        except engine.Irreducible:
            recs, err, an = [], "irreducible control flow", None
        e = Entry(fn, unit, recs, an, err)
        self.entries.append(e)
        if err:
            self.ob(fn, "the entry point can be summarised", UNDEC, None, err)
        self.falls_off(fn, unit, recs)
        return e

    def falls_off(self, fn, unit, recs):
        """A way through the entry that ends where a function should have returned a value; the front end agrees."""
        for r in recs:
            if getattr(r, "falls", False) and unit.get("falls") and not (hasattr(r, "facts") and r.facts.empty()):
                self.ob(fn, "every way through a function that returns a value returns one", REFUTED, r.loc, "the end of the function is reached without a value")
                return


class Broken(Exception):
    pass
