import re
"""C18: the unbounded registry and the LRU cache touch their containers only under their own mutex."""
from ..core import *
from ..terms import *
from .. import build, engine
from .registry import rec_loc

A0 = mk("arg", (0,), 64)
CFG = "PTHREAD_MUTEX_DEFAULT=PTHREAD_MUTEX_DEFAULT"
MUTEX = re.compile(r"^std::(?:recursive_|timed_|recursive_timed_|shared_|shared_timed_|__shared_timed_|__)?mutex(?:_\w+)?(?:<.*>)?::(lock|unlock|try_lock|lock_shared|unlock_shared|try_lock_shared)\(\)$")
CONT = re.compile(r"^(?:std::)?(?:__cxx11::)?(?:vector|list|deque|map|multimap|set|unordered_map|unordered_set|array|observer_list|double_linked_list|hash_map)\b|^(std::)?.*::(vector|list|deque|unordered_map|map)<")
WRITES = re.compile(r"::(push_\w+|emplace\w*|try_emplace\w*|pop_\w+|erase|splice|insert\w*|operator\[\]|operator=|clear|remove\w*|assign|resize|swap|sort|merge|reverse|extract|rehash|reserve)(<.*>)?\(")

UNITS = {
    # unit, definitions, type prefix, entries (entry, object argument)
    "reg": ("dyn_obs", "xitren::comm::observable<", (("vp_add", 0), ("vp_remove", 0), ("vp_clear", 0), ("vp_notify", 0)), False),
    "lru": ("lru", "xitren::cache::lru<", (("vp_put", 0), ("vp_get", 1)), True),
}


def op_of(e):
    if e.kind != "call":
        return None
    m = MUTEX.match(e.get("dem") or "")
    if m:
        return m.group(1)
    n = e.get("name") or ""
    return {"pthread_mutex_lock": "lock", "pthread_mutex_unlock": "unlock"}.get(n)


def num(off):
    return off if off is None or isinstance(off, int) else ival(off) if is_int(off) else None


class Lk(engine.Analysis):
    obj = A0
    regions = ()
    deep = False

    def inside(self, addr, d=0):
        """Does the address lie in a guarded container of the object, or in memory it owns?"""
        r, off = self.root(addr)
        if r is None or d > 6:
            return False
        off = num(off)
        if r is self.obj:
            return off is not None and any(a <= off < b for a, b in self.regions)
        if r.op == "ld":
            rr, ro = self.root(r.a[0])
            ro = num(ro)
            if rr is self.obj:
                return ro is not None and any(a <= ro < b for a, b in self.regions)
            # what a container's memory points to is its own only when its elements are not pointers
            return self.deep and self.inside(r.a[0], d + 1)
        if r.op == "call":
            return r in self.own
        return False

    def traced(self, addr):
        return self.inside(addr)


def kids(e):
    return [(al, x) for al in e.loop.alts for x in al.events]


def fields(unit, tn):
    for name, rec in unit["layouts"].items():
        if name.startswith(tn) and "::" not in name[name.rfind(">"):]:
            fl = rec.flat()
            mx = [f for f in fl if "mutex" in f.type]
            cs = [f for f in fl if CONT.search(f.type) and not f.type.startswith("const ")]
            if mx or cs:
                yield name, mx, cs


def c18(chk, tier):
    for what, (u, tn, ents, deep) in UNITS.items():
        variants = [[]] if tier == "quick" else ([[], ["VP_T=double"]] if what == "reg" else [[], ["VP_EXC=false"], ["VP_K=long", "VP_V=char"]])
        if what == "lru" and tier == "quick":
            variants = [[], ["VP_EXC=false"]]
        for v in variants:
            unit = build.unit(u, [CFG] + v)
            fs = list(fields(unit, tn))
            if len(fs) != 1:
                chk.ob(u, "the guarded object is recognised", UNDEC, None, f"{[f[0] for f in fs]}")
                continue
            name, mx, cs = fs[0]
            chk.ob(name, "the configured object has a mutex of its own", PROVED if mx else REFUTED, None, f"no mutex among the members of {name}")
            for fn, k in ents:
                one(chk, unit, fn, mk("arg", (k,), 64), mx, cs, deep)


def one(chk, unit, fn, obj, mx, cs, deep):
    class A(Lk):
        pass
    A.obj, A.regions, A.deep, A.own = obj, [(f.off, f.off + f.size) for f in cs], deep, set()
    mus = {f.off for f in mx}

    def eff(an, e, st):
        d = e.get("dem") or ""
        if e.kind == "call" and e.args and an.inside(e.args[0]):
            A.own.add(e.ret)
            return []
        if op_of(e):
            return []
        return None
    en = chk.analyse(unit, fn, cls=A, unwind=True, effects=eff)
    if en.err:
        return
    an = en.an

    def own(a):
        r, off = an.root(a)
        return r is obj and num(off) in mus

    def step(e, st, path):
        """st: (depth, kind) or None when unknown."""
        op = op_of(e)
        if op:
            if not own(e.args[0]):
                r, _ = an.root(e.args[0])
                return st if r is not None and r.op == "alloca" else ("?",) if st != ("held",) else st
            if op in ("lock", "lock_shared"):
                if st in (("held",), ("read",)) and "recursive" not in (e.get("dem") or ""):
                    chk.ob(en.name, "the mutex is not locked twice", REFUTED, e.loc, "locked while already held by the same operation")
                return ("held",) if op == "lock" else ("read",)
            if op in ("unlock", "unlock_shared"):
                return ("free",)
            return ("try", e.ret)
        if e.kind == "loop":
            st0 = st
            for al in e.loop.alts:
                s = st0
                for x in al.events:
                    s = step(x, s, path)
                if s != st0:
                    st = ("?",)
            return st
        touch = None
        if e.kind in ("load", "store", "rmw", "cmpxchg", "copy", "set", "memset"):
            ads = [(a, k != "src") for k in ("addr", "dst", "src") if (a := e.get(k)) is not None]
            for a, wr in ads:
                if an.inside(a):
                    touch = "write" if (e.kind != "load" and wr) else touch or "read"
        elif e.kind in ("call", "vcall", "icall"):
            if any(a.w == 64 and an.inside(a) for a in e.args):
                d = e.get("dem") or ""
                touch = "write" if WRITES.search(d) else "read"
        if touch:
            s = st
            if s[0] == "try":
                h = e.facts.holds(s[1] if s[1].w == 1 else lnot(eq(s[1], const(0, s[1].w))))
                s = ("held",) if h else ("free",)
            v = PROVED if s == ("held",) or s == ("read",) and touch == "read" else UNDEC if s == ("?",) else REFUTED
            chk.ob(en.name, "a container is touched only under the object's mutex", v, e.loc, f"a container {touch} while the mutex is not held" if s != ("read",) else "written under a shared lock")
        if e.kind in ("call", "vcall", "icall", "throw") and st == ("held",) and not e.get("nounwind") and not e.get("handled"):
            path.append(e)
        return st

    for r in en.recs:
        if r.facts.empty() or r.kind == "noreturn":
            continue
        if any(e.kind == "unwound" and op_of(e.call) for e in r.events):
            continue
        st, path = ("free",), []
        for e in r.events:
            st = step(e, st, path)
        if r.kind == "terminate":
            continue
        if st[0] == "try":
            h = r.facts.holds(st[1] if st[1].w == 1 else lnot(eq(st[1], const(0, st[1].w))))
            st = ("held",) if h else ("free",) if h is False else ("?",)
        chk.ob(en.name, "the mutex is released on every way out", PROVED if st == ("free",) else UNDEC if st == ("?",) else REFUTED, rec_loc(r, en),
               f"leaves ({r.kind}) with the mutex held")
    # a call that may raise and is not covered by a cleanup leaves with the mutex held
    bare = {i["id"] for b in en.an.fn["blocks"] for i in b["is"] if i["op"] == "call" and i.get("callee") and not i.get("nounwind") and not i.get("intr")}
    seen = set()

    def scan(evs, st):
        for e in evs:
            op = op_of(e)
            if op and own(e.args[0]):
                st = "held" if op in ("lock", "lock_shared") else "free" if op.startswith("unlock") else "?"
                continue
            if e.kind == "loop":
                for al in e.loop.alts:
                    scan(al.events, st)
                continue
            if e.kind in ("call", "vcall", "icall") and st == "held" and e.get("id") in bare and e.get("id") not in seen and not e.get("noret"):
                seen.add(e.get("id"))
                chk.ob(en.name, "the mutex is released when a call under it raises", REFUTED, e.loc, f"an exception out of {(e.get('dem') or 'the callback')[:80]} leaves with the mutex held")
    for r in en.recs:
        if not r.facts.empty():
            scan(r.events, "free")
