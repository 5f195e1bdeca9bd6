"""C33: the in-place holder: lifetime typestate of the held object, its place, and what must not compile."""
from ..core import *
from .. import build, bits
from ..bits import Ptr
from .bytes import analyse, floc, same, show, in_range

HDR = "include/xitren/func/fast_pimpl.hpp"
CTORS = {"vp_new0": ("V::V()", ()), "vp_new2": ("V::V(int, char*)", (1, 2)), "vp_newl": ("V::V(M const&)", (1,)), "vp_newc": ("V::V(M const&)", (1,)),
         "vp_newr": ("V::V(M&&)", (1,)), "vp_newv": ("V::V(V const&)", (1,)), "vp_newvr": ("V::V(V&&)", (1,)),
         "vp_copy": ("V::V(V const&)", "o"), "vp_copym": ("V::V(V const&)", "o"), "vp_move": ("V::V(V&&)", "o")}


def cnum(chk, u, nme):
    rs = analyse(chk, u, nme, False)
    return bits.cval(rs[0].ret) if rs and len(rs) == 1 else None


class Life:
    """The objects of the held type along one path: alive or not, and what each was made from."""

    def __init__(self, alive):
        self.alive = dict.fromkeys(alive, None)
        self.bad = []
        self.made, self.gone, self.set = [], [], []
        self.killed_before_source = False

    def step(self, e, threw):
        d = e.dem
        this = e.args[0] if e.args else None
        if not d.startswith("V::"):
            return None
        if not isinstance(this, Ptr):
            return "unknown"
        src = e.args[1] if len(e.args) > 1 else None
        org = self.origin(src) if isinstance(src, Ptr) else None
        if d.startswith("V::V("):
            if threw:
                return None
            if this in self.alive:
                self.bad.append((e, "constructs an object where one is alive"))
            if isinstance(src, Ptr) and "M" not in d and src not in self.alive and "V" in d[4:]:
                self.bad.append((e, "constructs from an object that is not alive"))
            self.alive[this] = (d, org, [self.origin(a) if isinstance(a, Ptr) else a for a in e.args[1:]])
            self.made.append((this, d, org, e))
        elif d.startswith("V::~V("):
            if this not in self.alive:
                self.bad.append((e, "destroys an object that is not alive"))
            else:
                del self.alive[this]
            self.gone.append((this, e))
        elif d.startswith("V::operator="):
            for p in (this, src):
                if isinstance(p, Ptr) and p not in self.alive:
                    self.bad.append((e, "assigns with an object that is not alive"))
            if not threw:
                self.set.append((this, d, org, e))
                if this in self.alive:
                    self.alive[this] = (d, org, [])
        return None

    def origin(self, p):
        """Where the value of the object at p came from."""
        a = self.alive.get(p)
        if a is not None and a[1] is not None:
            return a[1]
        return p


def life(rec, alive):
    lf = Life(alive)
    thrown = {c[1] - 1 for c, v in rec.lits if isinstance(c, tuple) and c[0] == "throws"}
    unk = False
    for k, e in enumerate(rec.events):
        if e.kind == "call":
            if lf.step(e, k in thrown) == "unknown":
                unk = True
    return lf, unk


def c33(chk, tier):
    cfgs = [("40", "8", "true VP_PAD=24"), ("16", "8", "false"), ("16", "8", "true"), ("64", "16", "false"), ("24", "32", "false")]
    if tier == "thorough":
        cfgs += [("17", "8", "false"), ("4096", "64", "false"), ("32", "8", "false"), ("32", "16", "false")]
    witnesses(chk)
    for s, a, st in cfgs:
        st, *more = st.split()
        u = build.unit("pimpl", ["VP_SIZE=" + s, "VP_ALIGN=" + a, "VP_STRICT=" + st] + more, bare=True)
        holder(chk, u, f"<{s}, {a}, {st}> ")


def holder(chk, u, tg):
    size, align, vsize, valign = (cnum(chk, u, f"vp_{n}") for n in ("size", "align", "vsize", "valign"))
    k = None
    for nme in ("vp_derefc", "vp_deref", "vp_arrow", "vp_arrowc"):
        for r in analyse(chk, u, nme, False) or []:
            if r.kind != "ret":
                continue
            p, loc = r.ret, floc(u, nme) or HDR + ":1"
            if not isinstance(p, Ptr):
                cst = bits.cval(p) is not None and not r.lits
                chk.ob(nme, tg + "access gives the object in the holder's own storage", REFUTED if cst else UNDEC, loc, f"gives the constant {bits.cval(p)}" if cst else repr(p)[:80])
                continue
            if k is None and p.obj == ("arg", 0):
                k = p.off
                chk.ob(nme, tg + "the object lies within the holder", PROVED if 0 <= k and k + vsize <= size else REFUTED, loc,
                       f"{vsize} bytes at offset {k} of a holder of {size}")
                chk.ob(nme, tg + "the object is aligned", PROVED if k % valign == 0 and align % valign == 0 else REFUTED, loc,
                       f"offset {k} in a holder aligned to {align}, needs {valign}")
            ok = p == Ptr(("arg", 0), k)
            chk.ob(nme, tg + "access gives the object in the holder's own storage", PROVED if ok else REFUTED if p.obj[0] in ("arg", "alloca", "glob", "abs") and not r.lits or p.obj[0] == "pt" and not r.lits else UNDEC, loc,
                   "" if ok else f"gives {p}")
    if k is None:
        return
    O, S = Ptr(("arg", 0), k), Ptr(("arg", 1), k)
    for nme, (ctor, args) in CTORS.items():
        loc = floc(u, nme) or HDR + ":1"
        for r in analyse(chk, u, nme, False) or []:
            alive = {S} if args == "o" else {Ptr(("arg", 1), 0)} if nme.startswith("vp_newv") else set()
            lf, unk = life(r, alive)
            common(chk, nme, tg, r, lf, unk, loc)
            here = O in lf.alive
            if r.kind in ("unwind", "noret", "unreachable"):
                chk.ob(nme, tg + "a construction that throws leaves no object behind", UNDEC if unk else PROVED if not here or r.kind != "unwind" else REFUTED, loc, "the object is left constructed")
                continue
            made = [m for m in lf.made if m[0] == O]
            elsewhere = [m for m in lf.made if m[0] != O and m[0].obj[0] != "alloca"]
            v = PROVED if here and len(made) == 1 else REFUTED
            if v == REFUTED and (unk or len(r.lits) > 1):
                v = UNDEC
            chk.ob(nme, tg + "the object is constructed once, in the holder's storage", v, (made[1][3].loc if len(made) > 1 else elsewhere[0][3].loc if elsewhere else loc),
                   f"{len(made)} constructions there" + (f", one at {elsewhere[0][0]}" if elsewhere else ""))
            if args == "o":
                chk.ob(nme, tg + "the other holder keeps its object", PROVED if S in lf.alive else UNDEC if unk or len(r.lits) > 1 else REFUTED, loc, "it is destroyed")
            if v != PROVED:
                continue
            d, org, aorg = lf.alive[O]
            e = made[0][3]
            if args == "o":
                chk.ob(nme, tg + "the new object is constructed from the other's object", PROVED if org == S else REFUTED if isinstance(org, Ptr) and org.obj[0] in ("arg", "alloca") or org is None else UNDEC, e.loc,
                       f"constructed by {d} from {org}")
                chk.ob(nme, tg + ("moving" if nme == "vp_move" else "copying") + " uses that constructor of the object", PROVED if d == ctor or org == S and any(m[1] == ctor for m in lf.made) else REFUTED, e.loc, d)
            else:
                ok = d == ctor or any(m[1] == ctor for m in lf.made)
                chk.ob(nme, tg + "the object's constructor is the one the arguments choose", PROVED if ok else REFUTED, e.loc, f"{d}, not {ctor}")
                if ok and d == ctor:
                    want = [Ptr(("arg", n), 0) if u["by"][nme]["args"][n]["ty"] == "p" else tuple(("arg", n, j) for j in range(32)) for n in args]
                    got = e.args[1:]
                    okk = list(got) == want
                    chk.ob(nme, tg + "the arguments are passed on unchanged", PROVED if okk else REFUTED if all(isinstance(x, (Ptr, tuple)) for x in got) and not r.lits else UNDEC, e.loc, "")
            # nothing is written over the object afterwards
            after = False
            for x in r.events:
                if x is e:
                    after = True
                elif after and x.kind == "store" and x.obj == ("arg", 0):
                    n = x.n
                    hit = x.off is not None and n is not None and x.off < k + vsize and x.off + n > k
                    chk.ob(nme, tg + "nothing is written over the constructed object", REFUTED if hit and not [c for c, _ in r.lits if c[0] != "throws"] else UNDEC, x.loc, f"bytes {x.off}..{(x.off or 0) + (n or 0) - 1}")
    nme = "vp_del"
    for r in analyse(chk, u, nme, False) or []:
        lf, unk = life(r, {O})
        loc = floc(u, nme) or HDR + ":1"
        common(chk, nme, tg, r, lf, unk, loc)
        if r.kind == "ret":
            n = sum(1 for g in lf.gone if g[0] == O)
            v = PROVED if n == 1 and O not in lf.alive else REFUTED
            chk.ob(nme, tg + "the object is destroyed once with its holder", v if v == PROVED or not unk and len(r.lits) < 2 else UNDEC, loc, f"{n} destructions")
    for nme in ("vp_asg", "vp_asgm"):
        loc = floc(u, nme) or HDR + ":1"
        for r in analyse(chk, u, nme, False) or []:
            lf, unk = life(r, {O, S})
            common(chk, nme, tg, r, lf, unk, loc)
            chk.ob(nme, tg + "assignment leaves an object in the holder, whether or not it throws", UNDEC if unk else PROVED if O in lf.alive or r.kind not in ("ret", "unwind") else REFUTED, loc, "the object is gone")
            chk.ob(nme, tg + "the other holder keeps its object", UNDEC if unk else PROVED if S in lf.alive or r.kind not in ("ret", "unwind") else REFUTED, loc, "it is destroyed")
            if r.kind != "ret":
                continue
            chk.ob(nme, tg + "assignment returns the holder itself", PROVED if r.ret == Ptr(("arg", 0), 0) else REFUTED if isinstance(r.ret, Ptr) and r.ret.obj[0] in ("arg", "alloca") else UNDEC, loc, repr(r.ret)[:60])
            selfeq = any(self_test(c) for c, v in r.lits)
            if any(self_test(c) == ("eq" if v else "ne") for c, v in r.lits):
                continue
            srcs = [x[2] for x in lf.set if x[0] == O] + [x[2] for x in lf.made if x[0] == O]
            chk.ob(nme, tg + "assignment takes the other's object", PROVED if srcs and srcs[-1] == S else UNDEC if unk or r.lits and not selfeq else REFUTED, loc, f"takes {srcs[-1] if srcs else 'nothing'}")
            if not selfeq:
                # the two may be the same holder
                dead = False
                for e in [x for x in r.events if x.kind == "call"]:
                    if e.dem.startswith("V::~V(") and e.args[0] == O:
                        dead = True
                    elif dead and len(e.args) > 1 and e.args[1] == S:
                        chk.ob(nme, tg + "a holder can be assigned to itself", REFUTED, e.loc, "its object is destroyed before it is used as the source")
    qs = cnum(chk, u, "vp_qsize")
    for nme, want in (("vp_qnew", "v"), ("vp_qcopy", "o"), ("vp_qmove", "o"), ("vp_qasg", "o"), ("vp_qasgm", "o"), ("vp_qset", "v"), ("vp_qget", "r")):
        loc = floc(u, nme) or HDR + ":1"
        for r in analyse(chk, u, nme, False) or []:
            if r.kind != "ret" or any(self_test(c) == ("eq" if v else "ne") for c, v in r.lits):
                continue
            lits = [(c, v) for c, v in r.lits if not self_test(c)]
            if want == "r":
                got, w = r.ret, tuple(("in", ("arg", 0), k + i, j) for i in range(8) for j in range(8))
            else:
                m = r.st.mem.get(("arg", 0), {})
                if "bad" in m:
                    continue
                got = tuple(b for i in range(8) for b in (m.get(k + i) or tuple(("in", ("arg", 0), k + i, j) for j in range(8))))
                w = tuple(("arg", 1, j) for j in range(64)) if want == "v" else tuple(("in", ("arg", 1), k + i, j) for i in range(8) for j in range(8))
            chk.ob(nme, tg + "a plain number keeps its value", same(got, w, lits), loc, show(got, w) if isinstance(got, tuple) else "")
            in_range(chk, nme, tg + "only the holders are touched", r, {(a, ("arg", n)): qs for a in ("load", "store") for n in (0, 1) if (a, n) != ("store", 1)}, loc)


def self_test(c):
    """'eq'/'ne' when the condition compares the addresses of the two holders."""
    if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ne") and c[2] and c[3]:
        a, b = c[2][0], c[3][0]
        if all(isinstance(x, tuple) and x[0] == "ptr" for x in (a, b)) and {a[1], b[1]} == {("arg", 0), ("arg", 1)}:
            return c[1]
    return None


def common(chk, nme, tg, r, lf, unk, loc):
    real = [c for c, v in r.lits if c[0] != "throws"]
    for e, why in lf.bad[:1]:
        chk.ob(nme, tg + "no object is used before its construction or after its destruction", UNDEC if unk or len(real) > 1 else REFUTED, e.loc, why)
    if not lf.bad:
        chk.ob(nme, tg + "no object is used before its construction or after its destruction", PROVED, loc)
    temps = [p for p in lf.alive if p.obj[0] == "alloca"]
    if temps and r.kind in ("ret", "unwind"):
        chk.ob(nme, tg + "no temporary object is left behind", UNDEC if unk or len(real) > 1 else REFUTED, loc, f"{temps[0]} is never destroyed")


PRE = """#include <cstddef>
#include <cstdint>
#include <xitren/func/fast_pimpl.hpp>
namespace xf = xitren::func;
struct b1 { char c; }; struct b16 { long a, b; }; struct b24 { long a[3]; }; struct b33 { char c[33]; };
struct alignas(16) a16 { char c[16]; }; struct alignas(64) a64 { char c[64]; };
template <class T, std::size_t S, std::size_t A, bool X> void use() { xf::fast_pimpl<T, S, A, X> p{}; (void)*p; }
"""
REJECT = [("a stated size smaller than the object", ["b16, 15, 8, false", "b16, 8, 8, false", "b24, 16, 8, false", "b33, 32, 1, false", "b24, 23, 8, true", "a64, 63, 64, false", "b16, 1, 16, true"]),
          ("a stated alignment that does not suit the object", ["b16, 16, 4, false", "b16, 16, 1, false", "a16, 16, 8, false", "a64, 64, 32, false", "a64, 128, 16, false", "a16, 16, 8, true", "b16, 64, 2, false"]),
          ("in strict mode, a stated size that differs", ["b16, 17, 8, true", "b16, 24, 8, true", "b33, 40, 1, true", "a64, 128, 64, true", "b1, 2, 1, true", "b24, 32, 8, true"])]
ACCEPT = ["b16, 16, 8, true", "b16, 16, 8, false", "b16, 64, 8, false", "b16, 16, 32, false", "b16, 24, 16, false", "b33, 33, 1, true", "b33, 40, 2, false", "a64, 64, 64, true", "a64, 128, 64, false", "a16, 16, 64, true", "b1, 1, 1, true"]
LATE = """
struct outer { outer(); ~outer(); outer(outer const&); outer(outer&&); outer& operator=(outer const&); int get() const;
  private: struct impl; xf::fast_pimpl<impl, 32, 16> p_; };
int vp_uses(outer& o) { return o.get(); }
struct outer::impl { int v; char b[20]; impl() : v{} {} explicit impl(int x) : v{x} {} };
outer::outer() : p_{3} {} outer::~outer() = default; outer::outer(outer const&) = default; outer::outer(outer&&) = default;
outer& outer::operator=(outer const&) = default; int outer::get() const { return p_->v; }
"""


def witnesses(chk):
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(why, t, False) for why, ts in REJECT for t in ts] + [("a size and an alignment that suit the object", t, True) for t in ACCEPT]
    chk.units.add(("fast_pimpl.hpp", ()))
    base = build.compile_only(PRE)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: build.compile_only(PRE + f"template void use<{j[1]}>();\n", limit=3), jobs))
        late = build.compile_only(PRE + LATE, limit=3)
    for (why, t, good), errs in zip(jobs, res):
        if base:
            v = UNDEC
        elif good:
            v = REFUTED if errs else PROVED
        else:
            v = PROVED if errs else REFUTED
        chk.ob(f"fast_pimpl<{t}>", ("compiles: " if good else "does not compile: ") + why, v, HDR + ":17", (errs[0][2][:120] if errs else "it compiles"))
    chk.ob("fast_pimpl<incomplete>", "compiles: an object whose type is completed later", UNDEC if base else REFUTED if late else PROVED, HDR + ":17", late[0][2][:120] if late else "")
