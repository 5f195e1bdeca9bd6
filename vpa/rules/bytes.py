"""C31: little- and big-endian fields; C32: byte conversion.

Both by provenance of bits (vpa/bits.py), for a little- and a big-endian target."""
from ..core import *
from .. import build, bits
from ..bits import Ptr


class An:
    def __init__(self, it, fn):
        self.inst_count, self.fn = it.steps, fn


def analyse(chk, unit, name, big, oracle=None, reads=None):
    """The paths of one entry, or None (and an undecided obligation)."""
    chk.units.add((unit["unit"], tuple(unit["defs"]) + (("big-endian",) if big else ())))
    f = unit["by"].get(name) or next((g for g in unit["functions"] if g["name"] == name), None)
    if f is None:
        raise Broken(f"entry {name} of {unit['unit']} is missing from the normalised module")
    it = bits.Interp(f, big, oracle, reads)
    try:
        recs, err = it.run(), None
    except bits.TooBig as e:
        recs, err = [], str(e)
    chk.entries.append(Entry(name, unit, recs, An(it, f), err))
    if err:
        chk.ob(name, "the entry point can be summarised", UNDEC, None, "too many " + err)
        return None
    chk.falls_off(name, unit, recs)
    return recs


def floc(unit, name):
    f = unit["by"].get(name) or {}
    for b in f.get("blocks", []):
        for i in b["is"]:
            for fr in i.get("loc") or []:
                if "/include/xitren/" in str(fr[0]):
                    return i["loc"]
    return []


def sure(b):
    """The bit is determined (nothing about it is unknown)."""
    if b in (0, 1):
        return True
    if b[0] in ("u", "fp"):
        return False
    return all(sure(x) if isinstance(x, tuple) and x and x[0] in ("in", "arg", "call", "xor", "not", "cmp", "u", "undef", "ptr") else True for x in b[1:])


def witnesses(chk, pre, items, flags=(), tgt="", loc=None):
    """Compile-time facts: items (name, rule, expression), each decided by a static_assert of its own."""
    txt, lines = pre, {}
    for nm, rule, e in items:
        lines[txt.count("\n") + 1] = (nm, rule, e)
        txt += f"static_assert({e});\n"
    errs = build.compile_only(txt, flags)
    hit = {n for f, n, m, _ in errs if f in ("<stdin>", "-") and "static assertion failed" in m}
    rest = [m for f, n, m, _ in errs if not (f in ("<stdin>", "-") and n in hit)]
    for n, (nm, rule, e) in lines.items():
        chk.ob(nm, tgt + rule, REFUTED if n in hit else UNDEC if rest else PROVED, loc, e)


class Eqs:
    """Bits known equal on a path: the equality conditions taken."""

    def __init__(self, lits):
        self.p = {}
        self.other = 0
        for c, v in lits:
            if v and isinstance(c, tuple) and c[0] == "cmp" and c[1] == "eq":
                for a, b in zip(c[2], c[3]):
                    a, b = self.f(a), self.f(b)
                    if a != b:
                        if a in (0, 1):
                            a, b = b, a
                        self.p[a] = b
            elif v is not None and isinstance(c, tuple) and c[0] in ("in", "arg", "call"):
                self.p[self.f(c)] = int(v)
            else:
                self.other += 1

    def f(self, x):
        while x in self.p:
            x = self.p[x]
        return x


def same(got, want, lits=()):
    """Verdict: the bits are those wanted on a path with these conditions."""
    if got == want:
        return PROVED
    if not isinstance(got, tuple) or len(got) != len(want):
        return UNDEC
    e = Eqs(lits)
    bad = [(g, w) for g, w in zip(got, want) if e.f(g) != e.f(w)]
    if not bad:
        return PROVED
    if e.other > 1 or any(not sure(g) for g, w in bad):
        return UNDEC
    return REFUTED


def show(got, want):
    for k, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return f"bit {k} is {nm(g)}, not {nm(w)}"
    return ""


def nm(b):
    if b in (0, 1):
        return f"always {b}"
    if b[0] == "in":
        return f"bit {b[3]} of byte {b[2]} of {on(b[1])}"
    if b[0] == "arg":
        return f"bit {b[2]} of argument {b[1]}"
    if b[0] == "call":
        return f"bit {b[2]} of the result of call {b[1]}"
    if b[0] == "undef":
        return "not initialised"
    return "a mixture"


def on(o):
    return f"argument {o[1]}" if o[0] == "arg" else f"{o[0]} {o[1:]}"


def in_range(chk, name, rule, rec, limits, loc):
    """Every access of a path stays within [0, n) of the objects named in limits: {(kind, object): n}."""
    v, what = PROVED, ""
    for e in rec.events:
        if e.kind not in ("load", "store"):
            continue
        if e.obj and e.obj[0] in ("glob", "fn") and e.kind == "load":
            continue
        n = limits.get((e.kind, e.obj))
        if e.obj is None or e.obj[0] == "wild" or e.off is None or e.n is None:
            if v == PROVED:
                v, what, loc = UNDEC, "an access at an unknown place", e.loc
            continue
        if n is None or e.off < 0 or e.off + e.n > n:
            f = REFUTED if not rec.lits or len(rec.lits) == 1 else UNDEC
            if v != REFUTED:
                v, what, loc = f, f"{e.kind} of bytes {e.off}..{e.off + e.n - 1} of {on(e.obj)}" + (f", which has {n}" if n else ""), e.loc or loc
    chk.ob(name, rule, v, loc, what)


FIELDS = [("lsb16", 2, True), ("lsb32", 4, True), ("lsb64", 8, True), ("msb16", 2, False), ("msb32", 4, False), ("msb64", 8, False)]
PRED = {"eq": {"eq"}, "ne": {"lt", "gt"}, "lt": {"lt"}, "gt": {"gt"}, "le": {"lt", "eq"}, "ge": {"gt", "eq"}}


def argbytes(n, size):
    """Bytes of a value handed over in register n, least significant first."""
    return [tuple(("arg", n, 8 * k + j) for j in range(8)) for k in range(size)]


def inbytes(obj, size, off=0):
    return [tuple(("in", obj, off + i, j) for j in range(8)) for i in range(size)]


def c31(chk, tier):
    txt = "#include <xitren/func/data.hpp>\n#include <type_traits>\n"
    lines = {}
    for c in ("lsb_t", "msb_t"):
        for t in ("std::uint16_t", "std::uint32_t", "std::uint64_t"):
            for rule, e in (("its size is exactly that of the value", f"sizeof(xitren::func::{c}<{t}>) == sizeof({t})"),
                            ("it needs no alignment of its own, so it can follow any byte", f"alignof(xitren::func::{c}<{t}>) == 1"),
                            ("its bytes can be copied", f"std::is_trivially_copyable_v<xitren::func::{c}<{t}>>")):
                lines[txt.count("\n") + 1] = (f"{c}<{t}>", rule, e)
                txt += f"static_assert({e});\n"
    for big in (False, True):
        errs = build.compile_only(txt, build.BIG if big else [])
        hit = {n for f, n, m, _ in errs if f in ("<stdin>", "-") and "static assertion failed" in m}
        rest = [m for f, n, m, _ in errs if not (f in ("<stdin>", "-") and n in hit)]
        for n, (t, rule, e) in lines.items():
            chk.ob(t, ("big-endian target: " if big else "") + rule, REFUTED if n in hit else UNDEC if rest else PROVED, "include/xitren/func/data.hpp:112", e)
    for big in (False, True):
        tgt = "big-endian target: " if big else ""
        u = build.unit("bytes", bare=True, flags=build.BIG if big else [])
        for fld, n, little in FIELDS:
            # byte i of the field holds the value's byte of this significance
            sig = list(range(n)) if little else list(range(n - 1, -1, -1))
            for op in ("ctor", "ctor_rv", "assign"):
                nme = f"vp_{fld}_{op}"
                recs = analyse(chk, u, nme, big)
                if recs is None:
                    continue
                if op == "ctor":
                    src = inbytes(("arg", 1), n)      # the plain value, in the target's own order
                    src = list(reversed(src)) if big else src
                else:
                    src = argbytes(1, n)
                loc = floc(u, nme)
                order = "least" if little else "most"
                for r in recs:
                    if r.kind != "ret":
                        chk.ob(nme, tgt + "storing returns", UNDEC, r.loc, r.kind)
                        continue
                    got = tuple(b for i in range(n) for b in (r.st.mem.get(("arg", 0), {}).get(i) or inbytes(("arg", 0), 1, i)[0]))
                    if "bad" in r.st.mem.get(("arg", 0), {}):
                        chk.ob(nme, tgt + f"the value is stored {order} significant byte first", UNDEC, loc, "overwritten in an unknown way")
                        continue
                    want = tuple(b for i in range(n) for b in src[sig[i]])
                    chk.ob(nme, tgt + f"the value is stored {order} significant byte first", same(got, want, r.lits), loc, show(got, want))
                    lim = {("store", ("arg", 0)): n, ("load", ("arg", 0)): n, ("load", ("arg", 1)): n}
                    in_range(chk, nme, tgt + "only the field's own bytes are touched", r, lim, loc)
            nme = f"vp_{fld}_assign_ret"
            for r in analyse(chk, u, nme, big) or []:
                if r.kind == "ret":
                    chk.ob(nme, tgt + "assignment returns the field itself", PROVED if r.ret == Ptr(("arg", 0), 0) else REFUTED if isinstance(r.ret, Ptr) and r.ret.obj[0] in ("arg", "alloca") else UNDEC,
                           floc(u, nme), repr(r.ret))
            nme = f"vp_{fld}_get"
            for r in analyse(chk, u, nme, big) or []:
                if r.kind != "ret":
                    chk.ob(nme, tgt + "reading returns", UNDEC, r.loc, r.kind)
                    continue
                mem = inbytes(("arg", 0), n)
                want = tuple(b for k in range(n) for b in mem[sig.index(k)])
                chk.ob(nme, tgt + "reading gives the value of the stored bytes", same(r.ret, want, r.lits), floc(u, nme), show(r.ret, want) if isinstance(r.ret, tuple) else "")
                in_range(chk, nme, tgt + "only the field's own bytes are touched", r, {("load", ("arg", 0)): n}, floc(u, nme))
            for op in ("copy", "copy_assign"):
                nme = f"vp_{fld}_{op}"
                for r in analyse(chk, u, nme, big) or []:
                    if r.kind != "ret":
                        continue
                    got = tuple(b for i in range(n) for b in (r.st.mem.get(("arg", 0), {}).get(i) or inbytes(("arg", 0), 1, i)[0]))
                    want = tuple(b for x in inbytes(("arg", 1), n) for b in x)
                    chk.ob(nme, tgt + "a copy holds the same bytes", same(got, want, r.lits), floc(u, nme), show(got, want))
            for op, ok in PRED.items():
                for suf in ("", "_plain"):
                    nme = f"vp_{fld}_{op}{suf}"
                    if nme not in u["by"]:
                        continue
                    compare(chk, u, nme, big, tgt, n, sig, ok, suf == "_plain")
        for k, n in ((16, 2), (32, 4), (64, 8)):
            nme = f"vp_swap{k}"
            for r in analyse(chk, u, nme, big) or []:
                if r.kind != "ret":
                    continue
                want = tuple(b for x in reversed(argbytes(0, n)) for b in x)
                chk.ob(nme, tgt + "swapping reverses all bytes", same(r.ret, want, r.lits), floc(u, nme), show(r.ret, want) if isinstance(r.ret, tuple) else "")
        for r in analyse(chk, u, "vp_is_lsb", big) or []:
            chk.ob("vp_is_lsb", tgt + "is_lsb tells the target's byte order", PROVED if r.ret == (int(not big),) else REFUTED if r.ret == (int(big),) else UNDEC,
                   "include/xitren/func/data.hpp:27", repr(r.ret))



def compare(chk, u, nme, big, tgt, n, sig, ok, plain):
    """The result is that of the plain comparison, for every relation between the two values' bytes (all of which can occur)."""
    X, Y = {}, {}
    for i in range(n):
        for j in range(8):
            X[("in", ("arg", 0), i, j)] = (sig[i], j)
            if plain:
                Y[("arg", 1, 8 * i + j)] = (i, j)
            else:
                Y[("in", ("arg", 1), i, j)] = (sig[i], j)

    def side(bs, m):
        """Significances of the bytes, most significant first, or None; leading zeros are dropped on both sides."""
        out = []
        for k in range(0, len(bs), 8):
            x = [m.get(b) if b not in (0, 1) else b for b in bs[k:k + 8]]
            if all(b == 0 for b in x):
                out.append("0")
            elif all(isinstance(b, tuple) and b[1] == j and b[0] == x[0][0] for j, b in enumerate(x)):
                out.append(x[0][0])
            else:
                return None
        return list(reversed(out))

    def oracle(st, pred, a, b):
        if len(a) != len(b) or len(a) % 8:
            return None
        sa, sb, flip = side(a, X), side(b, Y), False
        if sa is None or sb is None:
            # an equality of differences: X ^ Y == 0
            if pred == "eq" and bits.cval(b) == 0 and all(isinstance(t, tuple) and t[0] == "xor" or t == 0 for t in a):
                pa, pb = [], []
                for t in a:
                    if t == 0:
                        pa.append(0), pb.append(0)
                        continue
                    p, q = t[1], t[2]
                    if p in Y:
                        p, q = q, p
                    pa.append(p), pb.append(q)
                sa, sb = side(pa, X), side(pb, Y)
            else:
                sa, sb, flip = side(a, Y), side(b, X), True
            if sa is None or sb is None:
                return None
        if any((p == "0") != (q == "0") for p, q in zip(sa, sb)):
            return None
        top0 = sa[0] == "0"
        ks = [(p, q) for p, q in zip(sa, sb) if p != "0"]
        if not ks:
            return None
        sgn = pred[0] == "s" and not top0
        diff = pred == "subneg" and not top0
        if pred == "subneg":
            pred = "ult"
        base = pred[-2:] if pred not in ("eq", "ne") else pred
        true = PRED[base]
        if flip:
            true = {{"lt": "gt", "gt": "lt", "eq": "eq"}[t] for t in true}
        if any(p != q for p, q in ks):
            if ("mixed", a, b) in st.memo:
                return st.memo[("mixed", a, b)] in true
            def upm(s, r):
                s.memo[("mixed", a, b)] = r
                s.lits.append((("mixed",), True))
            return [((r in true), (lambda s, r=r: upm(s, r))) for r in ("lt", "eq", "gt")]
        out = []

        def rec(i, add):
            if i == len(ks):
                out.append(("eq", dict(add)))
                return
            k = ks[i][0]
            key = ("srel" if sgn and i == 0 else "rel", k)
            known = st.memo.get(key)
            if known is None and key[0] == "srel" and st.memo.get(("rel", k)) == "eq":
                known = "eq"
            if known is None and key[0] == "rel" and st.memo.get(("srel", k)) == "eq":
                known = "eq"
            for r in ("lt", "gt", "eq"):
                if known is not None and known != r:
                    continue
                more = dict(add)
                if known is None:
                    more[key] = r
                    if r == "eq":
                        more[("rel", k)] = more[("srel", k)] = "eq"
                    elif st.memo.get(("rel" if key[0] == "srel" else "srel", k)) == "eq":
                        continue
                if r == "eq":
                    rec(i + 1, more)
                else:
                    out.append((r, more))
        rec(0, {})
        if diff:
            # the sign of a wrapping difference: either, once the first bytes differ
            k0, res = ks[0][0], []
            for r, add in out:
                first = add.get(("rel", k0), st.memo.get(("rel", k0)))
                for val in ((True, False) if first in ("lt", "gt") else (r in true,)):
                    res.append((val, (lambda s, add=add: s.memo.update(add))))
            return res
        return [((r in true), (lambda s, add=add: s.memo.update(add))) for r, add in out]

    recs = analyse(chk, u, nme, big, oracle)
    if recs is None:
        return
    loc = floc(u, nme)
    rule = tgt + "the comparison agrees with that of the plain values"
    for r in recs:
        v, why = UNDEC, ""
        got = bits.cval(r.ret) if isinstance(r.ret, tuple) and len(r.ret) in (1, 8, 32) else None
        if r.kind != "ret" or got is None or (r.lits and r.lits != [(("mixed",), True)]):
            chk.ob(nme, rule, UNDEC, loc, "the result does not depend on the two values alone")
            continue
        if r.lits:
            # differently ordered bytes compared with each other: every outcome goes with every relation of the values
            chk.ob(nme, rule, REFUTED, loc, "compares differently ordered bytes of the two values")
            continue
        # the relations of the values this path leaves possible
        poss, k = {"eq"}, n - 1
        while k >= 0:
            x = r.st.memo.get(("rel", k))
            if x is None and r.st.memo.get(("srel", k)) is not None:
                poss = {"lt", "gt"}
                break
            if x is None:
                low = any(r.st.memo.get((t, j)) in ("lt", "gt") for t in ("rel", "srel") for j in range(k))
                poss = {"lt", "gt"} if low else {"lt", "gt", "eq"}
                break
            if x != "eq":
                poss = {x}
                break
            k -= 1
        wrong = sorted(x for x in poss if (x in ok) != bool(got))
        words = dict(lt="less", gt="greater", eq="equal")
        chk.ob(nme, rule, REFUTED if wrong else PROVED, loc, f"can be {'true' if got else 'false'} when the first value is {' or '.join(words[x] for x in wrong)}" if wrong else "")


PADDING = {"pad": set(range(1, 8)) | set(range(18, 24))}


def c32(chk, tier):
    txt = "#include <xitren/func/data.hpp>\n#include <type_traits>\nstruct vp_w { std::uint8_t b[37]; };\nstruct __attribute__((__packed__)) vp_o { std::uint8_t a; std::uint32_t b; std::uint16_t c; };\n"
    lines = {}
    for t in ("std::uint8_t", "std::uint32_t", "double", "vp_w", "vp_o", "xitren::func::lsb_t<std::uint16_t>"):
        for rule, e in (("the serialised array has one byte per byte of the value", f"std::is_same_v<decltype(xitren::func::data<{t}>::serialize(std::declval<{t} const&>())), std::array<std::uint8_t, sizeof({t})>>"),
                        ("the overlay is no larger than the value", f"sizeof(xitren::func::data<{t}>) == sizeof({t})")):
            lines[txt.count("\n") + 1] = (t, rule, e)
            txt += f"static_assert({e});\n"
    errs = build.compile_only(txt)
    hit = {n for f, n, m, _ in errs if f in ("<stdin>", "-") and "static assertion failed" in m}
    rest = [m for f, n, m, _ in errs if not (f in ("<stdin>", "-") and n in hit)]
    for n, (t, rule, e) in lines.items():
        chk.ob(t, rule, REFUTED if n in hit else UNDEC if rest else PROVED, "include/xitren/func/data.hpp:46", e)
    for big in (False, True):
        tgt = "big-endian target: " if big else ""
        u = build.unit("convert", bare=True, flags=build.BIG if big else [])
        for nm_ in [f["name"][3:-5] for f in u["functions"] if f["name"].endswith("_size")]:
            rs = analyse(chk, u, f"vp_{nm_}_size", big)
            n = bits.cval(rs[0].ret)
            skip = PADDING.get(nm_, ())
            for op in ("ser", "put", "putv", "putat", "putrev", "des", "desm", "desv", "desat", "desrev", "trip"):
                nme = f"vp_{nm_}_{op}"
                recs = analyse(chk, u, nme, big)
                if recs is None:
                    continue
                loc = floc(u, nme)
                out, src = ("arg", 0), ("arg", 1)
                do = 3 if op == "putat" else 0
                so = 3 if op == "desat" else 0
                rule = {"s": "serialising yields the object's bytes in order", "p": "serialising yields the object's bytes in order",
                        "d": "deserialising puts every byte in its own place", "t": "deserialising what was serialised gives the same bytes"}[op[0]]
                for r in recs:
                    if r.kind != "ret":
                        chk.ob(nme, tgt + "the conversion returns", UNDEC, r.loc, r.kind)
                        continue
                    m = r.st.mem.get(out, {})
                    if "bad" in m:
                        chk.ob(nme, tgt + rule, UNDEC, loc, "overwritten in an unknown way")
                        continue
                    vs, why = PROVED, ""
                    for i in range(n):
                        k = n - 1 - i if op in ("putrev", "desrev") else i
                        if i in skip and op not in ("putrev",) or k in skip and op == "putrev":
                            continue
                        want = tuple(("in", src, so + k, j) for j in range(8))
                        got = m.get(do + i) or tuple(("in", out, do + i, j) for j in range(8))
                        v = same(got, want, r.lits)
                        if v == REFUTED or v == UNDEC and vs == PROVED:
                            if vs != REFUTED:
                                vs, why = v, f"byte {i}: " + show(got, want)
                    chk.ob(nme, tgt + rule, vs, loc, why)
                    lim = {("store", out): n + do, ("load", out): n + do, ("load", src): n + so}
                    in_range(chk, nme, tgt + "nothing outside the source and the target is touched", r, lim, loc)
                    low = [e for e in r.events if e.kind in ("load", "store") and e.off is not None and (e.obj == out and e.off < do or e.obj == src and e.off < so)]
                    if do or so:
                        chk.ob(nme, tgt + "nothing before the position handed over is touched", REFUTED if low and not r.lits else PROVED if not low else UNDEC, low[0].loc if low else loc,
                               f"{low[0].kind} of byte {low[0].off}" if low else "")
