"""C34: fixed packets: layout, the range the checksum covers, the verdict (provenance of bits, vpa/bits.py)."""
from ..core import *
from .. import build, bits
from ..bits import Ptr
from .bytes import analyse, floc, same, show, sure, in_range, Eqs, inbytes, witnesses

READS = {"vp_crc16": [(0, 1)], "vp_crc32": [(0, 1)], "vp_crc8": [(0, 1)]}
CRCLITTLE = {"pa": True, "pb": False, "pc": True, "pd": False, "pe": True}


def size(chk, u, nme, big):
    rs = analyse(chk, u, nme, big)
    return bits.cval(rs[0].ret) if rs and len(rs) == 1 else None


def obj_bytes(r, obj, n, off=0):
    m = r.st.mem.get(obj, {})
    if "bad" in m:
        return None
    return [m.get(off + i) or tuple(("in", obj, off + i, j) for j in range(8)) for i in range(n)]


def flat(bs):
    return tuple(b for x in bs for b in x)


def calls(r):
    return [e for e in r.events if e.kind == "call"]


def crc_bytes(k, n, little):
    """Stored bytes of the result of call k."""
    bs = [tuple(("call", k, 8 * i + j) for j in range(8)) for i in range(n)]
    return bs if little else list(reversed(bs))


def covers(chk, nme, rule, r, k, want, loc):
    """Call k was given exactly the wanted bytes."""
    e = calls(r)[k - 1]
    got = e.data.get(0)
    if got is None:
        n = bits.cval(e.args[READS[e.name][0][1]])
        if n is not None and not r.lits:
            chk.ob(nme, rule, REFUTED, e.loc, f"{n - (1 << 64) if n >> 63 else n} bytes, not {len(want)}")
            return
        chk.ob(nme, rule, UNDEC, e.loc, "the range is not of a fixed size")
        return
    if len(got) != len(want):
        chk.ob(nme, rule, REFUTED if not r.lits else UNDEC, e.loc, f"{len(got)} bytes, not {len(want)}")
        return
    chk.ob(nme, rule, same(flat(got), flat(want), r.lits), e.loc, show(flat(got), flat(want)))


def pairs_of(c):
    """The set of unordered bit pairs an equality condition compares, or None."""
    if isinstance(c, tuple) and c[0] == "cmp" and c[1] == "eq":
        ps = set()
        for a, b in zip(c[2], c[3]):
            for x, y in ((a, b),):
                if isinstance(x, tuple) and x[0] == "xor" and y == 0:
                    x, y = x[1], x[2]
                ps.add(frozenset((x, y)))
        return ps
    return None


def leaves(x, out):
    """The elementary bits a bit or condition depends on."""
    if not isinstance(x, tuple) or not x:
        return out
    if x[0] in ("in", "arg", "call", "u", "fp", "undef", "ptr"):
        out.add(x)
        return out
    for y in x:
        if isinstance(y, tuple):
            leaves(y, out)
    return out


def possible(lits):
    """The conditions of a path can certainly all hold together: each is satisfiable and no two speak of the same bits."""
    seen = set()
    for c, v in lits:
        if not (isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("eq", "ult", "ule", "ugt", "uge")):
            return False
        ls = leaves(c, set())
        if not ls or ls & seen or any(l[0] not in ("in", "call") for l in ls):
            return False
        seen |= ls
        cells = [x for x in tuple(c[2]) + tuple(c[3]) if x not in (0, 1)]
        if len(cells) != len(set(cells)) or any(x[0] not in ("in", "call") for x in cells):
            return False
        if c[1] != "eq" and len(cells) < 2:
            return False
    return True


def same_calls(r):
    """call number -> the first call with the same function and the same bytes."""
    first, m = {}, {}
    for k, e in enumerate(calls(r), 1):
        key = (e.name if hasattr(e, "name") else None, flat(e.data[0]) if e.data.get(0) is not None else k)
        m[k] = first.setdefault(key, k)
    return m


def subst(x, m):
    if not isinstance(x, tuple) or not x:
        return x
    if x[0] == "call":
        return ("call", m.get(x[1], x[1])) + x[2:]
    return tuple(subst(y, m) for y in x)


def verdict(recs, bit_of, stored, computed):
    """(verdict, why, loc): the bit is one exactly when the stored bits are the computed ones."""
    out = (PROVED, "", None)
    want = {frozenset((a, b)) for a, b in zip(stored, computed)}
    used, known = set(), True
    rows = []
    for r in recs:
        m = same_calls(r)
        b, lits = subst(bit_of(r), m), [(subst(c, m), v) for c, v in r.lits]
        rows.append((r, b, lits))
        for x in [b] + [c for c, v in lits]:
            known = known and x is not None and (x in (0, 1) or sure(x))
            leaves(x, used)
    if recs and known:
        if not used & set(stored):
            return REFUTED, "does not look at the stored checksum", recs[0].loc
        if not used & set(computed):
            return REFUTED, "does not look at the computed checksum", recs[0].loc
    for r, b, lits in rows:
        yes, no, other = set(), [], 0
        for c, v in lits:
            p = pairs_of(c)
            if p is None:
                other += 1
            elif v:
                yes |= p
            else:
                no.append(p)
        flip = False
        while isinstance(b, tuple) and b and b[0] == "not":
            b, flip = b[1], not flip
        if b in (0, 1):
            b ^= int(flip)
            ok = possible(lits)
            if b == 1:
                if want <= yes:
                    continue
                res = (REFUTED if ok or (not other and not no and yes <= want) else UNDEC, f"is reported valid although {len(want - yes)} of the {len(want)} checksum bits are not compared")
            else:
                if any(p <= want for p in no):
                    continue
                res = (REFUTED if ok and not any(p & want for p in no) else UNDEC, "is reported invalid on a path on which the checksum may be right")
        else:
            p = pairs_of(b)
            if p is None:
                single = isinstance(b, tuple) and b and b[0] == "cmp" and not lits and possible([(b, True)])
                res = (REFUTED if single else UNDEC, "the verdict is no comparison for equality" if single else "the verdict is computed in an unknown way")
            elif flip:
                res = (REFUTED if all(sure(x) for q in p for x in q) and not lits else UNDEC, "is reported valid exactly when a comparison fails")
            elif want <= (p | yes) and p <= want and not no and yes <= want and not other:
                continue
            elif not all(sure(x) for q in p for x in q):
                res = (UNDEC, "compares something unknown")
            else:
                res = (REFUTED if not lits else UNDEC, "compares something else than the stored and the computed checksum")
        if out[0] != REFUTED:
            out = res + (r.loc,)
    return out


LAYOUT = """#include <cstdint>
#include <cstddef>
#include <xitren/func/packet.hpp>
namespace xf = xitren::func;
template <class V> struct crc_of { using value_type = V; template <class It> static V calculate(It, It) noexcept; };
struct __attribute__((__packed__)) p7 { std::uint8_t magic; std::uint32_t id; std::uint16_t n; };
struct b1 { std::uint8_t v; };
struct w4 { std::uint32_t v; };
struct d8 { double v; };
struct b24 { std::uint8_t v[24]; };
"""


def c34(chk, tier):
    parts = ("p7", "b1", "w4", "d8", "b24")
    crcs = ("xf::lsb_t<std::uint16_t>", "xf::msb_t<std::uint32_t>", "xf::lsb_t<std::uint64_t>")
    items = []
    for h in parts:
        for f in parts:
            for c in crcs:
                t = f"xf::packet<{h}, {f}, crc_of<{c}>>"
                n = f"sizeof({h}) + sizeof({f}) + sizeof({c})"
                items += [(t, "header, fields and checksum follow each other without gaps", f"sizeof({t}) == {n} && {t}::length == {n}"),
                          (t, "the array of a packet has one byte per byte of it", f"sizeof(typename {t}::array_type) == {n}")]
    for big in (False, True):
        witnesses(chk, LAYOUT, items, build.BIG if big else [], "big-endian target: " if big else "", "include/xitren/func/packet.hpp:32")
    for big in (False, True):
        tgt = "big-endian target: " if big else ""
        u = build.unit("packet", bare=True, flags=build.BIG if big else [])
        for nm in ("pa", "pb", "pc", "pd", "pe"):
            one(chk, u, nm, big, tgt)


def one(chk, u, nm, big, tgt):
    H, F, C, S, L = (size(chk, u, f"vp_{nm}_{x}", big) for x in ("h", "f", "c", "size", "length"))
    little = CRCLITTLE[nm]
    HDR = "include/xitren/func/packet.hpp:27"
    chk.ob(f"vp_{nm}_size", tgt + "header, fields and checksum follow each other without gaps", PROVED if S == L == H + F + C else REFUTED, HDR, f"{S} bytes, length {L}, not {H}+{F}+{C}")

    def go(op):
        nme = f"vp_{nm}_{op}"
        rs = analyse(chk, u, nme, big, None, READS)
        loc = floc(u, nme) or HDR
        good = []
        for r in rs or []:
            if r.kind == "ret":
                good.append(r)
            elif r.kind != "unreachable":
                chk.ob(nme, tgt + "the operation returns", UNDEC, r.loc, r.kind)
        return nme, good, loc

    # building and serialising
    for op in ("build", "ser"):
        nme, rs, loc = go(op)
        want = inbytes(("arg", 1), H) + inbytes(("arg", 2), F)
        for r in rs:
            got = obj_bytes(r, ("arg", 0), H + F + C)
            if got is None:
                chk.ob(nme, tgt + "header and fields are laid out one after the other", UNDEC, loc, "overwritten in an unknown way")
                continue
            chk.ob(nme, tgt + "header and fields are laid out one after the other", same(flat(got[:H + F]), flat(want), r.lits), loc, show(flat(got[:H + F]), flat(want)))
            crc = flat(got[H + F:])
            k = next((b[1] for b in crc if isinstance(b, tuple) and b[0] == "call"), None)
            w = flat(crc_bytes(k, C, little)) if k else flat(crc_bytes(1, C, little))
            chk.ob(nme, tgt + "the checksum computed is stored behind them", same(crc, w, r.lits) if k or all(sure(b) for b in crc) else UNDEC, loc, show(crc, w))
            if k:
                covers(chk, nme, tgt + "the checksum is computed over header and fields, all of them and nothing else", r, k, want, loc)
            in_range(chk, nme, tgt + "nothing outside the packet is touched", r,
                     {("store", ("arg", 0)): H + F + C, ("load", ("arg", 0)): H + F + C, ("load", ("arg", 1)): H, ("load", ("arg", 2)): F}, loc)
    # the verdict
    nme, rs, loc = go("valid")
    P = inbytes(("arg", 0), H + F + C)

    def judge(stored, bit_of):
        cks = []
        for r in rs:
            ks = sorted(set(same_calls(r).values()))
            cks.append(ks)
            if len(ks) == 0:
                b = bit_of(r)
                if b in (0, 1) and (not r.lits or possible(r.lits)):
                    chk.ob(nme, tgt + "the verdict is that of the checksum", REFUTED, r.loc or loc, "the checksum is not computed")
                elif b in (0, 1) or b is None or r.lits:
                    chk.ob(nme, tgt + "the verdict is that of the checksum", UNDEC, r.loc or loc, "the checksum is not computed")
                else:
                    chk.ob(nme, tgt + "the verdict is that of the checksum", REFUTED if sure(b) else UNDEC, r.loc or loc, "the checksum is not computed")
            for k in ks[:1]:
                covers(chk, nme, tgt + "the checksum is computed over header and fields, all of them and nothing else", r, k, stored[0], loc)
            if len(ks) > 1:
                chk.ob(nme, tgt + "the verdict is that of the checksum", UNDEC, r.loc or loc, f"{len(ks)} different checksums are computed")
        if rs and all(len(k) == 1 for k in cks):
            v, why, l = verdict(rs, bit_of, flat(stored[1]), flat(crc_bytes(1, C, little)))
            chk.ob(nme, tgt + "a packet is valid exactly when the stored checksum is the computed one", v, l or loc, why)
    for r in rs:
        now = obj_bytes(r, ("arg", 0), H + F + C)
        if now != P:
            v = UNDEC if now is None else same(flat(now), flat(P), r.lits)
            chk.ob(nme, tgt + "looking at a packet does not change it", v, loc, show(flat(now or []), flat(P)))
        in_range(chk, nme, tgt + "nothing outside the packet is touched", r, {("load", ("arg", 0)): H + F + C}, loc)
    judge((P[:H + F], P[H + F:]), lambda r: r.ret[0] if isinstance(r.ret, tuple) else None)
    # the bytes as received
    for op, what in (("arr", "a packet made of an array"), ("iter", "a packet read from an iterator"), ("iterv", "a packet read from an iterator"), ("toarr", "the array of a packet"),
                     ("desit", "a deserialised packet"), ("put", "a serialised packet")):
        nme, rs, loc = go(op)
        want = flat(inbytes(("arg", 1), H + F + C))
        for r in rs:
            got = obj_bytes(r, ("arg", 0), H + F + C)
            chk.ob(nme, tgt + what + " holds the bytes as they are", UNDEC if got is None else same(flat(got), want, r.lits), loc, show(flat(got or []), want))
            in_range(chk, nme, tgt + "nothing outside the packet is touched", r, {("store", ("arg", 0)): H + F + C, ("load", ("arg", 0)): H + F + C, ("load", ("arg", 1)): H + F + C}, loc)
    # parts
    for op, off in (("rh", 0), ("rf", H), ("rc", H + F), ("ch", 0), ("cf", H), ("cc", H + F)):
        nme, rs, loc = go(op)
        for r in rs:
            ok = r.ret == Ptr(("arg", 0), off)
            chk.ob(nme, tgt + "each part is where the layout has it", PROVED if ok else REFUTED if isinstance(r.ret, Ptr) and r.ret.obj[0] in ("arg", "alloca") and not r.lits else UNDEC, loc, f"{r.ret}, not offset {off}")
    # an array received
    for op in ("des", "deslong"):
        nme, rs, loc = go(op)
        A = inbytes(("arg", 3), H + F + C)
        for r in rs:
            for o, n, off, what in ((("arg", 1), H, 0, "header"), (("arg", 2), F, H, "fields")):
                got = obj_bytes(r, o, n)
                want = flat(A[off:off + n])
                chk.ob(nme, tgt + f"the {what} is returned as received", UNDEC if got is None else same(flat(got), want, r.lits), loc, show(flat(got or []), want))
            in_range(chk, nme, tgt + "nothing outside the packet is touched", r,
                     {("load", ("arg", 3)): H + F + C, ("store", ("arg", 0)): 1, ("store", ("arg", 1)): H, ("store", ("arg", 2)): F}, loc)
        judge((A[:H + F], A[H + F:]), lambda r: (obj_bytes(r, ("arg", 0), 1) or [[None]])[0][0])
