"""Hash-consed value numbers with a linear normal form modulo 2^w.

Everything here is rewriting to a normal form; there is no search and no solver.  Two IR values that
compute the same thing up to the rewrites below get the same term object."""


class T:
    __slots__ = ("op", "a", "w", "id", "_atoms")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, a, w):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w, t.id, t._atoms = op, a, w, len(_tab), None
        _tab[k] = t
    return t


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def const(v, w):
    return mk("int", (v & ((1 << w) - 1),), w)


TRUE = const(1, 1)
FALSE = const(0, 1)


def is_int(t):
    return t.op == "int"


def ival(t):
    return t.a[0]


def sval(t):
    return signed(t.a[0], t.w)


def lin_parts(t):
    """(const, {atom: signed coefficient}) of a term."""
    if t.op == "int":
        return signed(t.a[0], t.w), {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d, w):
    items = []
    for a, k in d.items():
        k = signed(k, w)
        if k:
            items.append((a, k))
    if not items:
        return const(c, w)
    c = signed(c, w)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk("lin", (c, tuple(items)), w)


def add(x, y):
    cx, dx = lin_parts(x)
    cy, dy = lin_parts(y)
    for a, k in dy.items():
        dx[a] = dx.get(a, 0) + k
    return mk_lin(cx + cy, dx, x.w)


def mulc(x, k):
    c, d = lin_parts(x)
    return mk_lin(c * k, {a: v * k for a, v in d.items()}, x.w)


def neg(x):
    return mulc(x, -1)


def sub(x, y):
    return add(x, neg(y))


def addc(x, k):
    return add(x, const(k, x.w))


def mul(x, y):
    if is_int(x):
        return mulc(y, ival(x))
    if is_int(y):
        return mulc(x, ival(y))
    if x.id > y.id:
        x, y = y, x
    return mk("mul", (x, y), x.w)


def is_pow2(v):
    return v > 0 and v & (v - 1) == 0


ALIGNED = [None]     # a rule module may say which atoms are multiples of which power of two


def band(x, y):
    w = x.w
    M = (1 << w) - 1
    if is_int(x) and is_int(y):
        return const(ival(x) & ival(y), w)
    if is_int(x):
        x, y = y, x
    if x is y:
        return x
    if w == 1:
        if is_int(y):
            return x if ival(y) else FALSE
        return mk("band", tuple(sorted((x, y), key=lambda t: t.id)), 1)
    if is_int(y):
        m = ival(y)
        if m == 0:
            return y
        if m == M:
            return x
        if bin(m).count("1") * 2 > w and not is_pow2(m + 1) or (m == M >> 1):
            return sub(x, band(x, const(~m, w)))
        if is_pow2(m + 1):
            k = m.bit_length()
            c, d = lin_parts(x)
            d2 = {}
            e = {}
            for a, v in d.items():
                if a.op == "and" and is_int(a.a[1]) and ival(a.a[1]) & m == m and signed(v, k):
                    # the low bits of and(y, mask) are those of y
                    cy, dy = lin_parts(a.a[0])
                    c += cy * v
                    for b, u in dy.items():
                        e[b] = e.get(b, 0) + u * v
                else:
                    e[a] = e.get(a, 0) + v
            for a, v in e.items():
                v = signed(v, k)
                if v and ALIGNED[0] is not None and v * ALIGNED[0](a) % (m + 1) == 0:
                    v = 0
                if v:
                    d2[a] = v
            x = mk_lin(signed(c, k), d2, w)
            if is_int(x):
                return const(ival(x) & m, w)
            if x.op == "and" and is_int(x.a[1]):
                return band(x.a[0], const(ival(x.a[1]) & m, w))
            if urange0(x)[1] <= m:
                return x
            return mk("and", (x, const(m, w)), w)
        if x.op == "and" and is_int(x.a[1]):
            return band(x.a[0], const(ival(x.a[1]) & m, w))
        if m == 1 << (w - 1):
            # the top bit of y +- and(y, top) + c
            c, d = lin_parts(x)
            for a, v in d.items():
                if v & 1 and a.op == "and" and is_int(a.a[1]) and ival(a.a[1]) == m:
                    r = sub(sub(x, mulc(a, v)), a.a[0])
                    if is_int(r) and ival(r) in (0, m):
                        return r
            c = signed(c, w)
            if d and (c < -(m >> 1) or c >= m >> 1):
                return sub(const(m, w), band(mk_lin(signed(c + m, w), d, w), y))
        # bits known clear
        c, d = lin_parts(x)
        tz = 0
        if d:
            tz = min(((v & -v).bit_length() - 1) for v in [c or 1 << w, *d.values()])
        if m < (1 << tz):
            return const(0, w)
        hi = urange0(x)[1]
        if hi < (m & -m):
            return const(0, w)
        return mk("and", (x, const(m, w)), w)
    x, y = sorted((x, y), key=lambda t: t.id)
    return mk("and", (x, y), w)


def bor(x, y):
    w = x.w
    if is_int(x) and is_int(y):
        return const(ival(x) | ival(y), w)
    if is_int(x):
        x, y = y, x
    if x is y:
        return x
    if w == 1:
        if is_int(y):
            return TRUE if ival(y) else x
        return mk("bor", tuple(sorted((x, y), key=lambda t: t.id)), 1)
    if is_int(y):
        return sub(add(x, y), band(x, y))
    x, y = sorted((x, y), key=lambda t: t.id)
    t = mk("or", (x, y), w)
    return permuted(t) if w in (16, 32, 64) else t


def bytemap(t):
    """Per byte of t: 0, or (value, index of the byte of it)."""
    n = t.w // 8
    if is_int(t):
        bs = ival(t).to_bytes(n, "little")
        return [0] * n if not any(bs) else None
    if t.op == "zext" and t.a[0].w % 8 == 0:
        m = bytemap(t.a[0])
        return m and m + [0] * (n - len(m))
    if t.op == "lshr" and is_int(t.a[1]) and ival(t.a[1]) % 8 == 0:
        m, k = bytemap(t.a[0]), ival(t.a[1]) // 8
        return m and m[k:] + [0] * k
    if t.op == "and" and is_int(t.a[1]):
        mask = ival(t.a[1]).to_bytes(n, "little")
        if all(b in (0, 255) for b in mask):
            m = bytemap(t.a[0])
            return m and [x if b else 0 for x, b in zip(m, mask)]
        return [(t, i) for i in range(n)]
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1:
        (a, k), = t.a[1]
        k &= (1 << t.w) - 1
        if is_pow2(k) and (k.bit_length() - 1) % 8 == 0:
            m, sh = bytemap(a), (k.bit_length() - 1) // 8
            return m and [0] * sh + m[:n - sh]
    if t.op == "or":
        a, b = bytemap(t.a[0]), bytemap(t.a[1])
        if a is None or b is None or any(x and y for x, y in zip(a, b)):
            return [(t, i) for i in range(n)]
        return [x or y for x, y in zip(a, b)]
    if t.op == "bswap":
        m = bytemap(t.a[0])
        return m and m[::-1]
    return [(t, i) for i in range(n)]


def permuted(t):
    """A value put together from all bytes of another one, in order or in reverse."""
    m = bytemap(t)
    n = t.w // 8
    if m is None or not all(m) or any(x[0] is not m[0][0] for x in m) or m[0][0] is t or m[0][0].w != t.w:
        return t
    ix = [i for _, i in m]
    if ix == list(range(n)):
        return m[0][0]
    return mk("bswap", (m[0][0],), t.w) if ix == list(range(n))[::-1] else t


def bxor(x, y):
    w = x.w
    if w == 1:
        if is_int(x):
            x, y = y, x
        if is_int(y):
            return lnot(x) if ival(y) else x
        if x is y:
            return FALSE
        return mk("bxor", tuple(sorted((x, y), key=lambda t: t.id)), 1)
    if is_int(x) and is_int(y):
        return const(ival(x) ^ ival(y), w)
    c, s = 0, set()
    for t in (x, y):
        if is_int(t):
            c ^= ival(t)
        elif t.op == "xor":
            c ^= t.a[0]
            s ^= set(t.a[1])
        else:
            s ^= {t}
    if not s:
        return const(c, w)
    if c == 0 and len(s) == 1:
        return next(iter(s))
    if c == 1 << (w - 1) and len(s) == 1:
        return addc(next(iter(s)), c)
    if c == (1 << w) - 1 and len(s) == 1:
        return sub(const(-1, w), next(iter(s)))
    return mk("xor", (c, tuple(sorted(s, key=lambda t: t.id))), w)


def shl(x, y):
    if is_int(y):
        if ival(y) >= x.w:
            return const(0, x.w)
        return mulc(x, 1 << ival(y))
    return mk("shl", (x, y), x.w)


def divexact(x, k):
    """x / k when every part of x is a multiple of k; only valid if x does not wrap."""
    c, d = lin_parts(x)
    if d and c % k == 0 and all(v % k == 0 for v in d.values()):
        return mk_lin(c // k, {a: v // k for a, v in d.items()}, x.w)
    return None


def nowrap0(x, half=False):
    c, d = lin_parts(x)
    if c < 0 or any(v < 0 for v in d.values()):
        return False
    return c + sum(v * urange0(a)[1] for a, v in d.items()) < (1 << (x.w - (1 if half else 0)))


def _divpow(x, n, half=False):
    return divexact(x, 1 << n) if nowrap0(x, half) else None


def lshr(x, y):
    if is_int(y):
        n = ival(y)
        if n == 0:
            return x
        if n >= x.w:
            return const(0, x.w)
        if is_int(x):
            return const(ival(x) >> n, x.w)
        # an exact division of an element count or pointer difference
        r = _divpow(x, n)
        if r is not None:
            return r
        if x.op == "lshr" and is_int(x.a[1]):
            return lshr(x.a[0], const(n + ival(x.a[1]), x.w))
        if urange0(x)[1] < (1 << n):
            return const(0, x.w)
    return mk("lshr", (x, y), x.w)


def ashr(x, y):
    if is_int(y):
        n = ival(y)
        if n == 0:
            return x
        if is_int(x):
            return const(sval(x) >> n, x.w)
        r = _divpow(x, n, True)
        if r is not None:
            return r
    return mk("ashr", (x, y), x.w)


def udiv(x, y):
    if is_int(y) and ival(y):
        if is_int(x):
            return const(ival(x) // ival(y), x.w)
        if is_pow2(ival(y)):
            return lshr(x, const(ival(y).bit_length() - 1, x.w))
        if nowrap0(x):
            r = divexact(x, ival(y))
            if r is not None:
                return r
    return mk("udiv", (x, y), x.w)


def sdiv(x, y):
    if is_int(y) and ival(y):
        if is_int(x):
            q = abs(sval(x)) // abs(sval(y))
            return const(q if (sval(x) < 0) == (sval(y) < 0) else -q, x.w)
        k = sval(y)
        if k > 0 and nowrap0(x, True):
            r = divexact(x, k)
            if r is not None:
                return r
    return mk("sdiv", (x, y), x.w)


def urem(x, y):
    if is_int(y) and ival(y):
        if is_int(x):
            return const(ival(x) % ival(y), x.w)
        if is_pow2(ival(y)):
            return band(x, const(ival(y) - 1, x.w))
    return mk("urem", (x, y), x.w)


def srem(x, y):
    if is_int(x) and is_int(y) and ival(y):
        q = sdiv(x, y)
        return sub(x, mul(q, y))
    return mk("srem", (x, y), x.w)


def zext(x, w):
    if x.w == w:
        return x
    if is_int(x):
        return const(ival(x), w)
    if x.op == "zext":
        return zext(x.a[0], w)
    if x.op == "trunc" and x.a[0].w == w and urange0(x.a[0])[1] < (1 << x.w):
        return x.a[0]
    if counter_only(x):
        return widen_counter(x, w)
    return mk("zext", (x,), w)


def counter_only(x):
    """Iteration counters, narrowed: they are assumed not to reach 2^31."""
    if x.w < 32:
        return False
    c, d = lin_parts(x)
    return bool(d) and all(a.op == "trunc" and a.a[0].op in ("k", "m") for a in d)


def widen_counter(x, w):
    c, d = lin_parts(x)
    return mk_lin(c, {(a.a[0] if a.a[0].w == w else trunc(a.a[0], w)): v for a, v in d.items()}, w)


def sext(x, w):
    if x.w == w:
        return x
    if is_int(x):
        return const(sval(x), w)
    if x.op == "lin":  # int arithmetic: overflow is undefined
        c, d = lin_parts(x)
        return mk_lin(c, _accum((sext(a, w), v) for a, v in d.items()), w)
    if counter_only(x):
        return widen_counter(x, w)
    if x.op in ("sext",):
        return sext(x.a[0], w)
    if x.op == "zext":
        return zext(x.a[0], w)
    return mk("sext", (x,), w)


def _accum(pairs):
    d = {}
    for t, v in pairs:
        c, p = lin_parts(t)
        assert c == 0 or True
        for a, k in p.items():
            d[a] = d.get(a, 0) + k * v
    return d


def trunc(x, w):
    if x.w == w:
        return x
    if is_int(x):
        return const(ival(x), w)
    if x.op in ("zext", "sext"):
        s = x.a[0]
        if s.w == w:
            return s
        return trunc(s, w) if s.w > w else (zext if x.op == "zext" else sext)(s, w)
    if x.op == "trunc":
        return trunc(x.a[0], w)
    if x.op == "lin":
        c, d = lin_parts(x)
        out, cc = {}, c
        for a, v in d.items():
            t = trunc(a, w)
            c2, p = lin_parts(t)
            cc += c2 * v
            for b, k in p.items():
                out[b] = out.get(b, 0) + k * v
        return mk_lin(cc, out, w)
    if x.op == "and" and is_int(x.a[1]) and w > 1:
        return band(trunc(x.a[0], w), const(ival(x.a[1]), w))
    if w == 1:
        return ne0(band(x, const(1, x.w)))
    return mk("trunc", (x,), w)


# ---------------------------------------------------------------- booleans
def lnot(x):
    if is_int(x):
        return FALSE if ival(x) else TRUE
    if x.op == "not":
        return x.a[0]
    return mk("not", (x,), 1)


def canon_eq0(d):
    """Boolean atom for d == 0 (d a term); constant when decided."""
    if is_int(d):
        return TRUE if ival(d) == 0 else FALSE
    c, p = lin_parts(d)
    if len(p) == 1:
        (a, k), = p.items()
        if k in (1, -1):
            v = -c * k  # a == v
            v &= (1 << d.w) - 1
            if a.op == "zext":
                s = a.a[0]
                if v >= (1 << s.w):
                    return FALSE
                if s.w == 1:
                    return s if v else lnot(s)
                return canon_eq0(sub(s, const(v, s.w)))
            if a.op == "sext":
                s = a.a[0]
                if s.w == 1:
                    return lnot(s) if v == 0 else (s if v == (1 << d.w) - 1 else FALSE)
                if sext(const(v, s.w), d.w) is not const(v, d.w):
                    return FALSE
                return canon_eq0(sub(s, const(v, s.w)))
            if a.op == "xor" and len(a.a[1]) == 1:
                return canon_eq0(sub(a.a[1][0], const(v ^ a.a[0], d.w)))
            if a.op == "b2i":
                return a.a[0] if v == 1 else (lnot(a.a[0]) if v == 0 else FALSE)
            if a.op == "bswap":
                return canon_eq0(sub(a.a[0], const(int.from_bytes(v.to_bytes(d.w // 8, "little"), "big"), d.w)))
            lo, hi = urange0(a)
            if v < lo or v > hi:
                return FALSE
            if a.op == "ite":
                return None  # decided by the caller
    if len(p) == 2 and c == 0:
        (a, k), (b, m) = p.items()
        if k == -m and abs(k) == 1:
            if a.op == "xor" and b.op == "xor" and len(a.a[1]) == len(b.a[1]) == 1:
                x = bxor(a.a[1][0], const(a.a[0] ^ b.a[0], d.w))
                return canon_eq0(sub(x, b.a[1][0]))
            if a.op == "zext" and b.op == "zext" and a.a[0].w == b.a[0].w:
                return canon_eq0(sub(a.a[0], b.a[0]))
            if a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w:
                return canon_eq0(sub(a.a[0], b.a[0]))
            if a.op == "bswap" and b.op == "bswap":
                return canon_eq0(sub(a.a[0], b.a[0]))
            if a.op == "bswap" or b.op == "bswap":
                x, y = (a.a[0], b) if a.op == "bswap" else (b.a[0], a)
                if y.id < x.id and y.op not in ("zext", "sext", "xor", "b2i", "ite"):
                    return canon_eq0(sub(x, mk("bswap", (y,), y.w)))
            if a.op == "xor" and len(a.a[1]) == 1 and not (b.op == "xor"):
                # xor(x, c) == b  <=>  x == xor(b, c): keep one orientation
                pass
    g = 0
    from math import gcd
    for v in p.values():
        g = gcd(g, abs(v))
    if g > 1 and is_pow2(g):
        if c % g:
            return FALSE
        c //= g
        p = {a: v // g for a, v in p.items()}
    first = min(p, key=lambda t: t.id)
    if p[first] < 0:
        c = -c
        p = {a: -v for a, v in p.items()}
    return mk("eq0", (mk_lin(c, p, d.w),), 1)


def eq(x, y):
    if x.w == 1:
        return lnot(bxor(x, y))
    r = canon_eq0(sub(x, y))
    if r is None:
        return mk("eq0", (sub(x, y),), 1)
    return r


def ne0(x):
    return lnot(eq(x, const(0, x.w)))


def ult(x, y):
    if x is y:
        return FALSE
    if is_int(y) and ival(y) == 0:
        return FALSE
    if is_int(x) and ival(x) == (1 << x.w) - 1:
        return FALSE
    if is_int(x) and is_int(y):
        return TRUE if ival(x) < ival(y) else FALSE
    if is_int(y) and ival(y) == 1:
        return eq(x, const(0, x.w))
    if is_int(x) and ival(x) == 0:
        return lnot(eq(y, const(0, y.w)))
    xl, xh = urange0(x)
    yl, yh = urange0(y)
    if xh < yl:
        return TRUE
    if xl >= yh:
        return FALSE
    return mk("ult", (x, y), 1)


def slt(x, y):
    if x is y:
        return FALSE
    if is_int(x) and is_int(y):
        return TRUE if sval(x) < sval(y) else FALSE
    return mk("slt", (x, y), 1)


def cmp(pred, x, y):
    if pred == "eq":
        return eq(x, y)
    if pred == "ne":
        return lnot(eq(x, y))
    f = ult if pred[0] == "u" else slt
    p = pred[1:]
    if p == "lt":
        return f(x, y)
    if p == "gt":
        return f(y, x)
    if p == "le":
        return lnot(f(y, x))
    return lnot(f(x, y))


def b2i(x, w):
    if is_int(x):
        return const(ival(x), w)
    return mk("zext", (x,), w)


# ---------------------------------------------------------------- ranges that hold by construction
def urange0(t):
    w = t.w
    M = (1 << w) - 1
    o = t.op
    if o == "int":
        return t.a[0], t.a[0]
    if o == "and":
        if is_int(t.a[1]):
            return 0, ival(t.a[1])
        return 0, M
    if o == "zext":
        return 0, (1 << t.a[0].w) - 1
    if o == "lshr" and is_int(t.a[1]):
        return 0, M >> ival(t.a[1])
    if o == "urem" and is_int(t.a[1]) and ival(t.a[1]):
        return 0, ival(t.a[1]) - 1
    if o == "udiv" and is_int(t.a[1]) and ival(t.a[1]):
        return 0, M // ival(t.a[1])
    if o in ("k", "m"):
        return 0, 1 << 60
    if o == "obj":  # address of a distinct live object
        return 1, (1 << 62)
    return 0, M


# ---------------------------------------------------------------- traversal
REBUILD = {}


def rebuild(op, a, w):
    """Re-normalise an operator applied to (already rewritten) operands."""
    if op == "lin":
        r = const(a[0], w)
        for t, k in a[1]:
            r = add(r, mulc(t, k))
        return r
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "xor":
        r = const(a[0], w)
        for t in a[1]:
            r = bxor(r, t)
        return r
    if op == "mul":
        return mul(*a)
    if op == "shl":
        return shl(*a)
    if op == "lshr":
        return lshr(*a)
    if op == "ashr":
        return ashr(*a)
    if op == "udiv":
        return udiv(*a)
    if op == "sdiv":
        return sdiv(*a)
    if op == "urem":
        return urem(*a)
    if op == "srem":
        return srem(*a)
    if op == "zext":
        return zext(a[0], w)
    if op == "sext":
        return sext(a[0], w)
    if op == "trunc":
        return trunc(a[0], w)
    if op == "not":
        return lnot(a[0])
    if op == "eq0":
        r = canon_eq0(a[0])
        return r if r is not None else mk(op, a, w)
    if op == "ult":
        return ult(*a)
    if op == "slt":
        return slt(*a)
    if op == "band":
        return band(*a)
    if op == "bor":
        return bor(*a)
    if op == "bxor":
        return bxor(*a)
    return mk(op, a, w)


def children(t):
    o = t.op
    if o == "lin":
        return [p[0] for p in t.a[1]]
    if o == "xor":
        return list(t.a[1])
    return [x for x in t.a if isinstance(x, T)]


def subst(t, m, memo=None):
    """Replace terms by terms (m: {T: T}), rebuilding normal forms."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    if t.op == "int":
        return t
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "lin":
        ch = tuple((subst(x, m, memo), k) for x, k in t.a[1])
        r = t if all(x is y for (x, _), (y, _) in zip(ch, t.a[1])) else rebuild(o, (t.a[0], ch), t.w)
    elif o == "xor":
        ch = tuple(subst(x, m, memo) for x in t.a[1])
        r = t if ch == t.a[1] else rebuild(o, (t.a[0], ch), t.w)
    else:
        ch = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
        r = t if all(x is y for x, y in zip(ch, t.a)) else rebuild(o, ch, t.w)
    memo[t] = r
    return r


def atoms(t):
    """All subterms (including t)."""
    if t._atoms is None:
        s = {t}
        for c in children(t):
            s |= atoms(c)
        t._atoms = frozenset(s)
    return t._atoms


def mentions(t, x):
    return x in atoms(t)


def find(t, pred):
    return [x for x in atoms(t) if pred(x)]


# ---------------------------------------------------------------- printing
_n = {"eq0": "=="}


def show(t, d=0):
    o = t.op
    if d > 7:
        return "…"
    if o == "int":
        v = sval(t)
        return str(v) if abs(v) < (1 << 40) or t.w < 60 else hex(ival(t))
    if o == "lin":
        s = []
        for a, k in t.a[1]:
            x = show(a, d + 1)
            s.append(("+" if k > 0 else "-") + (x if abs(k) == 1 else f"{abs(k)}*{x}"))
        if t.a[0]:
            s.append(f"{t.a[0]:+d}")
        return "(" + "".join(s).lstrip("+") + ")"
    if o == "eq0":
        return f"[{show(t.a[0], d + 1)} == 0]"
    if o in ("ult", "slt"):
        return f"[{show(t.a[0], d + 1)} {'<' if o == 'ult' else '<s'} {show(t.a[1], d + 1)}]"
    if o == "not":
        return "!" + show(t.a[0], d + 1)
    if o == "xor":
        return "xor(" + hex(t.a[0]) + "," + ",".join(show(x, d + 1) for x in t.a[1]) + ")"
    if o == "ld":
        return f"M{t.a[1]}[{show(t.a[0], d + 1)}]" + (f"@{t.a[2]}" if t.a[2] else "")
    if o in ("arg", "obj", "k", "m", "phi", "unk", "call", "fn", "glob"):
        return o + ":" + ".".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a)
    return o + "(" + ",".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a) + ")"
