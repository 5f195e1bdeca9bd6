"""The numeric domain: equalities in solved form, disequalities, and linear inequalities with
interval bounds.  All operations are closed-form or bounded-depth eliminations."""
from .terms import *
from .terms import T
import math


class Contradiction(Exception):
    pass


BOOLOPS = ("eq0", "ult", "slt", "not")


class Facts:
    """A conjunction of literals."""

    _busy = False
    single = ()

    def __init__(self):
        self.lits = []          # [(atom, polarity)] in order of addition, as given
        self.sub = {}           # atom -> term (solved equalities)
        self.ineq = []          # integer linear forms >= 0: (const, {atom: coef})
        self.sineq = []         # the same, atoms read as signed
        self.neq = set()        # terms known non-zero
        self.bools = {}         # opaque boolean atoms -> polarity
        self.iv = {}            # atom -> (lo, hi) unsigned
        self.opq = []           # literals kept but not interpreted numerically
        self.bad = False
        self.loops = ()         # completed loops: (count atom, [literals of each way at iteration count])
        self._memo = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.lits = list(self.lits)
        f.sub = dict(self.sub)
        f.ineq = list(self.ineq)
        f.sineq = list(self.sineq)
        f.neq = set(self.neq)
        f.bools = dict(self.bools)
        f.iv = dict(self.iv)
        f.opq = list(self.opq)
        f.bad = self.bad
        f.loops = self.loops
        f.single = self.single
        f._memo = {}
        return f

    # ------------------------------------------------------------ normalisation
    def norm(self, t):
        if not self.sub:
            return t
        for _ in range(12):
            r = subst(t, self.sub, self._memo)
            if r is t:
                return t
            t = r
        return t

    # ------------------------------------------------------------ ranges
    def urange(self, a):
        lo, hi = urange0(a)
        x = self.iv.get(a)
        if x:
            lo, hi = max(lo, x[0]), min(hi, x[1])
        if a.op in ("trunc", "zext") and not self._busy:
            # a conversion that keeps the value keeps the range
            self._busy = True
            try:
                i = self.toint(a.a[0])
                if i is not None:
                    h = -self.lower(-i[0], {b: -v for b, v in i[1].items()})
                    if h < hi and h < (1 << a.w):
                        hi = h
            finally:
                self._busy = False
        return lo, hi

    def _lo0(self, c, d):
        r = c
        for a, k in d.items():
            lo, hi = self.urange(a)
            r += k * (lo if k > 0 else hi)
        return r

    def lower(self, c, d, depth=3, facts=None):
        """Best lower bound found for c + d."""
        facts = self.ineq if facts is None else facts
        best = self._lo0(c, d)
        if depth == 0 or not d:
            return best
        for fc, fd in facts:
            for a, k in d.items():
                fk = fd.get(a)
                if not fk or (fk > 0) != (k > 0):
                    continue
                if k % fk and fk % k:
                    continue
                if k % fk:
                    # scale e up: only the sign of the result is meaningful; skip unless tiny
                    continue
                lam = k // fk
                e = dict(d)
                for b, v in fd.items():
                    e[b] = e.get(b, 0) - lam * v
                e = {b: v for b, v in e.items() if v}
                r = self.lower(c - lam * fc, e, depth - 1, facts)
                if r > best:
                    best = r
                    if best >= 0:
                        return best
        return best

    def nonneg(self, c, d):
        """c + d >= 0 for sure (unsigned reading of the atoms)."""
        if self.lower(c, d) >= 0:
            return True
        # also allow scaling by the gcd
        g = 0
        for v in d.values():
            g = math.gcd(g, abs(v))
        if g > 1:
            # floor(c/g) keeps integer soundness
            return self.lower(c // g, {a: v // g for a, v in d.items()}) >= 0
        return False

    def toint(self, t):
        """Integer linear form equal to the unsigned value of t, or None if t may wrap."""
        t = self.norm(t)
        c, d = lin_parts(t)
        if t.op == "int":
            return ival(t), {}
        if t.op != "lin":
            return c, d
        M = 1 << t.w
        for off in (0, M):
            cc = c + off
            nd = {a: -v for a, v in d.items()}
            if self.nonneg(cc, d) and self.nonneg(M - 1 - cc, nd):
                return cc, d
        return None

    # ------------------------------------------------------------ adding
    def add(self, atom, pol):
        """Add a literal.  Returns False when it contradicts what is known."""
        if self.bad:
            return False
        self.lits.append((atom, pol))
        ok = self._add(atom, pol) and self._settle()
        if not ok:
            self.bad = True
        return ok

    def define(self, a, rhs):
        """Replace atom a, about which nothing is known yet, by a term."""
        self.sub = {x: subst(y, {a: rhs}) for x, y in self.sub.items()}
        self.sub[a] = self.norm(rhs)
        self._memo = {}

    def _add(self, atom, pol):
        atom = self.norm(atom)
        while atom.op == "not":
            atom, pol = atom.a[0], not pol
        if is_int(atom):
            return bool(ival(atom)) == pol
        k = self.holds(atom)
        if k is not None:
            return k == pol
        o = atom.op
        if o == "band" and pol:
            return self._add(atom.a[0], True) and self._add(atom.a[1], True)
        if o == "bor" and not pol:
            return self._add(atom.a[0], False) and self._add(atom.a[1], False)
        if o == "eq0":
            if pol:
                return self._eq(atom.a[0])
            self.neq.add(atom.a[0])
            self._tighten_neq(atom.a[0])
            self.bools[atom] = pol
            return True
        if o in ("ult", "slt"):
            x, y = atom.a
            if not pol and self.bools.get(mk(o, (y, x), 1)) is False:
                self.bools[atom] = pol
                return self._eq(sub(x, y))
            if not pol:
                x, y = y, x
            s = 1 if pol else 0
            self.bools[atom] = pol
            if o == "ult":
                ix, iy = self.toint(x), self.toint(y)
                if ix is not None and iy is not None:
                    self._ineq(self.ineq, ix, iy, s)
                elif not (ix is None and iy is not None and self._below(x, iy, s)):
                    self.opq.append((atom, pol))
            else:
                self._sadd(x, y, s)
            for t in list(self.neq):
                self._tighten_neq(t)
            return True
        self.bools[atom] = pol
        self.opq.append((atom, pol))
        return True

    def _below(self, x, iy, s):
        """t - c < y where a wrapped t - c would be too big: t >= c and t - c < y."""
        x = self.norm(x)
        c, d = lin_parts(x)
        c = signed(c, x.w)
        if c >= 0 or not d or iy[1]:
            return False
        it = self.toint(addc(x, -c))
        if it is None or (1 << x.w) + c < iy[0] - s + 1:
            return False
        self._ineq(self.ineq, (-c, {}), it, 0)
        self._ineq(self.ineq, (it[0] + c, it[1]), iy, s)
        return True

    def _ineq(self, store, ix, iy, s):
        c = iy[0] - ix[0] - s
        d = dict(iy[1])
        for a, v in ix[1].items():
            d[a] = d.get(a, 0) - v
        d = {a: v for a, v in d.items() if v}
        store.append((c, d))
        if store is self.ineq and len(d) == 1:
            (a, k), = d.items()
            lo, hi = self.urange(a)
            if k > 0:
                lo = max(lo, -(c // k))
            else:
                hi = min(hi, c // -k)
            self.iv[a] = (lo, hi)
            if lo == hi:
                self.single = self.single + (a,)

    def _settle(self):
        """Equations that were waiting for bounds, and atoms one value is left for."""
        for x in list(self.opq):
            at, p = x
            if at.op == "eq0" and p:
                t = self.norm(at.a[0])
                if is_int(t):
                    continue
                c, d = lin_parts(t)
                if len(d) == 1 and next(iter(d)).op == "k":
                    k = self._wraps(c, d, 0, 0, t.w)
                    if k == ():
                        return False
                    if k is not None:
                        self.opq = [y for y in self.opq if y is not x]
                        c += k << t.w
                        self._ineq(self.ineq, (0, {}), (c, d), 0)
                        self._ineq(self.ineq, (c, d), (0, {}), 0)
        todo, self.single = self.single, ()
        for a in todo:
            if a.op == "k" and a not in self.sub and self.iv[a][0] == self.iv[a][1]:
                if not self._eq(addc(a, -self.iv[a][0])):
                    return False
        return True

    def _half(self, d, w):
        return all(self.urange(a)[1] < (1 << (w - 1)) for a in d)

    def _sform(self, t):
        t = self.norm(t)
        c, d = lin_parts(t)
        if t.op == "int":
            return (sval(t), {}), True
        return (c, d), self._half(d, t.w)

    def _sadd(self, x, y, s):
        nx, ny = self.norm(x), self.norm(y)
        if is_int(nx) and sval(nx) >= 0 and not is_int(ny):
            i = self.toint(ny)
            if i is not None:
                # not negative, and exact: an unsigned range
                self._ineq(self.ineq, (sval(nx), {}), i, s)
                self._ineq(self.ineq, i, ((1 << (ny.w - 1)) - 1, {}), 0)
        (fx, hx), (fy, hy) = self._sform(x), self._sform(y)
        if hx and hy:
            self._ineq(self.ineq, fx, fy, s)
        else:
            self._ineq(self.sineq, fx, fy, s)
            self.opq.append((slt(x, y) if s else lnot(slt(y, x)), True))

    def _tighten_neq(self, t):
        c, d = lin_parts(t)
        if len(d) == 1:
            (a, k), = d.items()
            if k in (1, -1):
                v = (-c * k) & ((1 << t.w) - 1)
                lo, hi = self.urange(a)
                if v == lo:
                    self.iv[a] = (lo + 1, hi)
                elif v == hi:
                    self.iv[a] = (lo, hi - 1)
                return
        # x != y and x <= y gives x < y
        nd = {a: -v for a, v in d.items()}
        if (c, d) and self.nonneg(c, d) and (c - 1, d) not in self.ineq:
            self.ineq.append((c - 1, d))
        elif self.nonneg(-c, nd) and (-c - 1, nd) not in self.ineq:
            self.ineq.append((-c - 1, nd))

    PREF = {"k": 0, "m": 1, "call": 2, "unk": 2, "phi": 2, "ld": 3, "arg": 4, "cnt0": 8, "obj": 9}

    def _eq(self, t):
        c, d = lin_parts(t)
        # integer infeasibility: bounds
        cand = [(self.PREF.get(a.op, 2), -a.id, a) for a, k in d.items() if k in (1, -1)]
        cand = [x for x in cand if not any(x[2] in atoms(b) and b is not x[2] for b in d)]
        if not cand:
            self.bools[mk("eq0", (t,), 1)] = True
            k = self._wraps(c, d, 0, 0, t.w)
            if k == ():
                return False
            if k is None:
                self.opq.append((mk("eq0", (t,), 1), True))
                return True
            c += k << t.w
            self._ineq(self.ineq, (0, {}), (c, d), 0)
            self._ineq(self.ineq, (c, d), (0, {}), 0)
            return True
        cand.sort(key=lambda x: (x[0], x[1]))
        a = cand[0][2]
        k = d.pop(a)
        # a = -(c + rest)/k
        rhs = mk_lin(-c * k, {b: -v * k for b, v in d.items()}, t.w)
        lo, hi = self.urange(a)
        rc, rd = lin_parts(rhs)
        wk = 0
        if not is_int(rhs):
            wk = self._wraps(rc, rd, lo, hi, t.w)
            if wk == ():
                return False
        old = (self.ineq, self.sineq, self.neq, self.bools)
        self.sub[a] = rhs
        self._memo = {}
        self.sub = {x: subst(y, {a: rhs}) for x, y in self.sub.items()}
        self.ineq, self.sineq, self.neq, self.bools = [], [], set(), {}
        m = {a: rhs}
        for (cc, dd), st in [(x, self.ineq) for x in old[0]] + [(x, self.sineq) for x in old[1]]:
            if a in dd:
                v = dd[a]
                if st is self.ineq and wk is None:
                    # the integer the solved form stands for is not known: keep the row about the atom
                    st.append((cc, dd))
                    self.opq.append((mk("eq0", (t,), 1), True))
                    continue
                e = {b: q for b, q in dd.items() if b is not a}
                for b, q in rd.items():
                    e[b] = e.get(b, 0) + q * v
                e = {b: q for b, q in e.items() if q}
                cc += (rc + ((wk << t.w) if st is self.ineq else 0)) * v
                if not e:
                    if cc < 0:
                        return False
                    continue
                st.append((cc, e))
                if st is self.ineq and len(e) == 1:
                    self._ineq(self.ineq, (0, {}), (cc, e), 0)
            else:
                st.append((cc, dd))
        # the bounds of the eliminated atom carry over
        if is_int(rhs):
            v = ival(rhs)
            if v < lo or v > hi:
                return False
        elif wk is not None:
            i = (rc + (wk << t.w), rd)
            if self.urange(a) != (0, (1 << a.w) - 1) or wk:
                self._ineq(self.ineq, (lo, {}), i, 0)
                self._ineq(self.ineq, i, (hi, {}), 0)
        for t2 in old[2]:
            t3 = self.norm(t2)
            if is_int(t3):
                if ival(t3) == 0:
                    return False
                continue
            self.neq.add(t3)
        for b, p in old[3].items():
            b2 = self.norm(b)
            while b2.op == "not":
                b2, p = b2.a[0], not p
            if is_int(b2):
                if bool(ival(b2)) != p:
                    return False
                continue
            if b2 is b:
                self.bools[b] = p
            else:
                if not self._add(b2, p):
                    return False
        for t2 in list(self.neq):
            self._tighten_neq(t2)
        for cc, dd in self.ineq:
            if self._hi(cc, dd) < 0:
                return False
        return True

    def _hi(self, c, d):
        return -self._lo0(-c, {a: -v for a, v in d.items()})

    # ------------------------------------------------------------ asking
    def holds(self, atom):
        """True / False / None for a boolean term."""
        atom = self.norm(atom)
        if is_int(atom):
            return bool(ival(atom))
        o = atom.op
        if o == "not":
            r = self.holds(atom.a[0])
            return None if r is None else not r
        r = self.bools.get(atom)
        if r is not None:
            return r
        if o == "band":
            a, b = self.holds(atom.a[0]), self.holds(atom.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if o == "bor":
            a, b = self.holds(atom.a[0]), self.holds(atom.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if o == "eq0":
            t = atom.a[0]
            if t in self.neq or neg(t) in self.neq:
                return False
            c, d = lin_parts(t)
            if self._nonzero(c, d, t.w):
                return False
            if len(d) == 1 and not c and next(iter(d)).op == "and":
                x, m = next(iter(d)).a
                if is_int(m) and ival(m):
                    i = self.toint(x)
                    if i is not None and self.nonneg((ival(m) & -ival(m)) - 1 - i[0], {a: -v for a, v in i[1].items()}):
                        return True
            if len(d) == 1 and not c and next(iter(d)).op == "bor" and any(is_int(q) and ival(q) for q in next(iter(d)).a):
                return False
            return None
        if o in ("ult", "slt"):
            x, y = atom.a
            back = self.bools.get(mk(o, (y, x), 1))
            if back is True:
                return False
            if o == "ult":
                ix, iy = self.toint(x), self.toint(y)
                if ix is None or iy is None:
                    return None
                return self._cmp(ix, iy, self.ineq)
            (fx, hx), (fy, hy) = self._sform(x), self._sform(y)
            if hx and hy:
                return self._cmp(fx, fy, self.ineq)
            return self._cmp_s(fx, fy, x.w)
        return None

    def _nonzero(self, c, d, w):
        """The integer c + d lies strictly between two neighbouring multiples of 2^w."""
        nd = {a: -v for a, v in d.items()}
        M = 1 << w
        for off in (0, M, -M):
            if self.nonneg(c + off - 1, d) and self.nonneg(M - 1 - c - off, nd):
                return True
        return False

    def _wraps(self, c, d, lo, hi, w):
        """The one k with lo <= c + d + k 2^w <= hi; None when the ranges leave several, () when none is left."""
        M = 1 << w
        nd = {a: -v for a, v in d.items()}
        l, h = self.lower(c, d), -self.lower(-c, nd)
        ks = range(-((h - lo) // M), (hi - l) // M + 1)
        if len(ks) == 1:
            return ks[0]
        return None if len(ks) else ()

    def _congr_nonzero(self, t):
        return False

    def _cmp(self, ix, iy, store):
        d = dict(iy[1])
        for a, v in ix[1].items():
            d[a] = d.get(a, 0) - v
        d = {a: v for a, v in d.items() if v}
        c = iy[0] - ix[0]
        if self.nonneg(c - 1, d):
            return True
        if self.nonneg(-c, {a: -v for a, v in d.items()}):
            return False
        return None

    def _cmp_s(self, fx, fy, w):
        d = dict(fy[1])
        for a, v in fx[1].items():
            d[a] = d.get(a, 0) - v
        d = {a: v for a, v in d.items() if v}
        c = fy[0] - fx[0]
        if not d:
            return c > 0
        for fc, fd in self.sineq:
            if fd == d and c - 1 >= fc:
                return True
            if fd == {a: -v for a, v in d.items()} and -c >= fc:
                return False
        return None

    def eq(self, x, y):
        """Are two terms equal under the facts? True / None / False."""
        if x is y:
            return True
        if x.w != y.w:
            return None
        d = self.norm(sub(x, y))
        if is_int(d):
            return ival(d) == 0
        r = canon_eq0(d)
        if r is None:
            return None
        return self.holds(r)

    def diff_const(self, x, y):
        d = self.norm(sub(x, y))
        if is_int(d):
            return sval(d)
        return None

    def ge(self, x, c=0):
        """integer reading of term x >= c, when it does not wrap; None if unknown"""
        i = self.toint(x)
        if i is None:
            return None
        return self.nonneg(i[0] - c, i[1]) or None

    # ------------------------------------------------------------ disjunctive refinement
    def _forms(self, t, lo, hi):
        """The integer linear forms t may stand for with its value read in [lo, hi]: one per possible wrap."""
        t = self.norm(t)
        if is_int(t):
            v = ival(t)
            return [(v if v <= hi else v - (1 << t.w), {})]
        c, d = lin_parts(t)
        M = 1 << t.w
        nd = {a: -v for a, v in d.items()}
        l, h = self.lower(c, d), -self.lower(-c, nd)
        ks = range(-((h - lo) // M), (hi - l) // M + 1)
        if len(ks) > 3:
            return None
        return [(c + k * M, d) for k in ks]

    def wrap_cases(self, lits, limit=81):
        """Interpret literals whose terms may wrap by cases on how often they do.
        Returns [facts] covering all possibilities, or None when a literal has no numeric reading."""
        out = [self]
        seen = set()
        for a, p in lits:
            while a.op == "not":
                a, p = a.a[0], not p
            if (a, p) in seen:
                continue
            seen.add((a, p))
            nxt = []
            for f in out:
                b = f.norm(a)
                while b.op == "not":
                    b, p = b.a[0], not p
                if is_int(b):
                    if bool(ival(b)) == p:
                        nxt.append(f)
                    continue
                if b.op == "eq0" and p:
                    M = 1 << b.a[0].w
                    c, d = lin_parts(b.a[0])
                    nd = {x: -v for x, v in d.items()}
                    l, h = f.lower(c, d), -f.lower(-c, nd)
                    ks = range(-(h // M), -l // M + 1)
                    if len(ks) > 3:
                        return None
                    for k in ks:
                        g = f.copy()
                        g._ineq(g.ineq, (0, {}), (c + k * M, d), 0)
                        g._ineq(g.ineq, (c + k * M, d), (0, {}), 0)
                        nxt.append(g)
                    continue
                if b.op not in ("ult", "slt"):
                    return None
                x, y = b.a
                W = x.w
                lo, hi = (0, (1 << W) - 1) if b.op == "ult" else (-(1 << (W - 1)), (1 << (W - 1)) - 1)
                fx, fy = f._forms(x, lo, hi), f._forms(y, lo, hi)
                if fx is None or fy is None:
                    return None
                for ix in fx:
                    for iy in fy:
                        g = f.copy()
                        for i in (ix, iy):
                            g._ineq(g.ineq, (lo, {}), i, 0)
                            g._ineq(g.ineq, i, (hi, {}), 0)
                        if p:
                            g._ineq(g.ineq, ix, iy, 1)
                        else:
                            g._ineq(g.ineq, iy, ix, 0)
                        if all(v[0] <= v[1] for v in g.iv.values()):
                            nxt.append(g)
            out = [g for g in nxt if not g.empty()]
            if len(out) > limit:
                return None
        return out

    # ------------------------------------------------------------ emptiness of the polyhedron
    def empty(self, limit=4000):
        """No assignment of integers to the atoms satisfies the linear facts (exact over the
        rationals with integer tightening; projection of every atom)."""
        rows = []
        atoms_ = set()
        for c, d in self.ineq:
            rows.append((c, dict(d)))
            atoms_ |= set(d)
        for t in self.neq:
            c, d = lin_parts(t)
            atoms_ |= set(d)
        for a in atoms_:
            lo, hi = self.urange(a)
            rows.append((-lo, {a: 1}))
            rows.append((hi, {a: -1}))
        return self._empty(rows, list(self.neq), 0, limit)

    def _empty(self, rows, neqs, depth, limit):
        if _fm_empty(rows, limit):
            return True
        if depth >= 4:
            return False
        # a disequality only matters when the rest forces the equality on one side
        for i, t in enumerate(neqs):
            c, d = lin_parts(t)
            if not d:
                continue
            lo_e = _fm_empty(rows + [(-c - 1, {a: -k for a, k in d.items()})], limit)   # t <= -1 impossible
            hi_e = _fm_empty(rows + [(c - 1, d)], limit)                                # t >= 1 impossible
            if lo_e and hi_e:
                return True
            if lo_e or hi_e:
                extra = (c - 1, d) if lo_e else (-c - 1, {a: -k for a, k in d.items()})
                return self._empty(rows + [extra], neqs[:i] + neqs[i + 1:], depth + 1, limit)
        return False


def _tight(c, d):
    g = 0
    for v in d.values():
        g = math.gcd(g, abs(v))
    if g > 1:
        return c // g, {a: v // g for a, v in d.items()}
    return c, d


def _fm_empty(rows, limit):
    cur = {}
    for c, d in rows:
        d = {a: v for a, v in d.items() if v}
        c, d = _tight(c, d)
        if not d:
            if c < 0:
                return True
            continue
        k = tuple(sorted(((a.id, v) for a, v in d.items())))
        if k not in cur or cur[k][0] > c:
            cur[k] = (c, d)
    rows = list(cur.values())
    while rows:
        vs = {}
        for c, d in rows:
            for a, v in d.items():
                p, n = vs.get(a, (0, 0))
                vs[a] = (p + (v > 0), n + (v < 0))
        if not vs:
            return False
        a = min(vs, key=lambda x: (vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1], x.id))
        pos = [r for r in rows if r[1].get(a, 0) > 0]
        neg_ = [r for r in rows if r[1].get(a, 0) < 0]
        rest = [r for r in rows if not r[1].get(a, 0)]
        cur = {}
        for c, d in rest:
            k = tuple(sorted(((x.id, v) for x, v in d.items())))
            if k not in cur or cur[k][0] > c:
                cur[k] = (c, d)
        for c1, d1 in pos:
            for c2, d2 in neg_:
                p, n = d1[a], -d2[a]
                d = {}
                for x, v in d1.items():
                    d[x] = d.get(x, 0) + v * n
                for x, v in d2.items():
                    d[x] = d.get(x, 0) + v * p
                d = {x: v for x, v in d.items() if v}
                c, d = _tight(c1 * n + c2 * p, d)
                if not d:
                    if c < 0:
                        return True
                    continue
                k = tuple(sorted(((x.id, v) for x, v in d.items())))
                if k not in cur or cur[k][0] > c:
                    cur[k] = (c, d)
        rows = list(cur.values())
        if len(rows) > limit:
            return False
    return False
