"""C29: the command-line parser.

The parser is decided in three parts: what one registered callback does with one argument (the handler the stored
function object runs), which callbacks `parse` runs for which arguments, and what `instance` stores for each option."""
import re
from ..core import *
from ..terms import *
from .. import build, engine
from .observers import const_of
from .registry import rec_loc

A0, A1, A2, A3 = (mk("arg", (i,), 64) for i in range(4))
N31 = mk("hole", ("arguments",), 31)
I31 = mk("hole", ("index",), 31)
N, I = zext(N31, 32), zext(I31, 32)      # an int that is not negative
N64, I64 = zext(N31, 64), zext(I31, 64)
PRE = [(ult(I64, N64), True)]
HANDLER = "|^std::_Function_handler<void \\(.*std::(vector|span)<.*>::_M_invoke\\("
HERE = "include/xitren/func/argv_parser.hpp"


def own(d):
    """A demangled name from the function's own qualified name on."""
    deep, start, i = 0, 0, 0
    while i < len(d):
        c = d[i]
        if deep == 0:
            if d.startswith("(anonymous namespace)", i):
                i += 21
                continue
            if d.startswith("operator", i) and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == "_")) and not (d[i + 8:i + 9].isalnum() or d[i + 8:i + 9] == "_"):
                break
            if c == " ":
                start = i + 1
            if c == "(":
                break
        if c in "<({[":
            deep += 1
        if c in ">)}]":
            deep -= 1
        i += 1
    return d[start:]


def has(t, x):
    return t is x or bool(find(t, lambda y: y is x))


def said(f, atom):
    """True, False or None: what the facts say of an atom."""
    if decide(f, atom, True) == PROVED:
        return True
    if decide(f, atom, False) == PROVED:
        return False
    return None


def wide(t):
    """A 32-bit sum of the index and the number of arguments: (constant, terms added, terms taken away) at 64 bits; None: another term."""
    c, d = lin_parts(t)
    if c >= 1 << 31:
        c -= 1 << 32
    up, down = [], []
    for a, k in d.items():
        if k >= 1 << 31:
            k -= 1 << 32
        if abs(k) != 1 or abs(c) > 1 << 20:
            return None
        if a.op == "trunc" and a.a[0].op == "k":        # an int counter
            a = a.a[0]
        elif a.op == "zext" and a.a[0].w == 31:
            a = zext(a.a[0], 64)
        else:
            return None
        (up if k > 0 else down).append(a)
    return (c, up, down) if len(up) <= 1 and len(down) <= 1 else None


def widen(t):
    """The same condition on int over 64 bits, where nothing wraps."""
    if t.op in ("ult", "slt") and t.a[0].w == 32:
        x, y = wide(t.a[0]), wide(t.a[1])
        if x and y and (t.op == "slt" or not x[2] and not y[2] and x[0] >= 0 and y[0] >= 0):
            m = max(0, -x[0], -y[0])
            l, r = const(x[0] + m, 64), const(y[0] + m, 64)
            for a in x[1] + y[2]:
                l = add(l, a)
            for a in y[1] + x[2]:
                r = add(r, a)
            return ult(l, r)
    if t.op == "eq0" and t.a[0].w == 32:
        x = wide(t.a[0])
        if x:
            l, r = const(max(0, x[0]), 64), const(max(0, -x[0]), 64)
            for a in x[1]:
                l = add(l, a)
            for a in x[2]:
                r = add(r, a)
            return eq(l, r)
    return t


def split(s):
    """A list of template arguments apart."""
    out, deep, cur = [], 0, ""
    for c in s:
        deep += (c in "<([{") - (c in ">)]}")
        if c == "," and deep == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


class Handler(engine.Analysis):
    """The list of arguments is [begin, begin + 16 * n); the index is any below n."""

    def __init__(self, *a, **kw):
        self.reads = {}
        super().__init__(*a, **kw)

    def branch(self, st, c):
        return super().branch(st, widen(c))

    def call(self, i, st, K):
        out = super().call(i, st, K)
        for s in out:
            if isinstance(s, engine.State) and s.events and s.events[-1].kind == "call" and s.events[-1].get("id") == i["id"]:
                e = s.events[-1]
                m = re.match(r"std::holds_alternative<(.*)>\(", own(e.dem or ""))
                ts = split(m.group(1)) if m else []
                if ts and ts[0] in ts[1:] and i.get("ty") == "i1":
                    s.env[i["id"]] = eq(self.load(s.mem, addc(e.args[0], 8), 1, s), const(ts.index(ts[0], 1) - 1, 8))
                    s.events = s.events[:-1]
        return out

    def load(self, node, addr, size, st, depth=0):
        if addr is A1 and size == 4:
            return I
        if addr is A1 and size == 8:
            return I64
        if addr is addc(A2, 8) and size == 8:
            return N64 if self.span else add(self.begin, mulc(N64, 16))
        if depth == 0 and has(addr, self.begin):
            self.reads.setdefault((addr, size), []).append((st.facts, None))
        return super().load(node, addr, size, st, depth)


class Vec(Handler):
    span = False
    begin = mk("ld", (A2, 8, 0), 64)


class Span(Handler):
    span = True
    begin = mk("ld", (A2, 8, 0), 64)


def textual(t):
    return {"name": "the option's name", "constant": "a constant"}.get(t[0], f"argument {show(t[1])}") if t else "?"


class Texts:
    """Which text a view or a string object holds."""
    F = None          # what is known on the whole way

    def __init__(self, en, cl, shape, begin):
        self.en, self.cl, self.shape, self.begin = en, cl, shape, begin

    def index(self, addr):
        """k for the address of the k-th argument."""
        o = sub(addr, self.begin)
        if has(o, self.begin):
            return None
        return divexact(o, 16)

    def pair(self, n, p, events):
        """The text of a length and a pointer."""
        if n.op == "ld" and p.op == "ld" and p.a[0] is addc(n.a[0], 8):
            k = self.index(n.a[0]) if has(n.a[0], self.begin) else None
            if k is not None:
                return ("arg", k)
            if self.shape.view is not None and n.a[0] is addc(self.cl, self.shape.view):
                return ("name", None)
        if n.op == "ev" and p.op == "ev" and n.a[0] is p.a[0] and n.a[1] == 0 and p.a[1] == 1:
            for e in events:
                if e.kind == "call" and e.ret is n.a[0] and "::operator std::basic_string_view" in e.dem:
                    return self.string(e.args[0], events)
        a = self.part(n, events, ("size", "length"))
        b = self.part(p, events, ("data", "c_str"))
        if a is not None and a == b:
            return a
        if p.op == "glob":
            return ("constant", None)
        # the characters of an argument, but another number of them
        if p.op == "ld" and has(p.a[0], self.begin):
            k = self.index(addc(p.a[0], -8))
            if k is not None and self.F is not None:
                size = mk("ld", (addc(p.a[0], -8), 8, 0), 64)
                sizes = [e.ret for e in events if e.kind == "call" and re.match(r"(std::__cxx11::basic_string<>|std::basic_string_view<>)::(size|length|r?find\w*)\(", squash(own(e.dem or "")))]
                v = decide(self.F, eq(n, size), True, free=sizes)
                if v == PROVED:
                    return ("arg", k)
                if v == REFUTED:
                    return ("part", k)
        return None

    def part(self, t, events, names):
        for e in events:
            if e.kind == "call" and e.ret is t and e.args:
                m = re.match(r"std::__cxx11::basic_string<.*>::(\w+)\(", own(e.dem or ""))
                if m and m.group(1) in names:
                    return self.string(e.args[0], events)
        return None

    def view(self, addr, e, events):
        """The text of a view object in memory, as it is at an event."""
        if has(addr, self.begin):
            k = self.index(addr)
            return ("arg", k) if k is not None else None
        st = engine.State()
        st.facts = e.facts
        n, p = (self.en.an.load(e.mem, addc(addr, o), 8, st) for o in (0, 8))
        return self.pair(n, p, events)

    def string(self, addr, events):
        """The text of a string object."""
        if self.shape.name is not None and addr is addc(self.cl, self.shape.name):
            return ("name", None)
        for k in range(len(events) - 1, -1, -1):
            e = events[k]
            if e.kind != "call" or not e.args or e.args[0] is not addr:
                continue
            o = own(e.dem or "")
            m = re.match(r"std::__cxx11::basic_string<>::(operator\+?=|~?\w+)", squash(o))
            if not m:
                return None
            if m.group(1) in ("basic_string", "operator=", "assign"):
                return self.source(e, e.args[1:], events[:k])
            if m.group(1) == "substr":      # of another string, made here
                return ("part", None)
            if m.group(1) not in ("data", "c_str", "size", "length", "operator", "compare", "empty", "begin", "end"):
                return None
        return None

    def source(self, e, args, events):
        """The whole text a string operation is given."""
        ps = params(e.dem)
        if not args:
            return None
        if len(args) >= 2 and ps[:1] and ps[0] == "view":
            return self.pair(args[0], args[1], events) if len(ps) < 2 or ps[1] in ("alloc",) else None
        if ps[:1] == ["view&"]:
            return self.view(args[0], e, events) if len(ps) < 2 or ps[1] == "alloc" else None
        if ps[:1] == ["string&"]:
            return self.string(args[0], events) if len(ps) < 2 or ps[1] == "alloc" else None
        if ps[:2] == ["char*", "size"]:
            return self.pair(args[1], args[0], events) if len(args) >= 2 else None
        if ps[:1] == ["char*"] and args[0].op == "glob":
            return ("constant", None)
        if ps[:1] == ["char*"]:
            return self.chars(args[0], events) if len(ps) < 2 or ps[1] == "alloc" else None
        return None

    def chars(self, p, events):
        """A pointer to a text up to its end.  The arguments are made of such texts."""
        if p.op == "ld" and has(p.a[0], self.begin):
            k = self.index(addc(p.a[0], -8))
            return ("arg", k) if k is not None else None
        return self.part(p, events, ("data", "c_str"))


def squash(s):
    """Template arguments dropped."""
    out, deep, i = [], 0, 0
    while i < len(s):
        m = re.match(r"operator(<=>|<<=?|>>=?|<=?|>=?|->\*?|\(\))", s[i:])
        if deep == 0 and m:
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        c = s[i]
        if c == "<":
            deep += 1
            if deep == 1:
                out.append("<")
        elif c == ">":
            deep -= 1
            if deep == 0:
                out.append(">")
        elif deep == 0:
            out.append(c)
        i += 1
    return "".join(out)


def params(dem, raw=False):
    """The kinds of a function's parameters: view, view&, string&, char*, size, alloc, other."""
    o = squash(own(dem or ""))
    i = o.find("(", o.find("operator()") + 10 if "operator()" in o else 0)
    if i < 0:
        return []
    deep, cur, out = 0, "", []
    for c in o[i:]:
        if c == "(":
            deep += 1
            if deep == 1:
                continue
        if c == ")":
            deep -= 1
            if deep == 0:
                break
        if c == "," and deep == 1:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    if raw:
        return [p.strip() for p in out]
    r = []
    for p in out:
        p = p.strip()
        if "allocator" in p:
            r.append("alloc")
        elif "basic_string_view" in p or "__type_identity" in p:
            r.append("view&" if p.endswith("&") else "view")
        elif "basic_string" in p:
            r.append("string&")
        elif p.startswith("char const*") or p.startswith("char*"):
            r.append("char*")
        elif p in ("unsigned long", "long", "int"):
            r.append("size")
        else:
            r.append(p)
    return r


def quiet(an, e, st):
    """A string operation changes the string it is called on and those it is given to change."""
    q = squash(own(e.get("dem") or ""))
    if e.kind != "call" or not re.match(r"std::__cxx11::basic_string<>::|std::map<>::(operator\[\]|c?begin|c?end|find|contains|size|empty)|std::function<>::operator\(\)", q):
        return None
    out, a, const_ = [], list(e.args), q.endswith(" const")
    if q.startswith("std::__cxx11") and not const_:
        out.append((a[0], 32))
    ps = params(e.dem, True)
    if len(ps) == len(a) - 1:
        for p, x in zip(ps, a[1:]):
            if (p.endswith("&") or p.endswith("*")) and not re.search(r"const ?[&*]$", p):
                out.append((x, 32) if "basic_string<" in p else (an.root(x)[0], None))
    elif any("&&" in p for p in ps):
        return None
    return [(x, n) for x, n in out if x.w == 64 and not is_int(x) and an.root(x)[0] is not None and an.root(x)[0].op == "alloca"]


class Shape:
    """Where a callback keeps the name, the member and the parser."""

    def __init__(self, unit):
        cands = []
        for n, r in unit["layouts"].items():
            if not n.startswith("(lambda at ") or "/include/xitren/" not in n:
                continue
            plain = lambda f: re.sub(r"\bconst\b", "", f.type).strip()
            prop = [f for f in r.all if plain(f).startswith(("std::variant<", "parameter_type"))]
            name = [f for f in r.all if plain(f).startswith(("std::basic_string<char>", "std::string")) and not plain(f).startswith("std::string_view") and "::" not in plain(f)[len("std::basic_string<char>"):]]
            view = [f for f in r.all if plain(f) in ("std::string_view", "std::basic_string_view<char>")]
            this = [f for f in r.all if re.search(r"\*$", f.type.strip()) and ("argv_parser" in f.type or f.type.split()[0] in ("opts", "struct"))]
            if prop and (name or view) and this:
                cands.append((n, r, prop, name, view, this))
        self.none = not cands
        self.refs = []
        if not cands:
            return
        if len(cands) != 1:
            raise Broken("the callback of an option is not recognised")
        self.tn, self.rec, prop, name, view, this = cands[0]
        self.size = self.rec.size
        top = lambda fs: min(fs, key=lambda f: f.depth)
        self.prop = top(prop).off
        self.name = self.view = None
        if name:
            self.name = top(name).off
        else:
            self.view = top(view).off
        self.this = this[0].off
        self.refs = [f.off for f in (top(prop), top(name or view)) if f.type.rstrip().endswith("&")]
        self.K = {k: const_of(unit, "vp_kind_" + k) for k in "sidb"}


def unit_of(defs=()):
    return build.unit("argv", list(defs), prims="argv.txt", entries=HANDLER)


def c29(chk, tier):
    for defs in ((), ("VP_REORDERED",)):
        shape(chk, unit_of(defs), ", ".join(defs).replace("VP_", "").lower())


def shape(chk, unit, tag):
    """One options type."""
    sh = Shape(unit)
    hs = [f["dem"] for f in unit["functions"] if "_M_invoke(" in f["dem"]]
    if len(hs) > 1 or not hs and not sh.none:
        raise Broken("the handler of an option is not recognised")
    if not sh.none and not sh.refs:
        handler(chk, unit, sh, hs[0], tag)
    parse(chk, unit, tag)
    instance(chk, unit, sh, tag)


# ---------------------------------------------------------------- one callback, one argument
class Way:
    """What one way through the handler compares and does."""

    def __init__(self):
        self.same = None          # True: the argument equals the name; False: it differs; None: not decided on this way
        self.seen = False         # compared at all
        self.weak = None          # a weaker test than equality holds
        self.effects = []         # (event, what, offset term, text or None)
        self.odd = []             # events whose effect on the options is not understood


def read_way(en, r, sh, cl, F):
    an = en.an
    this = mk("ld", (addc(cl, sh.this), 8, 0), 64)
    T = Texts(en, cl, sh, an.begin)
    T.F = F
    w = Way()
    streams, temps = {}, {}
    ev = list(r.events)

    def stream(a):
        root = an.root(a)[0]
        return root if root is not None and root.op == "alloca" and root in streams else None

    def idx(t):
        return t is not None and t[0] == "arg" and eqv(F, t[1], I64) == PROVED

    for n, e in enumerate(ev):
        past = ev[:n]
        if e.kind == "store":
            root = an.root(e.addr)[0]
            if root is not None and root.op == "alloca":
                continue
            if has(e.addr, this):
                by = [temps[t] for x in find(e.val, lambda x: x.op == "ld") for t in [an.root(x.a[0])[0]] if t in temps]
                if len(by) == 1:
                    op = "value" if e.val.op == "ld" else "integer" if e.val.op.endswith("sitofp") and e.val.a[0].op == "ld" else "store"
                    w.effects.append((e, op, sub(e.addr, this), by[0]))
                    continue
                w.effects.append((e, "store", sub(e.addr, this), None))
            elif root is not None and root.op != "exc":
                w.odd.append(e)
            continue
        if e.kind == "copy" or e.kind == "set":
            a = e.get("addr") or e.get("dst")
            if a is None or an.root(a)[0] is None or an.root(a)[0].op != "alloca":
                w.odd.append(e)
            continue
        if e.kind != "call":
            if e.kind in ("vcall", "icall", "loop"):
                w.odd.append(e)
            continue
        o = own(e.dem or "")
        q = squash(o)
        args = e.args
        ps = params(e.dem)
        if "_M_get_pointer(" in q or re.search(r"::~\w+\(", q):
            continue
        m = re.match(r"std::__cxx11::basic_string<>::(operator\+?=|~?\w+)", q)
        sm = re.match(r"std::basic_string_view<>::(\w+)\(", q)
        # -- tests
        test = None
        if q.startswith("std::operator==") or q.startswith("std::operator!="):
            ts, a = [], list(args)
            for p in ps:
                if p == "view" and len(a) >= 2:
                    ts.append(T.pair(a[0], a[1], past))
                    a = a[2:]
                elif p == "view&":
                    ts.append(T.view(a[0], e, past))
                    a = a[1:]
                elif p == "string&":
                    ts.append(T.string(a[0], past))
                    a = a[1:]
                elif p == "char*":
                    ts.append(T.chars(a[0], past))
                    a = a[1:]
            test = ("eq" if "==" in q[:16] else "ne", ts)
        elif (m or sm) and (m or sm).group(1) == "compare":
            me = T.string(args[0], past) if m else T.view(args[0], e, past)
            if ps == ["view"]:
                test = ("cmp", [me, T.pair(args[1], args[2], past)])
            elif ps == ["string&"]:
                test = ("cmp", [me, T.string(args[1], past)])
            elif ps == ["view&"]:
                test = ("cmp", [me, T.view(args[1], e, past)])
            elif ps == ["char*"]:
                test = ("cmp", [me, T.chars(args[1], past)])
            else:
                test = ("weak0", [me])
        elif (m or sm) and (m or sm).group(1) in ("starts_with", "ends_with", "contains"):
            test = ("weak", [T.string(args[0], past) if m else T.view(args[0], e, past)])
        elif (m or sm) and (m or sm).group(1) in ("find", "rfind"):
            test = ("weak0", [T.string(args[0], past) if m else T.view(args[0], e, past)])
        if test:
            kind, ts = test
            z = eq(e.ret, const(0, e.ret.w))
            b = said(F, z)
            if kind in ("eq", "ne", "cmp"):
                if len(ts) == 2 and any(t and t[0] == "name" for t in ts) and any(idx(t) for t in ts):
                    w.seen = True
                    if b is not None:
                        w.same = b if kind in ("cmp", "ne") else not b
                elif len(ts) == 2 and all(t is not None for t in ts) and any(t[0] == "name" for t in ts):
                    if b is not None and (b if kind in ("cmp", "ne") else not b) and any(t[0] == "part" for t in ts):
                        w.weak = e
            elif b is not None and (b is False if kind == "weak" else b is True) and any(idx(t) or t and t[0] == "name" for t in ts):
                w.weak = e
            continue
        # -- streams
        if re.match(r"std::__cxx11::basic_(i|o)?stringstream<>::basic_(i|o)?stringstream\(", q):
            root = an.root(args[0])[0]
            if root is not None and root.op == "alloca":
                streams[root] = []
                if ps[:1] == ["string&"]:
                    streams[root].append(T.string(args[1], past))
                continue
        if q.startswith("std::operator<<") and stream(args[0]) is not None:
            if ps[1:] == ["view"]:
                streams[stream(args[0])].append(T.pair(args[1], args[2], past))
            elif ps[1:] == ["string&"]:
                streams[stream(args[0])].append(T.string(args[1], past))
            elif ps[1:] == ["char*"]:
                streams[stream(args[0])].append(T.chars(args[1], past))
            else:
                streams[stream(args[0])].append(None)
            continue
        if re.search(r"::write\(|__ostream_insert", q) and stream(args[0]) is not None and len(args) >= 3:
            streams[stream(args[0])].append(T.pair(args[2], args[1], past))
            continue
        if re.search(r"::operator>>|::_M_extract", q) and stream(args[0]) is not None and len(args) >= 2:
            s = streams[stream(args[0])]
            if has(args[1], this):
                w.effects.append((e, "word" if q.startswith("std::operator>>") else "value", sub(args[1], this), s[0] if len(s) == 1 else None))
                streams[stream(args[0])] = [None]
                continue
            root = an.root(args[1])[0]
            if root is not None and root.op == "alloca" and root is args[1]:
                temps[root] = s[0] if len(s) == 1 else None
                streams[stream(args[0])] = [None]
                continue
        if q.startswith("std::getline") and stream(args[0]) is not None and len(args) >= 2 and has(args[1], this):
            w.effects.append((e, "word", sub(args[1], this), None))
            continue
        # -- strings
        if m and has(args[0], this):
            if m.group(1) in ("operator=", "assign"):
                w.effects.append((e, "assign", sub(args[0], this), T.source(e, args[1:], past)))
            elif m.group(1) == "clear":
                w.effects.append((e, "clear", sub(args[0], this), None))
            elif m.group(1) in ("append", "operator+="):
                w.effects.append((e, "append", sub(args[0], this), T.source(e, args[1:], past)))
            elif not re.search(r"\) const$", o):
                w.effects.append((e, "edit", sub(args[0], this), None))
            continue
        if q.startswith("std::operator>>") and len(args) >= 2 and has(args[1], this):
            w.effects.append((e, "word", sub(args[1], this), None))
            continue
        if any(has(a, this) for a in args) and not re.search(r"\) const$", o):
            w.odd.append(e)
        elif any(has(a, cl) for a in args) and not re.search(r"\) const$", o) and not m and not q.startswith("std::get<"):
            w.odd.append(e)
    if w.same is None:
        for e in ev:
            if e.kind == "call" and e.args and re.match(r"std::__cxx11::basic_string<>::(size|length)\(", squash(own(e.dem or ""))) and T.string(e.args[0], []) == ("name", None):
                # texts of different lengths
                if said(F, eq(e.ret, mk("ld", (add(an.begin, mulc(I64, 16)), 8, 0), 64))) is False:
                    w.same, w.seen = False, True
    return w, this


def plain(F, extra):
    """Are all the facts about the index, the number of arguments and the kind of the option?"""
    ok = {I31, N31} | set(extra)
    for a, _ in list(F.lits) + list(F.opq):
        for l in leafs(F.norm(a)):
            t = l
            while t.op in ("zext", "sext", "trunc"):
                t = t.a[0]
            if t not in ok:
                return False
    return True


def handler(chk, unit, sh, dem, tag):
    cls = Span if "std::span<" in own(dem).split("_M_invoke(")[-1] else Vec
    en = chk.analyse(unit, dem, cls=cls, facts=PRE, unwind=False, effects=quiet)
    name = "a registered option, given one argument" + (tag and f" ({tag})")
    if en.err:
        return
    en.name = name
    cl = None
    for r in en.recs:
        for e in r.events:
            if e.kind == "call" and "_M_get_pointer(" in e.dem:
                cl = e.ret
    if cl is None:
        cl = mk("ld", (A0, 8, 0), 64) if sh.size > 16 else A0
    # -- what is read
    seen = set()
    rd = [(a, s, f) for (a, s), fs in en.an.reads.items() for f, _ in fs]
    for r in en.recs:
        for e in r.events:
            if e.kind == "call":
                ps = params(e.dem)
                for a in e.args:
                    if has(a, en.an.begin) and a.op != "ld" and not any(x.op == "ld" and has(x.a[0], en.an.begin) and x is not en.an.begin for x in lin_parts(a)[1]):
                        rd.append((a, 16, e.facts))
                        seen.add(e.loc and str(e.loc[0]))
    worst = {}
    for a, s, f in rd:
        o = sub(a, en.an.begin)
        v = decide(f, ult(o, mulc(N64, 16)), True)
        k = (a, s)
        if k not in worst or (v == REFUTED) or (v == UNDEC and worst[k] == PROVED):
            worst[k] = v
    for (a, s), v in worst.items():
        chk.ob(name, "no argument past the end of the list is read", v, HERE, f"argument {show(divexact(sub(a, en.an.begin), 16) or a)} is read without knowing that there is one")
    # -- what is done
    pidx = mk("ld", (addc(cl, sh.prop + 8), 1, 0), 8)
    poff = mk("ld", (addc(cl, sh.prop), 8, 0), 64)
    taken = {k: 0 for k in "sidb"}
    for r in en.recs:
        if r.kind == "terminate":
            continue
        for kind in "sidb":
            for nxt in (True, False):
                F = r.facts.copy()
                ok = F.add(eq(pidx, const(sh.K[kind], 8)), True) and F.add(ult(addc(I64, 1), N64), nxt)
                if not nxt:
                    ok = ok and F.add(eq(addc(I64, 1), N64), True)
                if not ok or F.empty():
                    continue
                one(chk, en, r, F, sh, cl, kind, nxt, poff, pidx, taken, name)
    for k in "sidb":
        what = {"s": "text", "i": "integer", "d": "floating-point", "b": "flag"}[k]
        if taken[k] == 0 and not en.err:
            chk.ob(name, f"a {what} option can be taken", UNDEC, HERE, "no way takes it")


def one(chk, en, r, F, sh, cl, kind, nxt, poff, pidx, taken, name):
    w, this = read_way(en, r, sh, cl, F)
    loc = rec_loc(r, en) or HERE
    what = {"s": "a text option", "i": "an integer option", "d": "a floating-point option", "b": "a flag"}[kind] + ("" if kind == "b" else " with an argument following" if nxt else " in last position")
    if r.kind in ("throw", "noreturn"):
        chk.ob(name, "a callback does not fail", REFUTED if plain(r.facts, (pidx,)) or w.same is not None else UNDEC, loc, f"{what}: an exception leaves the parser")
        return
    touch = [x for x in w.effects]
    if w.same is False:
        chk.ob(name, "an argument that is not the name changes nothing", REFUTED if touch else UNDEC if w.odd else PROVED, touch[0][0].loc if touch else loc, f"{what}: changed although the argument differs from the name")
        return
    if w.same is None:
        if touch and w.weak is not None:
            chk.ob(name, "an argument that is not the name changes nothing", REFUTED, w.weak.loc, f"{what}: taken on a test weaker than equality")
        elif touch and not w.seen and plain(r.facts, (pidx,)):
            chk.ob(name, "an argument that is not the name changes nothing", REFUTED, touch[0][0].loc, f"{what}: taken without comparing the argument with the name")
        elif not touch and not w.odd and plain(r.facts, (pidx,)) and (kind == "b" or nxt):
            chk.ob(name, "an argument equal to the name is taken", REFUTED, loc, f"{what}: passed over without comparing the argument with the name")
        elif not touch and not w.odd and not (kind == "b" or nxt):
            chk.ob(name, "an option with nothing following changes nothing", PROVED, loc)
        else:
            chk.ob(name, "the argument is compared with the name", UNDEC, loc, f"{what}: {show(r.ret) if r.ret is not None else ''} the test is not understood")
        return
    # equal
    if w.odd:
        chk.ob(name, "what an option does is understood", UNDEC, w.odd[0].loc, f"{what}: {w.odd[0]}"[:200])
        return
    for e, op, off, _ in touch:
        v = eqv(F, off, poff)
        chk.ob(name, "only the option's own member changes", v if v != REFUTED or has(off, poff) or not find(off, lambda t: t.op == "ld") else UNDEC, e.loc, f"{what}: {show(off)} instead of the member")
    if kind == "b":
        taken[kind] += 1
        good = [x for x in touch if x[1] == "store" and x[0].size == 1 and x[0].val is const(1, 8)]
        other = [x for x in touch if x not in good]
        if not touch:
            chk.ob(name, "a flag equal to the argument becomes true", REFUTED if plain_but(r, F, pidx) else UNDEC, loc, "the flag is left as it was")
        elif other:
            chk.ob(name, "a flag equal to the argument becomes true", REFUTED if other[-1][1] in ("value", "word") or other[-1][1] == "store" and (is_int(other[-1][0].val) or find(other[-1][0].val, lambda t: t.op == "ld")) else UNDEC, other[-1][0].loc, f"the flag is given {other[-1][1]} {show(other[-1][0].val) if other[-1][1] == 'store' else ''}")
        else:
            chk.ob(name, "a flag equal to the argument becomes true", PROVED, good[-1][0].loc)
        return
    if not nxt:
        chk.ob(name, "an option with nothing following changes nothing", REFUTED if touch else PROVED, touch[0][0].loc if touch else loc, f"{what}: the member is changed")
        return
    taken[kind] += 1
    if not touch:
        chk.ob(name, "a valued option takes the argument that follows", REFUTED if plain_but(r, F, pidx) else UNDEC, loc, f"{what}: the member is left as it was")
        return
    e, op, off, text = touch[-1]
    if op == "append":
        if len(touch) > 1 and touch[-2][1] == "clear":
            op = "assign"
        elif all(x[1] == "append" for x in touch) and not any(x.kind == "call" and re.search(r"::(clear|resize|erase)\(", x.dem or "") for x in r.events):
            chk.ob(name, "a valued option takes the argument that follows", REFUTED, e.loc, f"{what}: the text is appended to what the option held")
            return
    if op == "integer" and kind == "d":
        chk.ob(name, "a valued option takes the whole argument", REFUTED, e.loc, f"{what}: it is read as an integer")
        return
    if op == "word" and kind == "s":
        chk.ob(name, "a text option takes the whole argument", REFUTED, e.loc, "only a word or a line of it is taken")
        return
    if op == ("assign" if kind == "s" else "value") and text is not None:
        if text[0] == "part":
            chk.ob(name, "a text option takes the whole argument", REFUTED if op == "assign" else UNDEC, e.loc, "only a part of it is taken")
        elif text[0] == "arg":
            v = eqv(F, text[1], addc(I64, 1))
            chk.ob(name, "a valued option takes the argument that follows", v, e.loc, f"{what}: takes argument {show(text[1])}")
        else:
            chk.ob(name, "a valued option takes the argument that follows", REFUTED, e.loc, f"{what}: takes its own name")
        return
    chk.ob(name, "a valued option takes the argument that follows", UNDEC, e.loc, f"{what}: {op} of a text that is not understood")


def plain_but(r, F, pidx):
    """Facts about the index, the kind and the comparison itself only."""
    ok = {I31, N31, pidx}
    for a, _ in list(r.facts.lits) + list(r.facts.opq):
        for l in leafs(r.facts.norm(a)):
            t = l
            while t.op in ("zext", "sext", "trunc"):
                t = t.a[0]
            if t not in ok and t.op != "call":
                return False
    return True


# ---------------------------------------------------------------- every callback, every argument
LIST = mk("hole", ("list",), 64)


class Scan(engine.Analysis):
    """argc is N; a vector made of a range of pointers holds one view for each of them."""

    def branch(self, st, c):
        return super().branch(st, widen(c))

    def load(self, node, addr, size, st, depth=0):
        if addr is A2 and size == 4:
            return N
        return super().load(node, addr, size, st, depth)

    def call(self, i, st, K):
        out = super().call(i, st, K)
        for s in out:
            if isinstance(s, engine.State) and s.events and s.events[-1].kind == "call" and s.events[-1].get("id") == i["id"]:
                e = s.events[-1]
                q = squash(own(e.dem or ""))
                if len(e.args) >= 3 and re.match(r"std::vector<>::(vector|assign)<>\(", q) and "::~" not in q:
                    n = divexact(sub(e.args[2], e.args[1]), 8)
                    if n is not None and self.root(e.args[0])[0] is e.args[0]:
                        s.mem = engine.Node(s.mem, "st", e.args[0], 8, LIST)
                        s.mem = engine.Node(s.mem, "st", addc(e.args[0], 8), 8, add(LIST, mulc(n, 16)))
        return out


def calls(events):
    """Every call of a stored callback, with the loops it lies in: [(event, [(loop event, way), ...])]."""
    out = []
    for e in events:
        if e.kind == "call" and re.match(r"std::function<>::operator\(\)\(", squash(own(e.dem or ""))):
            out.append((e, []))
        if e.kind == "loop":
            for al in e.loop.alts:
                out += [(x, [(e, al)] + ls) for x, ls in calls(al.events)]
    return out


def loops(events):
    return [e for e in events if e.kind == "loop"]


def grounds(t):
    """The unknowns at the bottom of a term."""
    if is_int(t):
        return set()
    sub_ = [x for x in t.a if hasattr(x, "op")]
    return set().union(*map(grounds, sub_)) if sub_ else {t}


def cut(t):
    """A part of the bits of the number of arguments."""
    if is_int(t):
        return False
    if t.op in ("and", "trunc") and t.w > 8 and has(t, N31) and t is not N31 and t.op != "trunc" or t.op == "trunc" and t.w < 31 and has(t, N31):
        return True
    return any(cut(x) for x in t.a if hasattr(x, "op"))


def short_of(lits, left, count):
    """A number of arguments of which the scan, left where its round reaches a bound computed from that number alone, sees less."""
    if len(left) != 1 or left[0][1] or left[0][0].op not in ("ult", "slt"):
        return None
    r, b = left[0][0].a
    if grounds(b) != {N31} or grounds(r) != {count}:
        return None
    for n in (3, 300, 70000):
        by = {N31: const(n, 31)}
        if any(not is_int(x) or bool(ival(x)) != p for x, p in ((subst(a, by), p) for a, p in lits if not has(a, count))):
            continue
        x = subst(b, by)
        if is_int(x) and 0 <= sval(x) < n:
            return n, sval(x)
    return None


def only_about(lits, ok):
    for a, _ in lits:
        for l in leafs(a):
            while l.op in ("zext", "sext", "trunc"):
                l = l.a[0]
            if l not in ok:
                return False
    return True


def sources(t, events, seen=None):
    """What a term is computed from, through the calls made."""
    seen = set() if seen is None else seen
    out = set()
    for l in leafs(t):
        if l in seen:
            continue
        seen.add(l)
        if l.op == "call" or l.op == "ev":
            c = l if l.op == "call" else l.a[0]
            hit = [e for e in events if e.kind == "call" and e.ret is c]
            if not hit:
                out.add(l)
            for e in hit:
                for a in e.args:
                    out |= sources(a, events, seen)
        elif l.op == "alloca":
            out.add(l)
            for e in events:
                if e.kind == "call" and any(find(a, lambda x: x is l) for a in e.args):
                    for a in e.args:
                        out |= sources(a, events, seen)
                if e.kind == "store" and has(e.addr, l):
                    out |= sources(e.val, events, seen)
        elif l.op == "ld":
            out |= sources(l.a[0], events, seen)
            out.add(l)
        else:
            out.add(l)
    return out


def blind(lits, events, ok):
    """Literals that depend on nothing but the given terms and constants (an argument's text, say), and on something at all."""
    some = False
    for a, _ in lits:
        while a.op == "not":
            a = a.a[0]
        if a.op == "eq0" and a.a[0].op == "ld" and a.a[0].w == 64:
            return False          # a null pointer, or an empty text
        for l in sources(a, events):
            while l.op in ("zext", "sext", "trunc"):
                l = l.a[0]
            if l.op in ("alloca", "glob", "int", "k"):
                continue
            if l.op == "ld":
                continue          # what it is loaded from is looked at
            if l not in ok:
                return False
            some = True
    return some


def parse(chk, unit, tag):
    en = chk.analyse(unit, "vp_parse", cls=Scan, effects=quiet)
    if en.err:
        return
    en.name = name = "parse" + (tag and f" ({tag})")
    off = offsets(unit)
    texts = {LIST, A3, N31}
    for r in en.rets():
        loc = rec_loc(r, en) or HERE
        cs = calls(r.events)
        if not cs:
            none = said(r.facts, eq(N64, const(0, 64))) is True
            chk.ob(name, "every callback is run for every argument", PROVED if none else REFUTED if not any(e.kind in ("icall", "vcall") for e in r.events) and not loops(r.events) and only_about(r.facts.lits, {N31}) else UNDEC, loc, "no callback is run on this way")
            continue
        if all(len(ls) == 1 for _, ls in cs) and len({id(ls[0][0]) for _, ls in cs}) == 1:
            al = cs[0][1][0][1]
            c = cs[0][0]
            first = [e for e in al.events if e.kind == "call" and re.match(r"std::(map|_Rb_tree)<>::c?begin\(", squash(own(e.dem or "")))]
            only = len(cs) == 1 and first and is_int(sub(c.args[0], first[-1].ret)) and not loops(al.events)
            chk.ob(name, "every callback is run for every argument", REFUTED if only else UNDEC, c.loc, "only the first callback is run")
            continue
        if any(len(ls) != 2 for _, ls in cs) or len({id(ls[0][0]) for _, ls in cs}) != 1 or len({id(ls[1][0]) for _, ls in cs}) > len(cs):
            chk.ob(name, "every callback is run for every argument", UNDEC, loc, "the callbacks are not run in a loop within a loop")
            continue
        outer = cs[0][1][0][0]
        K = outer.loop.K
        # -- all arguments
        e = cs[0][0]
        if len(e.args) != 3 or e.args[1].w != 32:
            chk.ob(name, "every callback is run for every argument", UNDEC, e.loc, "the callback takes something else")
            continue
        k32 = trunc(K, 32)
        inner_walk = all(begins(ls[0][1], ls[1][0].loop) for _, ls in cs)
        for c, ls in cs:
            i = c.args[1]
            rest = set(lin_parts(i)[1]) - {k32, N}
            on_inner = inner_walk and any(has(x, ls[1][0].loop.K) for x in lin_parts(i)[1])
            v = PROVED if i is k32 else REFUTED if has(i, k32) and not rest or is_int(i) or on_inner else UNDEC
            chk.ob(name, "the callbacks are run for each argument in turn", v, c.loc, f"run with index {show(i)} in round {show(K)}")
            w = wide(i)
            v = UNDEC
            if w and not w[2] and w[0] >= 0 and len(w[1]) == 1:
                v = decide(c.facts, ult(addc(w[1][0], w[0]), N64), True)
                if v == REFUTED and any(cut(a) for a, _ in c.facts.lits):
                    v = UNDEC  # a bound made of a part of the count may be right where the count is small
            chk.ob(name, "no callback is run for an argument past the end", v, c.loc, f"index {show(i)} of {show(N)}")
            view(chk, name, en, r, c, c.args[2], loc)
        count = next((f.count for f in r.foralls if f.loop is outer.loop), None)
        v = decide(r.facts, ult(count, N64), False) if count is not None else UNDEC
        left = [(a, p) for a, p in r.facts.lits if count is not None and has(a, count)]
        ok = only_about(list(r.facts.lits), {N31, count})
        few = None if v == PROVED or count is None else short_of(r.facts.lits, left, count)
        if few:
            chk.ob(name, "every argument is looked at", REFUTED, loc, f"of {few[0]} arguments only {few[1]} are")
        elif v != PROVED and not ok:
            # left at a test of something else
            inside = [x for al in outer.loop.alts for x in al.events] + list(r.events)
            v = REFUTED if blind([(a, p) for a, p in left if not only_about([(a, p)], {N31, count})], inside, texts | {count}) else UNDEC
            chk.ob(name, "every argument is looked at", v, loc, "the scan is left at a test of an argument's text")
        else:
            chk.ob(name, "every argument is looked at", v if v != REFUTED or ok else UNDEC, loc, "the scan ends before the last argument")
        # -- all callbacks
        for al in outer.loop.alts:
            mine = [x for x in calls(al.events) if len(x[1]) == 1]
            inner = [x for x in loops(al.events) if any(l[0][0] is x for _, l in mine)]
            if not inner:
                tests = [(a, p) for a, p in al.lits if not (a.op in ("ult", "eq0") and only_about([(a, p)], {N31, K}))]
                plainly = not tests and only_about(al.lits, {N31, K}) or tests and blind(tests, list(al.events) + list(r.events), texts | {K})
                chk.ob(name, "every callback is run for every argument", REFUTED if plainly else UNDEC, al.events[-1].loc if al.events else loc, "an argument is passed over")
                continue
            if len(inner) > 1:
                chk.ob(name, "every callback is run for every argument", UNDEC, inner[1].loc, "more than one loop over the callbacks")
                continue
            walk(chk, name, en, inner[0], al, r)
        back(chk, name, en, r, off, outer, loc)


def begins(al, lp):
    """The first callback, where a loop walks over them."""
    b = [e for e in al.events if e.kind == "call" and re.match(r"std::(map|_Rb_tree)<>::c?begin\(", squash(own(e.dem or "")))]
    return bool(b) and any(v is x.ret for v in lp.inits.values() for x in b)


def view(chk, name, en, r, c, lst, loc):
    """The list the callbacks are given consists of all arguments."""
    made = None
    for e in r.events:
        if e.kind == "call" and e.args and e.args[0] is lst and re.match(r"std::vector<>::", squash(own(e.dem or ""))) and "::~" not in e.dem:
            made = e if made is None else "more"
    if made is None or made == "more" or not re.match(r"std::vector<>::(vector|assign)<>\(", squash(own(made.dem))) or len(made.args) < 3:
        chk.ob(name, "the callbacks are given all arguments", UNDEC, c.loc, "how the list is made is not understood")
        return
    p, q = made.args[1], made.args[2]
    end = add(A3, mulc(N64, 8))
    ok = p is A3 and q is end
    lin = not (set(lin_parts(p)[1]) | set(lin_parts(q)[1])) - {A3, N64}
    chk.ob(name, "the callbacks are given all arguments", PROVED if ok else REFUTED if lin else UNDEC, made.loc, f"they are given those from {show(p)} to {show(q)}")


TEST = re.compile(r"std::operator[=!<>]+|(std::__cxx11::basic_string<>|std::basic_string_view<>)::(compare|starts_with|ends_with|contains|find)\(")


def walk(chk, name, en, le, al, r):
    """One round over all callbacks of the map."""
    lp = le.loop
    begin = [e for e in al.events if e.kind == "call" and re.match(r"std::(map|_Rb_tree)<>::c?begin\(", squash(own(e.dem or "")))]
    end = [e for e in al.events if e.kind == "call" and re.match(r"std::(map|_Rb_tree)<>::c?end\(", squash(own(e.dem or "")))]
    its = [p for p, v in lp.inits.items() if begin and v is begin[-1].ret]
    if not begin or not end or len(its) != 1:
        chk.ob(name, "every callback is run for every argument", UNDEC, le.loc, "how the callbacks are walked is not understood")
        return
    it = its[0]
    f = next((f for f in al.st.foralls if f.loop is lp), None)
    good = True
    for w in lp.alts:
        cs = [x for x in calls(w.events)]
        if not cs:
            tests = [(a, p) for a, p in w.lits if not (a.op == "eq0" and has(a, end[-1].ret))]
            seen = list(w.events) + list(al.events) + list(r.events)
            src = set().union(*[sources(a, seen) for a, _ in tests]) if tests else set()
            named = any(has(x, LIST) or has(x, A3) for x in src)
            texty = all(any(e.kind == "call" and e.ret is l and TEST.match(squash(own(e.dem or ""))) for e in w.events) for a, _ in tests for l in leafs(a))
            chk.ob(name, "every callback is run for every argument", REFUTED if tests and not named and (texty or only_about(tests, {lp.K, N31})) else UNDEC, le.loc, "a callback is passed over")
            good = False
            continue
        if len(cs) > 1:
            chk.ob(name, "a callback is run once for an argument", UNDEC, cs[1][0].loc, "run more than once")
            good = False
            continue
        c = cs[0][0]
        nx = w.nexts.get(it)
        inc = [e for e in w.events if e.kind == "call" and e.ret is nx and re.match(r"std::_Rb_tree_increment\(", own(e.dem or ""))]
        cur = inc[0].args[0] if inc else None
        on = cur is not None and is_int(sub(c.args[0], cur))
        chk.ob(name, "every callback is run for every argument", PROVED if on else UNDEC, c.loc, "the walk from one callback to the next is not understood")
        if cur is not None:
            ends = any(a.op == "eq0" and has(a, cur) and has(a, end[-1].ret) and not p for a, p in w.lits)
            if not ends:
                chk.ob(name, "every callback is run for every argument", UNDEC, le.loc, "the end of the walk is not understood")
    if good and f is not None:
        # the only way out of the walk is at its end
        outs = [(a, p) for a, p in al.lits if a.op == "eq0" and has(a, end[-1].ret)]
        chk.ob(name, "the walk stops only after the last callback", PROVED if any(p for _, p in outs) else REFUTED if not outs and only_about(al.lits, {N31, lp.K}) else UNDEC, le.loc, "it stops before the last one")


def offsets(unit):
    return {k: const_of(unit, "vp_off_" + k) for k in "sidb"}


def back(chk, name, en, r, where, outer, loc):
    """parse returns the options as the callbacks left them."""
    S0, S1 = addc(A0, where["s"]), addc(A1, where["s"])
    at = r.events.index(outer) if outer in r.events else -1
    st = None
    for n, e in enumerate(r.events):
        if e.kind == "call" and e.args and e.args[0] is S0 and re.match(r"std::__cxx11::basic_string<>::basic_string\(", squash(own(e.dem or ""))):
            st = (n, e)
    if st is None:
        chk.ob(name, "the options are returned as they are after the scan", UNDEC, loc, "how they are returned is not understood")
        return
    n, e = st
    src = e.args[1] if len(e.args) > 1 else None
    if n < at:
        chk.ob(name, "the options are returned as they are after the scan", REFUTED if src is S1 and not any(x.kind == "call" and x.args and x.args[0] is S0 for x in r.events[at:]) else UNDEC, e.loc, "they are copied before the scan")
        return
    if src is not S1:
        s2 = [x for x in r.events[:n] if x.kind == "call" and x.args and x.args[0] is src and re.match(r"std::__cxx11::basic_string<>::(basic_string|operator=)", squash(own(x.dem or "")))]
        if not s2 and len(e.args) == 1 and not any(x.kind == "call" and x.args and x.args[0] is S0 for x in r.events[n + 1:]):
            chk.ob(name, "the options are returned as they are after the scan", REFUTED, e.loc, "others are returned")
            return
        if not s2 or s2[-1].args[-1] is not S1 and (len(s2[-1].args) < 2 or s2[-1].args[1] is not S1):
            chk.ob(name, "the options are returned as they are after the scan", UNDEC, e.loc, "the text comes from elsewhere")
            return
        if r.events.index(s2[-1]) < at:
            chk.ob(name, "the options are returned as they are after the scan", REFUTED, s2[-1].loc, "they are copied before the scan")
            return
    for off, size in ((where["i"], 4), (where["d"], 8), (where["b"], 1)):
        got = en.load(r, addc(A0, off), size)
        want = mk("ld", (addc(A1, off), size, 0), size * 8)
        v = PROVED if got is want else REFUTED if got.op in ("undef",) or is_int(got) or got.op == "ld" and got.a[0] is addc(A0, off) else UNDEC
        cp = [m for m, x in enumerate(r.events) if x.kind == "copy" and (x.get("addr") or x.get("dst")) is not None and has(x.get("addr") or x.get("dst"), A0)]
        if v == PROVED and cp and max(cp) < at:
            v = REFUTED
        chk.ob(name, "the options are returned as they are after the scan", v, loc, f"the member at {off} is {show(got)}")


# ---------------------------------------------------------------- what is registered
class Elements(Texts):
    """Texts of the list of options: ("elem", address) for the name of an element."""

    def __init__(self, en):
        self.en = en
        self.cl, self.begin = mk("hole", ("no callback",), 64), mk("hole", ("no list",), 64)
        self.shape = type("S", (), {"name": None, "view": None})

    def string(self, addr, events):
        if has(addr, BASE):
            return ("elem", addr)
        return super().string(addr, events)


BASE = mk("ld", (A1, 8, 0), 64)
LEN40 = mk("hole", ("options",), 40)
LEN = zext(LEN40, 64)


class Reg(engine.Analysis):
    """The list of options is [BASE, BASE + size * LEN)."""

    def __init__(self, f, unit, **kw):
        self.esize = const_of(unit, "vp_arg_size")
        super().__init__(f, unit, **kw)

    def branch(self, st, c):
        if c.op == "ult" and all(lin_parts(x)[1].get(BASE) == 1 for x in c.a):
            c = ult(sub(c.a[0], BASE), sub(c.a[1], BASE))
        n = self.esize
        if c.op in ("ult", "eq0") and all(set(lin_parts(x)[1]) <= {LEN} | {y for y in lin_parts(x)[1] if y.op == "k"} for x in c.a):
            # places in the list counted in elements
            xs = [divexact(x, n) for x in c.a]
            if all(x is not None for x in xs):
                c = ult(*xs) if c.op == "ult" else eq(xs[0], const(0, 64))
        return super().branch(st, c)

    def load(self, node, addr, size, st, depth=0):
        if addr is addc(A1, 8) and size == 8:
            return LEN
        return super().load(node, addr, size, st, depth)


def instance(chk, unit, sh, tag):
    en = chk.analyse(unit, "vp_instance", effects=quiet, cls=Reg)
    if en.err:
        return
    en.name = name = "instance" + (tag and f" ({tag})")
    an = en.an
    asize, where = const_of(unit, "vp_arg_size"), offsets(unit)
    for r in en.rets():
        loc = rec_loc(r, en) or HERE
        P = en.load(r, A0, 8)
        if P.op != "new":
            chk.ob(name, "a parser of its own is returned", UNDEC, loc, show(P))
            continue
        ls = loops(r.events)
        if len(ls) != 1:
            did = sum(1 for e in r.events if e.kind == "call" and made_of(e) and "::~" not in squash(own(e.dem)))
            opaque = any(e.kind in ("vcall", "icall") or not did and e.kind == "call" and any(has(a, BASE) for a in e.args) for e in r.events)
            v = UNDEC
            if not ls and not opaque:
                v = decide(r.facts, ult(const(did, 64), LEN), False)
                v = v if v != REFUTED or only_about(list(r.facts.lits), {LEN40}) else UNDEC
            chk.ob(name, "every option is registered", v, loc, f"{did} registered on a way without a loop over the options")
            continue
        if sh.none:
            chk.ob(name, "every option is registered", UNDEC, loc, "the callbacks are not recognised")
            continue
        le = ls[0]
        lp = le.loop
        f = next((f for f in r.foralls if f.loop is lp), None)
        v = decide(r.facts, eq(f.count, LEN), True) if f is not None else UNDEC
        step = {k: x[1] for k, x in lp.kinds.items() if x[0] == "ind"}
        chk.ob(name, "every option is registered", v if v != REFUTED or only_about(list(r.facts.lits), {LEN40, f.count}) and all(x in (1, asize) for x in step.values()) else UNDEC, le.loc, "the loop does not run once for each option")
        # -- what the options hold before
        st = engine.State()
        st.facts = le.facts
        before = [e for e in r.events[:r.events.index(le)] if e.mem is not None]
        for off, size in ((where["i"], 4), (where["d"], 8), (where["b"], 1)):
            x = an.load(before[-1].mem if before else le.mem, addc(P, off), size, st)
            raw = x.op == "undef" or x.op == "ld" and x.a[0] is addc(P, off) and x.a[2] == 0
            chk.ob(name, "options start with a definite value", REFUTED if raw else PROVED if is_int(x) else UNDEC, loc, f"the member at {off} holds {show(x)}")
        for w in lp.alts:
            register(chk, name, en, r, w, sh, P, le, asize)


def place(addr, K, asize):
    """Is this the K-th element of the list?  REFUTED: for no K, or not for all."""
    o = sub(addr, BASE)
    if is_int(o):
        return REFUTED
    c, d = lin_parts(o)
    if set(d) != {K}:
        return UNDEC
    if c == 0 and d[K] == asize:
        return PROVED
    return REFUTED if d[K] < 1 << 32 and (d[K] > asize or d[K] == asize) else UNDEC


def register(chk, name, en, r, w, sh, P, le, asize):
    an = en.an
    T = Elements(en)
    K = le.loop.K
    ev = list(w.events)
    made = [(n, e) for n, e in enumerate(ev) if e.kind == "call" and made_of(e) and len(e.args) >= 2 and not re.search(r"::~", squash(own(e.dem)))
            and any(a.op == "alloca" or an.root(a)[0] is not None and an.root(a)[0].op == "alloca" for a in e.args)]
    if not made:
        tests = [(a, p) for a, p in w.lits if not (a.op in ("ult", "eq0") and only_about([(a, p)], {K, LEN40}))]
        plainly = not tests or blind(tests, ev + list(r.events), {A1, K, LEN40})
        chk.ob(name, "every option is registered", REFUTED if plainly and not any(e.kind in ("vcall", "icall") for e in ev) and not mapped(ev, P) else UNDEC, le.loc, "an option is passed over")
        return
    if len(made) != 1:
        chk.ob(name, "every option is registered", UNDEC, made[1][1].loc, "registered in more than one step")
        return
    n, e = made[0]
    st = engine.State()
    st.facts = e.facts
    lam = None
    for a in e.args:
        root = an.root(a)[0]
        if root is not None and root.op == "alloca" and an.load(e.mem, addc(a, sh.this), 8, st) is P:
            lam = a
    if lam is None:
        chk.ob(name, "a callback refers to its own parser", UNDEC, e.loc, "it is not found in the callback")
        return
    chk.ob(name, "a callback refers to its own parser", PROVED, e.loc)
    # -- nothing of the caller
    bad = None
    for o in range(0, sh.size, 8):
        if sh.name is not None and sh.name <= o < sh.name + 32 and sh.name not in sh.refs:
            continue
        p = an.load(e.mem, addc(lam, o), 8, st)
        for x in ev[:n]:
            if p.op in ("ev", "call") and x.kind == "call" and x.ret is (p.a[0] if p.op == "ev" else p) and x.args and re.search(r"::(c_str|data|operator std::basic_string_view.*)\(|string_view", own(x.dem or "")):
                p = x.args[0]
        root = an.root(p)[0]
        if p.w == 64 and (root is not None and root.op == "alloca" or p is not BASE and p.op != "ld" and has(p, BASE) and lin_parts(p)[1].get(BASE) == 1):
            bad = o
    chk.ob(name, "a callback refers to nothing that is gone when parse runs", REFUTED if bad is not None else PROVED, e.loc, f"its member at {bad} refers to an object of the registration")
    if bad is not None or sh.refs:
        return
    # -- the name
    elem = None
    if sh.name is not None:
        t = T.string(addc(lam, sh.name), ev[:n])
        v = UNDEC
        if t and t[0] == "elem":
            elem = t[1]
            v = place(elem, K, asize)
        chk.ob(name, "a callback keeps its own option's name", v, e.loc, "the name comes from elsewhere" if elem is None else f"it is the name at {show(elem)}")
    if elem is None:
        elem = add(BASE, mulc(K, asize))
    # -- the member
    for o, size in ((0, 8), (8, 1)):
        got = an.load(e.mem, addc(lam, sh.prop + o), size, st)
        want = addc(elem, 32 + o)
        v = PROVED if got.op == "ld" and got.a[0] is want else REFUTED if is_int(got) or got.op == "undef" else UNDEC
        if v == UNDEC and got.op == "ld" and has(got.a[0], BASE):
            d = sub(got.a[0], want)
            if not set(lin_parts(d)[1]) - {K}:
                v = REFUTED
        chk.ob(name, "a callback keeps its option's member", v, e.loc, f"{show(got)} instead of what is at {show(want)}")
    # -- the place
    m = mapped(ev, P)
    if len(m) != 1:
        chk.ob(name, "a callback is stored under its option's name", UNDEC, e.loc, "not one place of the map")
        return
    k, c = m[0]
    q = squash(own(c.dem))
    keys = [T.string(a, ev[:k]) for a in c.args[1:2 if "operator[]" in q else None]]
    key = next((t for t in keys if t is not None), None)
    if re.match(r"std::map<>::(operator\[\]|at)", q):
        target = e.args[0] is c.ret
        if not target:      # by way of a temporary
            target = any(x.kind == "call" and x.args and any(y is c.ret for y in x.args) and any(y is e.args[0] for y in x.args)
                         and re.match(r"std::function<>::(swap|operator=)", squash(own(x.dem or ""))) for x in ev)
    else:
        target = any(x is lam for x in c.args) and bool(re.search(r"emplace|insert_or_assign", q))
    v = UNDEC
    if key and key[0] in ("part", "constant"):
        v = REFUTED
    elif key and key[0] == "elem" and target:
        v = place(key[1], K, asize)
    chk.ob(name, "a callback is stored under its option's name", v, c.loc, "the place is that of another text" if v == REFUTED else "the place is not understood")


def made_of(e):
    """Is a callback turned into a stored function here?"""
    return bool(re.search(r"'lambda\d*'|\{lambda\(", e.dem or ""))


def mapped(ev, P):
    return [(n, e) for n, e in enumerate(ev) if e.kind == "call" and e.args and has(e.args[0], P) and e.args[0] is not P
            and re.match(r"std::(map|_Rb_tree)<>::", squash(own(e.dem or ""))) and not e.dem.rstrip().endswith(" const") and not re.match(r"std::map<>::(end|begin|find)\(", squash(own(e.dem)))]
