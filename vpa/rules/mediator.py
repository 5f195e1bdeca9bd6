"""C09-C11: the mediator (manager and modules)."""
from ..core import *
from ..terms import *
from .. import build, engine
from .registry import *
from .observers import const_of, all_events, is_datum

A1, A2, A3 = (mk("arg", (i,), 64) for i in (1, 2, 3))
QUICK, DEEP = (5, 70000), (2, 5, 16, 70000)
DATA = {"a": (4, range(4)), "b": (5, range(5)), "c": (16, range(12)), "d": (4, range(4)), "e": (5, range(5))}     # size, bytes that are not padding


def units(tier):
    for n in QUICK if tier == "quick" else DEEP:
        yield build.unit("mediator", [f"VP_N={n}"]), n


def tyid(t):
    return mk("tyid", (f"_ZTS4vp_{t}",), 64)


DISTINCT = [(eq(tyid(a), tyid(b)), False) for a in "abcde" for b in "abcde" if a < b]


class An(engine.Analysis):
    """Names the hash of a type's name after the type."""

    def call(self, i, st, K):
        out = super().call(i, st, K)
        if i.get("ty") == "i64":
            for s in out:
                s = s[1] if isinstance(s, tuple) else s
                if isinstance(s, engine.State) and s.events:
                    e = s.events[-1]
                    if e.kind == "call" and e.get("id") == i["id"]:
                        d = e.dem or ""
                        if re.search(r"^std::(__str_hash_base<|hash<|_Hash_impl::hash\()", d) and len(e.args) >= 2:
                            g = self.text_of(e.args[1], s)
                            if g is not None:
                                s.env[i["id"]] = mk("tyid", (g,), 64)
        return out

    def text_of(self, a, s, part=False):
        for e in reversed(s.events):
            if e.kind != "call" or not e.args:
                continue
            d = e.dem or ""
            if e.args[0] is a and "::basic_string" in d and "::~" not in d and len(e.args) > 1:
                t, more = e.args[1], [x for x in e.args[2:] if x.op != "alloca"]
                if more:
                    # a copy of a part
                    if len(more) != 2 or not is_int(more[0]) or ival(more[0]) or not is_int(more[1]):
                        return None
                    part = part or ival(more[1]) < 1 << 16
                if t.op == "glob" and t.a[0].startswith("_ZTS"):
                    return ("part of " if part else "") + t.a[0]
                if t.op == "alloca":
                    return self.text_of(t, s, part)
                m = next((x for x in s.events if x.kind == "call" and x.get("ret") is t and re.search(r"basic_string<.*>::(c_str|data)\(\) const$", x.dem or "")), None)
                return self.text_of(m.args[0], s, part) if m is not None else None
        return None


def length_of(r, v):
    """Nothing but the length of a text."""
    return any(e.kind == "call" and e.get("ret") is v and re.search(r"(basic_string<.*>::(size|length)\(\) const|^strlen)", e.dem or "") for e, al in all_events(r.events))


def ana(chk, unit, fn, reg=None, layout=None, facts=()):
    return chk.analyse(unit, fn, layout=layout or {}, facts=list(reg.init_facts() if reg else ()) + DISTINCT + list(facts), cls=An)


def live(en):
    for r in en.recs:
        if r.kind not in ("terminate", "noreturn", "unwind") and not r.facts.empty():
            yield r


def mgr(chk, unit, n):
    tn = f"xitren::comm::manager<{n}>"
    if tn not in unit["layouts"]:
        c = [k for k in unit["layouts"] if k.startswith("xitren::comm::manager<")]
        tn = c[0] if c else tn
    reg = array_reg(chk, unit, tn) if tn in unit["layouts"] else None
    if reg is None:
        chk.ob("manager", "the registry is an array with a count", UNDEC, None, f"{tn} has another shape")
    elif reg.kind == "array":
        wide(chk, "manager", tn, reg)
    return tn, reg


def slots(unit):
    m = "xitren::comm::base::manager"
    d = "xitren::comm::base::module"
    out = {}
    # pure virtual tables do not name their slots: take them from the overriders
    big = [k for k in unit["vtables"] if k.startswith("vtable for xitren::comm::manager<")]
    mod = [k for k in unit["vtables"] if k == "vtable for vp_mod" or k.startswith("vtable for xitren::comm::module<vp_a")]
    for k, names in ((big, ("add_module", "remove_module", "distribute", "data")), (mod, ("receive", "send"))):
        for t in k:
            for tab in unit["vtables"][t]:
                for i, n in enumerate(tab):
                    for w in names:
                        if n and re.search(r"(^|::)" + w + r"\(", n) and w not in out:
                            out[w] = i - 2
    for w in ("add_module", "remove_module", "distribute", "data", "receive", "send"):
        if w not in out:
            raise Broken(f"virtual {w} not found")
    return out


# ---------------------------------------------------------------- C09
def c09(chk, tier):
    for unit, n in units(tier):
        tn, reg = mgr(chk, unit, n)
        sl = slots(unit)
        if reg is not None:
            en = ana(chk, unit, "vp_add", reg, {0: tn})
            if not en.err:
                chk.ob(en.name, "the registry has room for exactly the declared number of modules", PROVED if reg.kind != "array" or reg.cap == n else REFUTED,
                       "include/xitren/comm/mediator.hpp", f"{tn}: room for {reg.cap}, declared {n}")
                if reg.kind == "vector":
                    # nothing bounds a vector but an explicit test
                    for r in en.rets():
                        chk.ob(en.name, "a registration is accepted only while there is room", decide(r.facts, ult(reg.len0, const(8 * n, 64)), True), rec_loc(r, en), f"accepted with {n} modules registered")
                acc = 0
                for r in live(en):
                    loc = rec_loc(r, en)
                    if r.kind == "throw":
                        v, e = unchanged(en, reg, r)
                        chk.ob(en.name, "a refused registration leaves the registry as it was", v, e.loc if e is not None else loc, f"{e}")
                        chk.ob(en.name, "a registration is refused only when the registry is full", decide(r.facts, ult(reg.len0, const(8 * n, 64)), False), loc,
                               f"refused although there is room (capacity {n})")
                        continue
                    v, e = unchanged(en, reg, r)
                    if v == PROVED:
                        # silently ignored: allowed for an entry already there, never for lack of room
                        p = shown_present(reg, r, A1)
                        full = decide(r.facts, ult(reg.len0, const(8 * n, 64)), False)
                        chk.ob(en.name, "a registration that finds no room raises an error", PROVED if p == PROVED else REFUTED if p == REFUTED or not match_offsets(reg, r.facts, A1) else UNDEC, loc,
                               "the module is not recorded and no error is raised" + (" (registry full)" if full == PROVED else ""))
                        continue
                    acc += 1
                    check_appended(chk, en, reg, r, A1, loc)
                    if reg.kind == "array":
                        chk.ob(en.name, "a registration is accepted only while there is room", decide(r.facts, ult(reg.len0, const(8 * reg.cap, 64)), True), loc,
                               f"accepted with the registry full (capacity {reg.cap})")
                chk.ob(en.name, "a module can be registered", PROVED if acc else REFUTED, en.loc, "no path records the module")
            en = ana(chk, unit, "vp_remove", reg, {0: tn})
            if not en.err:
                check_remove(chk, en, reg, A1, None, unit, quiet_missing=True)
                acc = [r for r in live(en) if mutation_events(en, reg, r)]
                chk.ob(en.name, "a registered module can be removed", PROVED if acc else REFUTED, en.loc, "no path changes the registry")
                for r in live(en):
                    if r.kind == "throw":
                        chk.ob(en.name, "unregistering raises no error", REFUTED, rec_loc(r, en), "an unknown module is an error here")
            en = ana(chk, unit, "vp_ctor", None, {0: tn})
            for r in en.rets():
                ln = reg.length(en, r)
                chk.ob(en.name, "a new manager has no module", eqv(r.facts, ln, Z) if ln.op != "ld" else REFUTED, rec_loc(r, en), f"the count is {ln}")
        pairing(chk, unit, sl)


def pairing(chk, unit, sl):
    en = ana(chk, unit, "vp_mod_ctor")
    idoff = const_of(unit, "vp_id_off")
    for r in live(en):
        if r.kind != "ret":
            continue
        loc = rec_loc(r, en)
        cs = [(e, al) for e, al in all_events(r.events) if e.kind == "vcall" and e.obj is A1]
        adds = [e for e, al in cs if e.slot == sl["add_module"]]
        oth = [e for e, al in cs if e.slot != sl["add_module"]]
        opaque = [e for e, al in all_events(r.events) if e.kind in ("icall",) or e.kind == "call" and any(a is A1 for a in e.args)]
        chk.ob(en.name, "a module is registered exactly once when it is constructed", PROVED if len(adds) == 1 and not any(al for e, al in cs) else UNDEC if opaque or any(al for e, al in cs) else REFUTED,
               adds[0].loc if adds else loc, f"{len(adds)} registrations on this path of the constructor")
        for e in adds:
            chk.ob(en.name, "the module registered is the one constructed", eqv(r.facts, e.args[1], A0) if len(e.args) > 1 else UNDEC, e.loc, f"registers {e.args[1]}")
            # the identity must be there before anybody may see the module
            v = en.an.load(e.mem, addc(A0, idoff), 8, r.st)
            chk.ob(en.name, "the module's identity is set before it is registered", REFUTED if v.op == "ld" else PROVED, e.loc, "registered before its identity is initialised")
        for e in oth:
            chk.ob(en.name, "construction only registers", REFUTED if e.slot == sl["remove_module"] else UNDEC, e.loc, f"calls slot {e.slot} of the manager")
    # which member keeps the manager
    em = ana(chk, unit, "vp_mediator")
    mload = None
    for r in em.rets():
        mload = r.ret
    for r in live(en):
        if r.kind == "ret" and mload is not None and mload.op == "ld":
            v = en.load(r, mload.a[0], 8)
            chk.ob(en.name, "the module remembers the manager it registered with", eqv(r.facts, v, A1), rec_loc(r, en), f"remembers {v}")
    en = ana(chk, unit, "vp_mod_dtor")
    for r in live(en):
        if r.kind != "ret":
            continue
        loc = rec_loc(r, en)
        cs = [(e, al) for e, al in all_events(r.events) if e.kind == "vcall"]
        rem = [e for e, al in cs if e.slot == sl["remove_module"] and e.obj is mload]
        opaque = [e for e, al in all_events(r.events) if e.kind in ("icall",) or e.kind == "vcall" and e not in rem]
        null = mload is not None and decide(r.facts, eq(mload, Z), True) == PROVED
        chk.ob(en.name, "a module is unregistered exactly once when it is destroyed", PROVED if len(rem) == 1 or null and not rem else UNDEC if any(e.obj is not mload for e in opaque if e.kind == "vcall") or any(e.kind == "icall" for e in opaque) else REFUTED,
               rem[0].loc if rem else loc, f"{len(rem)} removals on this path of the destructor")
        for e in rem:
            chk.ob(en.name, "the module unregistered is the one destroyed", eqv(r.facts, e.args[1], A0) if len(e.args) > 1 else UNDEC, e.loc, f"unregisters {e.args[1]}")


# ---------------------------------------------------------------- C10
def deliver_rule(chk, en, sl, ident, idoff, ptr_ok, size, free=()):
    """What each step of a broadcast must do: nothing for the sender's identity, one delivery otherwise."""
    def per_alt(al, el):
        f = al.st.facts
        calls, other = [], []
        for e in al.events:
            if e.kind == "vcall":
                (calls if strip(e.obj) is el and e.slot == sl["receive"] else other).append(e)
            elif e.kind in ("icall", "loop"):
                other.append(e)
        own = mk("ld", (addc(el, idoff), 8, 0), 64)
        same = decide(f, eq(own, ident), True, free)
        if not calls:
            if other:
                yield (REFUTED if all(e.kind == "vcall" and strip(e.obj) is el for e in other) and same != PROVED else UNDEC, f"an entry is not sent the message but: {other[0].kind} slot {other[0].get('slot')}", other[0].loc)
            else:
                yield (same, "an entry whose identity may differ from the sender's gets nothing", None)
            return
        if len(calls) > 1:
            yield (REFUTED, f"{len(calls)} deliveries to one entry", calls[1].loc)
        diff = decide(f, eq(own, ident), False, free)
        yield (diff, "a delivery to an entry whose identity may be the sender's", calls[0].loc)
        c = calls[0]
        if len(c.args) < 4:
            yield (UNDEC, "other arguments", c.loc)
            return
        yield (eqv(f, c.args[1], ident, free), f"the identity passed is {c.args[1]}, the sender's is {ident}", c.loc)
        yield (ptr_ok(c, c.args[2], f), f"the payload passed is {c.args[2]}", c.loc)
        yield (eqv(f, c.args[3], size), f"the length passed is {c.args[3]}", c.loc)
        for e in other:
            if e.kind == "vcall" and strip(e.obj) is el:
                yield (REFUTED, f"also calls slot {e.slot} of the entry", e.loc)
    return per_alt


def strip(t):
    if t.op == "unk" and len(t.a) >= 2:
        return mk("ld", (t.a[0], t.a[1], 0), t.w)
    return t


def payload(en, size, keep, by_value):
    """The pointer passed leads to the datum's bytes."""
    def ok(c, p, f):
        st = engine.State()
        st.facts = f
        out = []
        for i in keep:
            v = en.an.load(c.mem, addc(p, i), 1, st)
            out.append(byte_ok(v, addc(A1, i)))
        return both(*out)
    return ok


def byte_ok(v, addr):
    """Is the byte v the initial content of addr?"""
    if v.op == "ld" and v.a[1] == 1 and v.a[2] == 0:
        return PROVED if v.a[0] is addr else REFUTED
    b = engine.byte_of(v)
    if b is not None and b[0].op == "ld" and b[0].a[2] == 0:
        return PROVED if addc(b[0].a[0], b[1]) is addr else REFUTED
    if is_int(v) or v.op == "undef":
        return REFUTED
    return UNDEC


def c10(chk, tier):
    for unit, n in units(tier):
        tn, reg = mgr(chk, unit, n)
        sl = slots(unit)
        idoff = const_of(unit, "vp_id_off")
        # the identity member as the base class sees it
        ei = ana(chk, unit, "vp_ident")
        for r in ei.rets():
            if r.ret.op == "ld":
                idoff = sval(sub(r.ret.a[0], A0))
        if reg is not None:
            rule = "every module but those of the sender's identity gets the message exactly once, in order"
            en = ana(chk, unit, "vp_distribute", reg, {0: tn})
            ident = mk("ld", (addc(A1, idoff), 8, 0), 64)
            for r in live(en):
                loc = rec_loc(r, en)
                if r.kind == "throw":
                    chk.ob(en.name, "a well-formed registry is always served", decide(r.facts, ult(const(8 * reg.cap, 64), reg.len0), True) if reg.kind == "array" else UNDEC, loc, "raises an error")
                    continue
                v, e = unchanged(en, reg, r)
                chk.ob(en.name, "distributing leaves the registry as it is", v, e.loc if e is not None else loc, f"{e}")
                hook = [(e, al) for e, al in all_events(r.events) if e.kind == "vcall" and e.obj is A0 and e.slot == sl["data"]]
                opq = any(e.kind == "icall" for e, al in all_events(r.events))
                chk.ob(en.name, "the manager's hook sees the message exactly once",
                       PROVED if len(hook) == 1 and hook[0][1] is None else UNDEC if opq and not hook else REFUTED,
                       hook[-1][0].loc if hook else loc, f"{len(hook)} hook calls" + (", one per module" if any(al for _, al in hook) else ""))
                for e, al in hook:
                    for k, want in ((1, ident), (2, A2), (3, A3)):
                        chk.ob(en.name, "the hook gets the sender's identity, payload and length", eqv(r.facts, e.args[k], want) if len(e.args) > 3 else UNDEC, e.loc, f"argument {k} is {e.args[k]}")
                pa = deliver_rule(chk, en, sl, ident, idoff, lambda c, p, f: eqv(f, p, A2), A3)
                check_foreach(chk, en, reg, r, pa, rule, loc)
            chk.ob(en.name, "a message can be distributed", PROVED if en.rets() else REFUTED, en.loc, "")
            for t, (size, keep) in list(DATA.items())[:3]:
                en = ana(chk, unit, "vp_send_" + t, reg, {0: tn})
                for r in live(en):
                    if r.kind == "throw":
                        chk.ob(en.name, "a well-formed registry is always served", decide(r.facts, ult(const(8 * reg.cap, 64), reg.len0), True) if reg.kind == "array" else UNDEC, rec_loc(r, en), "raises an error")
                        continue
                    pa = deliver_rule(chk, en, sl, tyid(t), idoff, payload(en, size, keep, True), const(size, 64))
                    check_foreach(chk, en, reg, r, pa, "the manager's own message goes to every module of another identity, once, with the identity of its type and its bytes", rec_loc(r, en))
        # module side
        mload = next((r.ret for r in ana(chk, unit, "vp_mediator").rets()), None)
        en = ana(chk, unit, "vp_mod_send")
        size, keep = DATA["a"]
        for r in live(en):
            if r.kind != "ret":
                continue
            loc = rec_loc(r, en)
            cs = [(e, al) for e, al in all_events(r.events) if e.kind == "vcall"]
            to = [(e, al) for e, al in cs if e.obj is A0 and e.slot == sl["send"]]
            direct = [(e, al) for e, al in cs if e.obj is mload and e.slot == sl["distribute"]]
            snd = to + direct
            opq = [e for e, al in cs if e not in [x for x, _ in snd]] or [e for e, al in all_events(r.events) if e.kind == "icall"]
            chk.ob(en.name, "sending a datum hands it on exactly once", PROVED if len(snd) == 1 and snd[0][1] is None else UNDEC if opq and not snd else REFUTED, snd[0][0].loc if snd else loc, f"{len(snd)} sends")
            for e, al in snd:
                k = 1 if e.obj is A0 else 2
                st = r.st
                p = e.args[k]
                chk.ob(en.name, "the payload is the datum, byte for byte", both(*[byte_ok(en.an.load(e.mem, addc(p, i), 1, st), addc(A1, i)) for i in keep]), e.loc, f"payload at {p}")
                chk.ob(en.name, "the length is the size of the datum", eqv(r.facts, e.args[k + 1], const(size, 64)), e.loc, f"length {e.args[k + 1]}")
                if k == 2:
                    chk.ob(en.name, "the sender passed is the module itself", eqv(r.facts, e.args[1], A0), e.loc, f"{e.args[1]}")
        en = ana(chk, unit, "vp_leaf_send")
        for r in live(en):
            if r.kind != "ret":
                continue
            loc = rec_loc(r, en)
            cs = [(e, al) for e, al in all_events(r.events) if e.kind in ("vcall", "icall")]
            ds = [(e, al) for e, al in cs if e.kind == "vcall" and e.obj is mload and e.slot == sl["distribute"]]
            null = mload is not None and decide(r.facts, eq(mload, Z), True) == PROVED
            chk.ob(en.name, "a module's message goes to its manager exactly once", PROVED if len(ds) == 1 and ds[0][1] is None or null else UNDEC if len(cs) > len(ds) and not ds and any(e.kind == "icall" or e.obj is not mload for e, _ in cs) else REFUTED,
                   ds[0][0].loc if ds else loc, f"{len(ds)} distributions")
            for e, al in ds:
                for k, want in ((1, A0), (2, A1), (3, A2)):
                    chk.ob(en.name, "the manager gets the module, its payload and length", eqv(r.facts, e.args[k], want), e.loc, f"argument {k} is {e.args[k]}")
        # the identity of a module is that of the type it sends
        en = ana(chk, unit, "vp_mod_ctor")
        for r in live(en):
            if r.kind == "ret":
                v = en.load(r, addc(A0, idoff), 8)
                chk.ob(en.name, "a module's identity is that of the type it sends", PROVED if v is tyid("a") else REFUTED if v.op in ("int", "tyid", "ld") or length_of(r, v) else UNDEC, rec_loc(r, en), f"identity {v}")


# ---------------------------------------------------------------- C11
def c11(chk, tier):
    for unit, n in units(tier):
        sl = slots(unit)
        offs = {t: const_of(unit, "vp_off_" + t) for t in "bcde"}
        hs = {}
        for t in "bcde":
            hs[t] = slot_of(unit, f"xitren::comm::receiver_impl<vp_{t}>", "data") if any(n_ and "::data(" in n_ for tab in unit["vtables"].get(f"vtable for xitren::comm::receiver_impl<vp_{t}>", ()) for n_ in tab) else 0
        en = ana(chk, unit, "vp_receive")
        got = set()
        for r in live(en):
            loc = rec_loc(r, en)
            if r.kind == "throw":
                chk.ob(en.name, "receiving raises no error", REFUTED, loc, "a message no handler takes is an error here")
                continue
            calls = []
            opq = False
            for e, al in all_events(r.events):
                if e.kind == "icall":
                    opq = True
                if e.kind == "vcall":
                    t = next((t for t in "bcde" if e.obj is addc(A0, offs[t]) and e.slot == hs[t]), None)
                    if t is None:
                        opq = True
                        continue
                    calls.append((t, e, al))
            if len(calls) > 1:
                chk.ob(en.name, "at most one handler call per message", REFUTED, calls[1][1].loc, f"{len(calls)} handler calls on one path")
            elif calls and calls[0][2] is not None:
                chk.ob(en.name, "at most one handler call per message", UNDEC, calls[0][1].loc, "a handler is called in a loop")
            else:
                chk.ob(en.name, "at most one handler call per message", PROVED, loc)
            for t, e, al in calls:
                got.add(t)
                size, keep = DATA[t]
                f = (al.st.facts if al is not None else e.facts)
                chk.ob(en.name, "a handler is called only for the identity of its type", decide(f, eq(A1, tyid(t)), True), e.loc, f"vp_{t}'s handler is reached with another identity")
                chk.ob(en.name, "a handler is called only for a message of its type's size", decide(f, eq(A3, const(size, 64)), True), e.loc, f"vp_{t}'s handler is reached with a length other than {size}")
                st = engine.State()
                st.facts = f
                v = []
                for i in keep:
                    b = en.an.load(e.mem, addc(e.args[1], i), 1, st)
                    v.append(byte_ok(b, addc(A2, i)))
                chk.ob(en.name, "the handler's value consists of the message's bytes", both(*v), e.loc, f"bytes of the value: {v.count(PROVED)} of {len(v)} shown to come from the message")
            for t in "bcde":
                if any(c[0] == t for c in calls):
                    continue
                f = r.facts.copy()
                if not f.add(eq(A1, tyid(t)), True) or not f.add(eq(A3, const(DATA[t][0], 64)), True) or f.empty():
                    chk.ob(en.name, "a matching message reaches its handler", PROVED, loc)
                    continue
                chk.ob(en.name, "a matching message reaches its handler", UNDEC if opq else matchable(f), loc, f"a vp_{t} message of {DATA[t][0]} bytes reaches no handler on this path")
        chk.ob(en.name, "every receivable type has a reachable handler", PROVED if got == set("bcde") else UNDEC if any(e.kind == "icall" for r in en.recs for e, _ in all_events(r.events)) else REFUTED, en.loc, f"handlers reached: {sorted(got)}")
        for t, (size, keep) in list(DATA.items())[:3]:
            en = ana(chk, unit, "vp_convert_" + t)
            ok = 0
            for r in live(en):
                loc = rec_loc(r, en)
                if r.kind == "throw":
                    chk.ob(en.name, "a message of the right length is converted", decide(r.facts, eq(A2, const(size, 64)), False), loc, "an error is raised for the right length")
                    continue
                ok += 1
                chk.ob(en.name, "a message of the wrong length raises an error", decide(r.facts, eq(A2, const(size, 64)), True), loc, f"a value is produced for a length other than {size}")
                v = [byte_ok(en.load(r, addc(A3, i), 1), addc(A1, i)) for i in keep]
                chk.ob(en.name, "the converted value consists of the message's bytes", both(*v), loc, f"{v.count(PROVED)} of {len(v)} bytes shown to come from the message")
            chk.ob(en.name, "conversion can succeed", PROVED if ok else REFUTED, en.loc, "no path produces a value")


def matchable(f):
    """The facts are known to be satisfiable: nothing relevant is opaque."""
    return UNDEC if f.opq else REFUTED
