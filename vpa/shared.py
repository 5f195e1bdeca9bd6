"""State that several objects of a class would share.

What an operation keeps has to be kept in its object: a variable with static (or thread) storage that operations of a class
write and that decides anything in an operation is the same variable for every object of the class, so two heaps, subjects or
stages would change each other.  A variable that is only counted up, or that is set once to something that does not depend on an
object, does no harm."""
import re
from . import build

PTR = ("getelementptr", "bitcast", "phi", "select", "addrspacecast", "freeze")
ARITH = ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "zext", "sext", "trunc", "select", "phi", "fadd", "fsub", "fmul", "freeze")
HARMLESS = re.compile(r"^pthread_mutex|std::(\w+_)?mutex::|::(try_)?(un)?lock\(|__cxa_guard|__cxa_atexit|^llvm\.(lifetime|dbg|threadlocal|assume|invariant)")


def operands(i):
    for x in i.get("ops") or []:
        yield x
    if "gep" in i:
        g = i["gep"]
        for x in walk(g):
            yield x
    for _, x in i.get("in") or []:
        yield x
    if "cond" in i:
        yield i["cond"]


def walk(v):
    if isinstance(v, dict):
        if "k" in v and v["k"] in ("v", "glob", "arg", "fn", "int"):
            yield v
        for x in v.values():
            yield from walk(x)
    elif isinstance(v, list):
        for x in v:
            yield from walk(x)


def flat(i):
    return [y for x in operands(i) for y in walk(x)]


def own(n):
    return "6xitren" in n and re.match(r"_Z+N", n) and not re.search(r"E_?st_|\.str", n)


class Touch:
    def __init__(self):
        self.reads, self.writes, self.once, self.counts = [], [], [], False


def touches(fn):
    """{global: Touch} of one function."""
    ins, where, uses = {}, {}, {}
    for b in fn["blocks"]:
        for i in b["is"]:
            ins[i["id"]] = i
            where[i["id"]] = b["id"]
    for i in ins.values():
        for x in flat(i):
            if x["k"] == "v":
                uses.setdefault(x["id"], []).append(i)
    names = {x["n"] for i in ins.values() for x in flat(i) if x["k"] == "glob" and own(x["n"])}
    out = {}
    for g in names:
        out[g] = touch(fn, g, ins, where, uses)
    return out


def touch(fn, g, ins, where, uses):
    ptr = set()
    todo = [i for i in ins.values() if any(x["k"] == "glob" and x["n"] == g for x in flat(i))]
    t = Touch()
    seen = set()
    is_ptr = lambda x: any(y["k"] == "glob" and y["n"] == g or y["k"] == "v" and y["id"] in ptr for y in walk(x))
    init = initialising(fn, g, ins)
    while todo:
        i = todo.pop()
        if i["id"] in seen and i["op"] in PTR:
            continue
        seen.add(i["id"])
        if i["op"] in PTR or i.get("intr", "").startswith("llvm.threadlocal"):
            ptr.add(i["id"])
            todo += [u for u in uses.get(i["id"], [])]
    for i in ins.values():
        ops = i.get("ops") or []
        if not any(is_ptr(x) for x in ops):
            continue
        op = i["op"]
        if op == "load":
            if flows(i, g, is_ptr, uses):
                t.reads.append(i)
            else:
                t.counts = True
        elif op == "store":
            if is_ptr(ops[1]):
                add_write(t, i, [ops[0]], where, init, ins)
            else:
                t.reads.append(i)
        elif op == "atomicrmw":
            t.writes.append(i)
            if flows(i, g, is_ptr, uses):
                t.reads.append(i)
        elif op == "cmpxchg":
            t.writes.append(i)
            t.reads.append(i)
        elif op in ("call", "invoke"):
            c = i.get("callee") or {}
            n = i.get("intr") or c.get("d") or c.get("n") or ""
            if HARMLESS.search(n):
                continue
            if n.startswith("llvm.mem"):
                if is_ptr(ops[0]):
                    add_write(t, i, ops[1:2], where, init, ins)
                if not n.startswith("llvm.memset") and is_ptr(ops[1]):
                    t.reads.append(i)
                continue
            t.reads.append(i)
            if not re.search(r"\) const$", n):
                add_write(t, i, [x for x in ops if not is_ptr(x)], where, init, ins)
    return t


def add_write(t, i, vals, where, init, ins):
    if where[i["id"]] in init:
        if any(depends(v, ins) for v in vals):
            t.once.append(i)
        return
    t.writes.append(i)


def depends(v, ins, seen=None):
    """Is the value computed from what the function was given?"""
    seen = set() if seen is None else seen
    for x in walk(v):
        if x["k"] == "arg":
            return True
        if x["k"] == "v" and x["id"] not in seen:
            seen.add(x["id"])
            if x["id"] in ins and any(depends(y, ins, seen) for y in operands(ins[x["id"]])):
                return True
    return False


def initialising(fn, g, ins):
    """The blocks that initialise a static local, run once."""
    guard = "_ZGV" + g[2:]
    acq = rel = None
    succ = {}
    for b in fn["blocks"]:
        s = []
        for i in b["is"]:
            s += list(i.get("succ") or []) + [i[k] for k in ("normal", "unwind", "default") if k in i] + [c[1] for c in i.get("cases") or []]
            n = (i.get("callee") or {}).get("n") or ""
            if n.startswith("__cxa_guard") and any(x["k"] == "glob" and x["n"] == guard for x in flat(i)):
                if n == "__cxa_guard_acquire":
                    acq = b["id"]
                elif n == "__cxa_guard_release":
                    rel = b["id"]
        succ[b["id"]] = s
    if acq is None or rel is None:
        return set()
    back = {}
    for a, ss in succ.items():
        for s in ss:
            back.setdefault(s, []).append(a)
    # from the end of the initialisation backwards to its start
    out, todo = {rel}, [rel]
    while todo:
        for p in back.get(todo.pop(), []):
            if p != acq and p not in out:
                out.add(p)
                todo.append(p)
    return out


def flows(i, g, is_ptr, uses):
    """Does the value read go anywhere but back into the variable?"""
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        for u in uses.get(x["id"], []):
            if u["id"] in seen:
                continue
            seen.add(u["id"])
            if u["op"] in ARITH:
                todo.append(u)
            elif u["op"] == "store" and is_ptr((u.get("ops") or [None, None])[1]) and not is_ptr(u["ops"][0]):
                continue
            else:
                return True
    return False


def of_check(chk):
    """Over the operations of the units the check has built."""
    n, bad = 0, False
    threads = chk.pid in ("C22", "C26")
    for unit in build.BUILT:
        names = set(unit["by"])
        n += len(names)
        done = set()
        for fn in sorted(names):
            for g, i in of_unit(unit).get(fn, []):
                if g not in done:
                    done.add(g)
                    bad = True
                    yield fn, i, f"{g} is one variable for all objects of the class"
            if threads and fn.startswith("std::thread::_State_impl<"):
                for g, t in sorted(touches(unit["by"][fn]).items()):
                    st = [i for i in t.writes if i["op"] == "store" and i.get("atomic") in ("", "not_atomic", None) and not t.counts]
                    if g not in done and st:
                        done.add(g)
                        bad = True
                        yield fn, st[0], f"{g} is written by every background thread without synchronisation"
    if n and not bad:
        yield None, None, f"{n} operations"


def of_unit(unit):
    """{function: [(global, place)]} for variables that operations of the unit write and read."""
    if "shared" in unit:
        return unit["shared"]
    per = {dem: touches(f) for dem, f in unit["by"].items()}
    read, written = {}, {}
    for dem, ts in per.items():
        for g, t in ts.items():
            if t.reads:
                read.setdefault(g, t.reads[0])
            for i in t.writes + t.once:
                written.setdefault(g, i)
    out = {}
    for dem, ts in per.items():
        for g, t in ts.items():
            if g in read and g in written:
                out.setdefault(dem, []).append((g, (t.writes + t.once + t.reads + [read[g]])[0]))
    unit["shared"] = out
    return out
