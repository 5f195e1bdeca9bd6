"""C36: every use a user may write compiles: generated probe programs decided by the front ends of clang and g++."""
import json
import os
import re
from concurrent.futures import ThreadPoolExecutor
from ..core import *
from .. import build
from .probes import P, E

GXX = "g++"
GFLAGS = ["-Werror=return-local-addr", "-Wno-address-of-packed-member"]
INC = re.compile(r"^#include <[^>]*>\n", re.M)
LABEL = re.compile(r"^\s*(public|private|protected)\s*:")
HEAD = re.compile(r"^\s*(class|struct|union)\b(?!.*;)")


def headers_of(text):
    """The repository's headers a text includes, directly or through others."""
    root = os.path.join(build.REPO, "include")
    seen, todo = [], re.findall(r"#\s*include\s*[<\"](xitren/[^>\"]+)", text)
    while todo:
        h = todo.pop()
        f = os.path.join(root, h)
        if h not in seen and os.path.exists(f):
            seen.append(h)
            todo += re.findall(r"#\s*include\s*[<\"](xitren/[^>\"]+)", build.read(f).decode("utf-8", "replace"))
    return sorted(seen)


def errors(text, flags, cxx, limit=2):
    flags = list(flags) + (GFLAGS if cxx == GXX else [])
    cache = os.environ.get("VP_PROBE_CACHE")       # development only: the same text with the same headers
    if not cache:
        return build.compile_only(text, flags, cxx, limit)
    hs = headers_of(text)
    root = os.path.join(build.REPO, "include")
    key = build._h(text, *flags, cxx, str(limit), *hs, *[build.read(os.path.join(root, h)) for h in hs])
    f = os.path.join(cache, key)
    if not os.path.exists(f):
        r = build.compile_only(text, flags, cxx, limit)
        r = json.loads(json.dumps(r).replace(build.REPO + "/", "@REPO@/"))
        with open(f + f".{os.getpid()}.{id(r)}", "w") as o:
            json.dump(r, o)
        os.rename(o.name, f)
    return json.loads(build.read(f).decode().replace("@REPO@/", build.REPO + "/"))


def include(hdr):
    return f"#include <xitren/{hdr}>\n"


def flags_of(code):
    return ["-DDEBUG"] if code.startswith("//define DEBUG") else []


def place(es):
    """Where in the repository the first error lies, and what it says."""
    root = os.path.join(build.REPO, "include") + os.sep
    f, n, m, notes = es[0]
    loc = None
    if f.startswith(root):
        loc = f"{os.path.relpath(f, build.REPO)}:{n}"
    else:
        for t in notes:
            g = re.match(r"(.*?):(\d+)(?::\d+)?:", t)
            if g and g.group(1).startswith(root):
                loc = f"{os.path.relpath(g.group(1), build.REPO)}:{g.group(2)}"
                break
    return loc, m[:200]


def environment(m):
    """The machine, not the code."""
    return "cannot allocate memory" in m.lower() or "internal compiler error" in m or m.startswith("error: unable to execute")


def batch(ps):
    """One text of many probes, each in a namespace of its own."""
    hdr = ps[0][2]
    incs, body = [], []
    for k, (_, _, _, code) in enumerate(ps):
        incs += INC.findall(code)
        body.append(f"namespace probe_{k} {{\n{INC.sub('', code)}\n}}\n")
    return include(hdr) + "".join(dict.fromkeys(incs)) + "".join(body)


def alone(code):
    return "struct std::" in code or "template struct xitren" in code


def groups():
    g = {}
    for p in P:
        if alone(p[3]) or p[0].endswith("volatile"):
            g.setdefault(("1", id(p)), []).append(p)
        else:
            g.setdefault((p[2], tuple(flags_of(p[3]))), []).append(p)
    out = []
    for k, ps in g.items():
        for i in range(0, len(ps), 30):
            out.append(ps[i:i + 30])
    return out


def access(f, n):
    """The access label in force at a line, by the last label before it within the file; None: not known."""
    try:
        ls = open(f).read().splitlines()
    except OSError:
        return None
    for k in range(min(n, len(ls)) - 1, -1, -1):
        m = LABEL.match(ls[k])
        if m:
            return m.group(1)
        m = HEAD.match(ls[k])
        if m and k < n - 1:
            return "private" if m.group(1) == "class" else "public"
    return None


KNOWN = {"values::observable volatile": "values.volatile"}


def c36(chk, tier):
    jobs = []
    cxxs = [(build.CXX, "clang++", [])] + [(GXX, "g++", [])]
    gs = groups()
    hdrs = []
    inc = os.path.join(build.REPO, "include")
    for d, _, fs in sorted(os.walk(inc)):
        hdrs += [os.path.relpath(os.path.join(d, f), inc) for f in sorted(fs) if f.endswith((".hpp", ".h", ".hxx"))]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for h in hdrs:
            for cxx, nm, fl in cxxs:
                for df in ([], ["-DDEBUG"]):
                    jobs.append(("hdr", nm, [h], ex.submit(errors, f"#include <{h}>\n#include <{h}>\nint main() {{ return 0; }}\n", fl + df, cxx)))
        for n, h, code in E:
            for cxx, nm, fl in cxxs:
                jobs.append(("whole", nm, [n, h], ex.submit(errors, include(h) + code + "\n", fl, cxx, 0)))
        for g in gs:
            for cxx, nm, fl in cxxs:
                jobs.append(("probe", nm, g, ex.submit(errors, batch(g) if len(g) > 1 else include(g[0][2]) + g[0][3], fl + flags_of(g[0][3]), cxx)))
        again = []
        for kind, nm, g, fu in jobs:
            es = fu.result()
            if kind == "hdr":
                verdict(chk, g[0], f"the header compiles on its own ({nm})", es, "include/" + g[0] + ":1")
            elif kind == "whole":
                whole(chk, g[0], g[1], nm, es)
            elif not es or len(g) == 1:
                for p in g:
                    verdict(chk, p[0], f"{p[1]} ({nm})", es, f"include/xitren/{p[2]}:1", KNOWN.get(p[0]))
            else:
                cxx = build.CXX if nm == "clang++" else GXX
                again.append((nm, g, [ex.submit(errors, include(p[2]) + p[3], flags_of(p[3]), cxx) for p in g]))
        for nm, g, fs in again:
            for p, fu in zip(g, fs):
                verdict(chk, p[0], f"{p[1]} ({nm})", fu.result(), f"include/xitren/{p[2]}:1", KNOWN.get(p[0]))
    chk.units |= {("probe programs", (f"{len(P)} uses", f"{len(E)} whole templates", f"{len(hdrs)} headers"))}
    chk.how = ("Front-end decision: every listed use is a generated program that names only public members with argument types the documentation admits; "
               "clang++ and g++ type-check it (-fsyntax-only, templates instantiated) and nothing is run. A use that does not compile is the violation, "
               "placed at the construct in the headers the front end rejects.")


def verdict(chk, entry, rule, es, loc, key=None):
    if not es:
        chk.ob(entry, rule, PROVED, loc)
        return
    at, msg = place(es)
    chk.ob(entry, rule, UNDEC if environment(msg) else REFUTED, at or loc, msg, key)


def whole(chk, name, hdr, nm, es):
    rule = f"every public member of the template can be instantiated ({nm})"
    root = os.path.join(build.REPO, "include") + os.sep
    if not es:
        chk.ob(name, rule, PROVED, f"include/xitren/{hdr}:1")
        return
    for f, n, m, notes in es:
        lab = access(f, n) if f.startswith(root) else None
        loc = f"{os.path.relpath(f, build.REPO)}:{n}" if f.startswith(root) else f"include/xitren/{hdr}:1"
        chk.ob(name, rule, REFUTED if lab == "public" and not environment(m) else UNDEC, loc, m[:200])
