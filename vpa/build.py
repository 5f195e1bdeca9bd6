"""Compiles the harness units against /repo's current headers and normalises them.  Nothing built
here is ever executed except the exporter (tool/irx) itself."""
import hashlib
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18"
# the host's library headers read for a big-endian target (only declarations and templates are used)
BIG = ["--target=s390x-linux-gnu", "-nostdinc++", "-isystem", os.path.join(VERIF, "stubs", "target"), "-isystem", "/usr/include/c++/13",
       "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-idirafter", "/usr/include/x86_64-linux-gnu"]


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.what, self.log = what, log


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def pid_():
    return f".{os.getpid()}"


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tool():
    src = os.path.join(VERIF, "tool", "irx.cpp")
    exe = os.path.join(BUILD, "irx-" + _h(read(src)))
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        cxx = run(["llvm-config-18", "--cxxflags"]).stdout.split()
        cxx = [x for x in cxx if not x.startswith("-std=")]
        ld = run(["llvm-config-18", "--ldflags", "--libs"]).stdout.split()
        tmp = exe + f".{os.getpid()}"
        r = run([CXX, "-std=c++17", "-O1"] + cxx + ["-fexceptions", "-Wno-everything", src, "-o", tmp] + ld)
        if r.returncode:
            raise BuildError("the exporter does not build", r.stderr)
        os.rename(tmp, exe)
    return exe


def repo_headers():
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "include"))):
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def repo_hash():
    return _h(*[read(f) for f in repo_headers()])


def includes():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "stubs")]


# every unit built in this run
BUILT = []


def unit(name, defs=(), flags=(), opaque=(), bare=False, prims="prims.txt", entries=""):
    """The normalised module of harness/<name>.cpp with the given definitions; also the record layouts."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    prims = os.path.join(VERIF, "models", "bare.txt" if bare else prims)
    model = os.path.join(VERIF, "models", "algo.hpp")
    exe = tool()
    key = _h(repo_hash(), read(os.path.abspath(__file__)), read(src), read(prims), read(model), os.path.basename(exe), *defs, *flags, "|", *opaque, entries,
             *[read(os.path.join(VERIF, "harness", f)) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp")])
    os.makedirs(BUILD, exist_ok=True)
    base = os.path.join(BUILD, f"{name}-{key}")
    if not os.path.exists(base + ".json"):
        pid = f".{os.getpid()}"
        cmd = [CXX, "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-Wno-everything",
               "-Wreturn-type", "-fsanitize=return", "-fsanitize-trap=return", "-DVP_ANALYSIS"] + ([] if bare else ["-include", model]) + list(flags) + ["-D" + d for d in defs] + includes()
        r = run(cmd + ["-Xclang", "-fdump-record-layouts", "-ferror-limit=3", "-emit-llvm", "-c", src, "-o", base + pid + ".bc"])
        if r.returncode:
            raise BuildError(f"harness/{name}.cpp does not compile against the current headers", r.stderr[-4000:])
        with open(base + pid + ".lay", "w") as f:
            f.write(r.stdout)
        with open(base + pid + ".ret", "w") as f:
            f.write("\n".join(x for x in r.stderr.splitlines() if "-Wreturn-type" in x and "/include/xitren/" in x))
        if opaque:
            with open(base + pid + ".prims", "w") as f:
                f.write(open(prims).read() + "\n" + "\n".join(opaque) + "\n")
        r = run([exe, base + pid + ".bc", "-o", base + pid + ".json", "-prims", base + pid + ".prims" if opaque else prims, "-entries", "^vp_[A-Za-z0-9_]+$|^std::thread::_State_impl<.*>::_M_run\\(\\)$" + entries, "-ll", base + pid + ".ll"])
        if r.returncode:
            raise BuildError(f"harness/{name}.cpp cannot be normalised", r.stderr[-4000:])
        for ext in (".bc", ".lay", ".ret", ".ll", ".json"):
            os.rename(base + pid + ext, base + ext)
    m = json.load(open(base + ".json"))
    m["layouts"] = layouts(open(base + ".lay").read())
    if os.path.exists(base + pid_() + ".prims"):
        os.remove(base + pid_() + ".prims")
    m["falls"] = open(base + ".ret").read().splitlines()
    m["unit"] = name
    m["defs"] = list(defs)
    m["by"] = {}
    for f in m["functions"]:
        m["by"][f["dem"]] = f
    BUILT.append(m)
    return m


DIAG = re.compile(r"^(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$")


def compile_only(text, flags=(), cxx=CXX, limit=0):
    """Errors of compiling a text: [(file, line, message, notes)]; nothing is generated."""
    r = run([cxx, "-std=c++20", "-fsyntax-only", "-x", "c++", "-"] + (["-Wno-everything", f"-ferror-limit={limit}"] if "clang" in cxx else [])
            + list(flags) + includes(), input=text)
    out = []
    for ln in r.stderr.splitlines():
        m = DIAG.match(ln)
        if m:
            out.append([m.group(1), int(m.group(2)), m.group(3), []])
        elif out and (": note: " in ln or "required from" in ln):
            out[-1][3].append(ln)
    if r.returncode and not out:
        out.append(["?", 0, r.stderr[-300:], []])
    return out


LINE = re.compile(r"^\s*(\d+)(?::[-\d]+)? \|( +)(.*)$")


def layouts(txt):
    """{type: [(offset, size, type, name, children)]} from clang's record layouts."""
    out = {}
    for part in txt.split("*** Dumping AST Record Layout")[1:]:
        rows, size = [], None
        for ln in part.splitlines():
            m = LINE.match(ln)
            if m:
                rows.append((int(m.group(1)), (len(m.group(2)) - 1) // 2, m.group(3)))
            m = re.search(r"sizeof=(\d+)", ln)
            if m and size is None:
                size = int(m.group(1))
        if not rows or size is None:
            continue
        name = rows[0][2]
        name = re.sub(r"^(class|struct|union) ", "", name).replace(" (empty)", "")
        fs = []
        for i, (off, d, t) in enumerate(rows[1:], 1):
            fs.append([off, d, t])
        out[name] = Record(name, size, fs)
    return out


class Field:
    __slots__ = ("off", "size", "type", "name", "depth", "base", "array")

    def __init__(self, off, depth, text):
        self.off, self.depth = off, depth
        self.base = text.endswith("base)") or "base) (empty)" in text
        if self.base:
            self.type, self.name = re.sub(r" \((primary |virtual |primary virtual )?base\).*$", "", text), ""
        elif text.startswith("("):
            self.type, self.name = "vptr", text
        else:
            t = text.replace(" (empty)", "")
            self.type, _, self.name = t.rpartition(" ")
        self.size = 0
        t = re.sub(r"^(class|struct|union) ", "", self.type)
        self.array = t.startswith("std::array<") or t.endswith("]")
        self.type = t

    def __repr__(self):
        return f"{self.off}+{self.size} {self.type} {self.name}{'[]' if self.array else ''}"


class Record:
    def __init__(self, name, size, rows):
        self.name, self.size = name, size
        self.all = [Field(o, d, t) for o, d, t in rows]
        for i, f in enumerate(self.all):
            nxt = [g.off for g in self.all[i + 1:] if g.depth <= f.depth and g.off > f.off]
            # sizes: up to the next sibling or the end of the enclosing field
            end = size
            for g in self.all[i + 1:]:
                if g.depth <= f.depth:
                    if g.off > f.off:
                        end = g.off
                        break
                    if g.depth <= f.depth and g.off == f.off:
                        end = f.off
                        break
            f.size = end - f.off
        d1 = min((f.depth for f in self.all), default=1)
        self.fields = [f for f in self.all if f.depth == d1]

    def flat(self):
        """Leaf-most regions for alias decisions: named fields at depth 1, bases expanded."""
        out, i = [], 0
        rows = self.all

        def walk(i, depth):
            while i < len(rows) and rows[i].depth >= depth:
                f = rows[i]
                j = i + 1
                while j < len(rows) and rows[j].depth > f.depth:
                    j += 1
                if f.base and j > i + 1:
                    walk(i + 1, f.depth + 1)
                elif f.size > 0:
                    out.append(f)
                i = j
        walk(0, rows[0].depth if rows else 1)
        return out

    def field(self, name=None, pred=None):
        r = [f for f in self.all if (name is None or f.name == name) and (pred is None or pred(f))]
        return r[0] if r else None
