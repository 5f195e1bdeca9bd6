#!/usr/bin/env python3
"""python3 dev/auto.py HEADER [OUT]: every small mutation (operator, constant, condition, statement removed) of a header's code;
which are caught by a check of the properties anchored in it, and which of the others also pass that header's tests."""
import json, os, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {"C36"}
TESTS = {"allocators": ["patterns_static_heap_allocator"], "lru": ["patterns_lru_base_test"], "mediator": ["patterns_mediator_base_test"],
         "observer.hpp": ["patterns_observer_base_test"], "observer_static": ["patterns_observer_static_base_test"], "observer_errors": [],
         "values": ["patterns_observer_values_test"], "pipeline": ["patterns_pipeline_test"], "argv": ["patterns_argv_test"], "interval": ["patterns_interval_base_test"]}
OPS = [(r"(?<![<>=\-!])<=(?!>)", ["<", "=="]), (r"(?<=\s)<(?=\s)", ["<=", ">"]), (r"(?<![<>=\-!])>=", [">", "=="]), (r"(?<=\s)>(?=\s)", [">=", "<"]),
       (r"(?<=\s)==(?=\s)", ["!="]), (r"(?<=\s)!=(?=\s)", ["=="]), (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]),
       (r"(?<=\s)/(?=\s)", ["*"]), (r"(?<=\s)%(?=\s)", ["/"]),
       (r"\+\+", ["--"]), (r"(?<![\-])--(?!>)", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"&&(?=\s)", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[(\s])!(?=[\w(])", [""]),
       (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]), (r"<<(?=\s*\d)", [">>"]), (r"(?<!\w)&(?=\w+_?[,);])", []),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.:])0(?![\w.x])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])(?:[2-9]|\d\d+)(?![\w.])", ["+1"]),
       (r"\bbegin\(\)", ["end()"]), (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]), (r"\bpush_front\b", ["push_back"]), (r"\bpush_back\b", ["push_front"]),
       (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bnotify_all\b", ["notify_one"]), (r"\bbig\b", ["little"]), (r"\blittle\b", ["big"]),
       (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\bfetch_add\b", ["fetch_sub"]), (r"\bmove\((\w+)\)", [r"\1"]), (r"\bif \((?!constexpr)", ["IFNOT"]), (r"\bwhile \(", ["IFNOT"])]

def code_lines(s):
    out, com = [], False
    for n, l in enumerate(s.split("\n")):
        t = l.strip()
        if com:
            if "*/" in t: com = False
            out.append(False); continue
        if t.startswith("/*"):
            com = "*/" not in t
            out.append(False); continue
        out.append(bool(t) and not t.startswith(("//", "#", "template", "static_assert", "requires", "concept", "using")) and "template <" not in t)
    return out

def mutants(s):
    L = s.split("\n")
    ok = code_lines(s)
    for n, l in enumerate(L):
        if not ok[n]: continue
        body = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, body):
                for r in reps:
                    if r == "IFNOT":
                        i, d = m.end(), 1
                        while i < len(body) and d:
                            d += (body[i] == "(") - (body[i] == ")")
                            i += 1
                        if d: continue
                        new = body[:m.end()] + "!(" + body[m.end():i - 1] + "))" + body[i:]
                        if m.group(0).startswith("while"): continue
                    elif r == "+1":
                        new = body[:m.start()] + str(int(m.group(0)) + 1) + body[m.end():]
                    else:
                        new = body[:m.start()] + m.expand(r) + body[m.end():]
                    yield n, l, new
        t = body.strip()
        if re.match(r"^[\w:>\-.*()\[\]&]+(\(.*\)|\s*[+\-*/|&]?=\s.*|\+\+|--)?;$", t) and not re.match(r"^(return|using|break|continue|typename|class|struct|public|private|throw)\b", t) or re.match(r"^(\+\+|--)[\w.>\-]+;$", t):
            yield n, l, re.sub(r"\S.*", ";", body)
        if re.match(r"^(return [^;]+;|throw [^;]+;|break;|continue;)$", t) and t != "return;":
            if t.startswith("return") and t not in ("return *this;",): pass
            else: yield n, l, re.sub(r"\S.*", ";", body)
        if re.match(r"^return [^;]+;$", t) and re.search(r"==|!=|&&|\|\||<|>", t) is None and t not in ("return *this;",):
            yield n, l, re.sub(r"return ([^;]+);", r"return {};", body)

def run(job):
    hdr, n, old, new, props = job
    d = tempfile.mkdtemp(prefix="auto-", dir="/tmp")
    try:
        shutil.copytree("/repo/include", d + "/include")
        p = f"{d}/include/xitren/{hdr}"
        L = open(p).read().split("\n")
        L[n] = new
        open(p, "w").write("\n".join(L))
        os.makedirs(d + "/build")
        for f in glob.glob(V + "/build/irx-*"): os.symlink(f, d + "/build/" + os.path.basename(f))
        r = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I", d + "/include", "-I", V + "/stubs", "-include", "thread", "-include", "xitren/" + hdr, "-x", "c++", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return job, "dead", ""
        tests = next((t for k, t in TESTS.items() if k in hdr), None)
        env = dict(os.environ, VP_REPO=d, VP_BUILD=d + "/build", VP_EVIDENCE=d, VERIF_TIER="quick")
        und = []
        for k in props:
            r = subprocess.run([sys.executable, V + "/check.py", k], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1: return job, "caught", k
            m = re.search(r"(\d+) undecided", r.stdout)
            if m and m.group(1) != "0": und.append(k + ":" + m.group(1))
            if r.returncode not in (0, 1): und.append(k + ":rc%d" % r.returncode)
        for t in tests or []:
            b = f"{d}/{t}"
            r = subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-I", d + "/include", "-I", "/usr/src/googletest/googletest/include", f"/repo/tests/{t}.cpp", "-o", b, "-lgtest", "-lgtest_main", "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: return job, "dead", "test build"
            try:
                r = subprocess.run([b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, cwd=d)
            except subprocess.TimeoutExpired:
                return job, "killed", " ".join(und)
            if r.returncode: return job, "killed", " ".join(und)
        return job, "SURVIVED", " ".join(und)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    hdr = sys.argv[1]
    props = []
    for l in open(V + "/properties.jsonl"):
        x = json.loads(l)
        if any(f.endswith("xitren/" + hdr) for f in x["anchors"]["files"]) and x["id"] < "C90" and x["id"] not in SKIP: props.append(x["id"])
    s = open("/repo/include/xitren/" + hdr).read()
    seen, jobs = set(), []
    for n, l, new in mutants(s):
        if new.rstrip() == l.rstrip() or (n, new) in seen: continue
        seen.add((n, new))
        jobs.append((hdr, n, l, new, props))
    if "-n" in sys.argv:
        print(len(jobs), props); sys.exit()
    cnt = {}
    out = open(sys.argv[2], "w") if len(sys.argv) > 2 else sys.stdout
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for job, st, k in ex.map(run, jobs):
            cnt[st] = cnt.get(st, 0) + 1
            print(f"{st} {job[1] + 1} {k}\n    - {job[2].strip()}\n    + {job[3].strip()}" if st in ("SURVIVED", "killed") else f"{st} {job[1] + 1} {k} | {job[3].strip()[:110]}", file=out, flush=True)
    print(hdr, cnt, file=out)
