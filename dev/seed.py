#!/usr/bin/env python3
"""python3 dev/seed.py [ids]: (re)creates seeded/<id>/ from dev/seeds/*.py and confirms each one in a scratch copy:
the patch applies, changes only lines of the original repository, builds, passes the stable tests; the demo exits 0
without it and nonzero with it.  Also says which checks report it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "1588e2b"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = """#!/bin/bash
# cwd: the repository.  Exit 0 when the property holds on the demonstrated input.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -g %s -w -I include -I "$here" "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 3
timeout 60 "$tmp/demo"
"""

def load():
    out = []
    for p in sorted(glob.glob(os.path.join(V, "dev", "seeds", "*.py"))):
        s = importlib.util.spec_from_file_location("c", p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += m.SEEDS
    return out

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def original_lines(path):
    """Line numbers of HEAD's file that come from the original repository."""
    o = sh(["git", "-C", "/repo", "blame", "-s", "--abbrev=8", "HEAD", "--", path]).stdout
    good = set()
    for i, l in enumerate(o.splitlines(), 1):
        if l.lstrip("^").startswith(BASE[:7]):
            good.add(i)
    return good

def one(s):
    sid, prop, fname, edits, demo, needs, breaks = s[:7]
    flags = s[7] if len(s) > 7 else ""
    extra = s[8] if len(s) > 8 else {}
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    log = []
    try:
        sh(["git", "clone", "-q", "/repo", d + "/r"])
        r = d + "/r"
        p = f"{r}/include/xitren/{fname}"
        t = open(p).read()
        for o, n in edits:
            cnt = 1
            if isinstance(o, tuple):
                o, cnt = o
                if t.count(o) < cnt:
                    return sid, prop, [f"STALE ({t.count(o)}): {o[:70]}"], None
            elif t.count(o) != 1:
                return sid, prop, [f"STALE ({t.count(o)}): {o[:70]}"], None
            t = t.replace(o, n, cnt)
        open(p, "w").write(t)
        diff = sh(["git", "-C", r, "diff"]).stdout
        good = original_lines("include/xitren/" + fname)
        ln = 0
        import re
        nch = 0
        for l in sh(["git", "-C", r, "diff", "-U0"]).stdout.splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                nch += n
                bad = [i for i in range(a, a + n) if i not in good]
                if bad:
                    log.append(f"touches lines added by a fix: {bad}")
        if nch == 0:
            log.append("note: only adds lines")
        out = f"{V}/seeded/{sid}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.cpp", "w").write(demo)
        for k, v in extra.items():
            os.makedirs(os.path.dirname(out + "/" + k), exist_ok=True)
            open(out + "/" + k, "w").write(v)
        text = DEMO % flags
        if "<xitren/func/packet.hpp>" in demo:      # its include of the external crc library, which is not installed
            text = text.replace("g++ ", 'mkdir -p "$tmp/stub/xitren" && echo "#pragma once" > "$tmp/stub/xitren/crc_concept.hpp"\ng++ ', 1).replace('-I "$here"', '-I "$here" -I "$tmp/stub"')
        if prop == "C36":      # not compiling is what these demonstrate
            text = text.replace("|| exit 3", "|| exit 1")
        open(out + "/demo.sh", "w").write(text)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        a = sh([out + "/demo.sh"], cwd="/repo")
        b = sh([out + "/demo.sh"], cwd=r)
        if a.returncode != 0: log.append(f"demo on the unchanged tree exits {a.returncode}: {a.stdout[-600:]}")
        if b.returncode == 0 or b.returncode == 3: log.append(f"demo with the patch exits {b.returncode}: {b.stdout[-300:]}")
        cm = d + "/cmake"
        shutil.copytree("/opt/vp/cmake", cm)
        c = open(cm + "/CMakeLists.txt").read().replace("set(REPO /repo)", f"set(REPO {r})")
        open(cm + "/CMakeLists.txt", "w").write(c)
        x = sh(["cmake", "-S", cm, "-B", d + "/b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=ON",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_FLAGS=-Wno-error", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"])
        x = sh(["ninja", "-C", d + "/b", "-j3"])
        if x.returncode: log.append("BUILD FAILS: " + x.stdout[-1500:])
        else:
            for i in range(3):
                x = sh(["ctest", "--test-dir", d + "/b", "-j1", "--timeout", "120", "-E", "^patterns_package_base_test_NOT_BUILT"])
                if "100% tests passed" in x.stdout:
                    break
            else:
                log.append("TESTS: " + x.stdout[-1200:])
        env = dict(os.environ, VP_REPO=r, VP_BUILD=d + "/vb", VP_EVIDENCE=d)
        os.makedirs(d + "/vb")
        for f in glob.glob(V + "/build/irx-*"):
            os.symlink(f, d + "/vb/" + os.path.basename(f))
        from vpa.rules import TABLE
        res = None
        if prop in TABLE:
            q = sh([sys.executable, V + "/check.py", prop], env=env)
            res = (q.returncode, q.stdout)
        return sid, prop, log, res
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    sys.path.insert(0, V)
    sel = sys.argv[1:]
    todo = [s for s in load() if not sel or s[0] in sel or s[1] in sel]
    nc = 0
    with ThreadPoolExecutor(4) as ex:
        for sid, prop, log, res in ex.map(one, todo):
            bad = [l for l in log if not l.startswith("note")]
            print(("OK   " if not bad else "BAD  ") + sid, prop, "caught" if res and res[0] == 1 else ("MISSED" if res else "no check"), *log)
            if res and res[0] == 1: nc += 1
            if res and res[0] != 1: print("    ", res[1][-700:])
    print(len(todo), "seeds,", nc, "caught")
