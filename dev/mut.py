#!/usr/bin/env python3
"""Development corpus runner: python3 dev/mut.py [ids or C-numbers...]
Each entry of dev/corpus/*.py is a textual edit of the headers; 'bad' edits break the named property, 'good'
edits keep all behaviour.  bad: the named checks must report; good: every named check must stay quiet.
Works on scratch copies of the headers only (VP_REPO)."""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vpa.rules import TABLE

def load():
    out = []
    for p in sorted(glob.glob(os.path.join(V, "dev", "corpus", "*.py"))):
        s = importlib.util.spec_from_file_location("c", p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += [c if c[2] else (c[0], c[1], getattr(m, "PROPS", None), *c[3:]) for c in m.CASES]
    return out

def run(c):
    kind, cid, checks, fname, subs = c
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree("/repo/include", d + "/include")
        p = f"{d}/include/xitren/{fname}"
        s = open(p).read()
        for o, n in subs:
            if isinstance(o, tuple):
                o, cnt = o
            else:
                cnt = 1
            if s.count(o) < 1:
                return (c, "STALE", o[:60])
            s = s.replace(o, n, cnt) if cnt > 0 else s.replace(o, n)
        open(p, "w").write(s)
        res = []
        env = dict(os.environ, VP_REPO=d, VP_BUILD=d + "/build", VP_EVIDENCE=d)
        os.makedirs(d + "/build")
        for f in glob.glob(V + "/build/irx-*"):
            os.symlink(f, d + "/build/" + os.path.basename(f))
        todo = checks if kind == "bad" else (checks or sorted(TABLE))
        if kind == "good" and ALL:
            todo = sorted(TABLE)
        for k in todo:
            if k not in TABLE:
                continue
            r = subprocess.run([sys.executable, V + "/check.py", k], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append((k, r.returncode, r.stdout))
        return (c, "RUN", res)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    ALL = "--all" in sys.argv
    VERB = "-v" in sys.argv
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    cs = [c for c in load() if not sel or any(c[1].startswith(a) for a in sel) or any(k in sel for k in c[2] or ())]
    bad = n = 0
    with ThreadPoolExecutor(8) as ex:
        for c, st, res in ex.map(run, cs):
            kind, cid, checks = c[:3]
            if st == "STALE":
                print("STALE", cid, res); bad += 1
                continue
            n += 1
            if kind == "bad":
                ok = [k for k, rc, o in res if rc == 1]
                line = f"{'caught' if ok else 'MISSED'} {cid} by {ok} (of {[k for k, _, _ in res]})"
                good = bool(ok)
                err = [k for k, rc, o in res if rc not in (0, 1)]
                if err: line += f" ERR {err}"
            else:
                al = [(k, rc) for k, rc, o in res if rc != 0]
                line = f"{'ALARM ' if al else 'quiet '} {cid} {al}"
                good = not al
                und = [o.split('refuted, ')[1].split(' undec')[0] for k, rc, o in res if rc == 0 and 'refuted, ' in o]
                line += f" undecided={und}"
            if not good or VERB or True:
                print(line)
            if not good: bad += 1
            if VERB or not good:
                for k, rc, o in res:
                    print("\n".join("      " + x[:260] for x in o.splitlines()[:14]))
    print(f"{n} run, {bad} unexpected")
