#!/usr/bin/env python3
"""python3 dev/combo.py good|bad N [SEED] [HEADER]: several corpus edits of one header at once.
good: K behaviour-preserving edits together, every check on the header has to stay quiet.
bad: one breaking edit among behaviour-preserving ones, its checks still have to report it."""
import glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/dev")
import mut

def apply(s, subs):
    for o, n in subs:
        o, cnt = o if isinstance(o, tuple) else (o, 1)
        if o not in s: return None
        s = s.replace(o, n, cnt) if cnt > 0 else s.replace(o, n)
    return s

def run(job):
    hdr, ids, text, props, kind = job
    d = tempfile.mkdtemp(prefix="combo-", dir="/tmp")
    try:
        shutil.copytree("/repo/include", d + "/include")
        open(f"{d}/include/xitren/{hdr}", "w").write(text)
        os.makedirs(d + "/build")
        for f in glob.glob(V + "/build/irx-*"): os.symlink(f, d + "/build/" + os.path.basename(f))
        env = dict(os.environ, VP_REPO=d, VP_BUILD=d + "/build", VP_EVIDENCE=d, VERIF_TIER="quick")
        res = []
        for k in props:
            r = subprocess.run([sys.executable, V + "/check.py", k], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try: x = [l for l in open(f"{d}/{k}.report.txt") if l.startswith("refuted")][:1]
            except OSError: x = []
            res.append((k, r.returncode, (x or [r.stdout.strip()[-160:]])[0][:240]))
        return job, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    kind, N = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    only = sys.argv[4] if len(sys.argv) > 4 else None
    cs = [c for c in mut.load() if not only or c[3] == only]
    byh = {}
    for c in cs: byh.setdefault(c[3], {"good": [], "bad": []})[c[0]].append(c)
    P = {}
    for l in open(V + "/properties.jsonl"):
        x = json.loads(l)
        for f in x["anchors"]["files"]:
            if x["id"] < "C90" and "xitren/" in f: P.setdefault(f.split("xitren/")[1], []).append(x["id"])
    jobs, seen = [], set()
    hs = sorted(h for h in byh if len(byh[h]["good"]) > 2)
    tries = 0
    while len(jobs) < N and tries < 50 * N:
        tries += 1
        h = rnd.choice(hs)
        s = open("/repo/include/xitren/" + h).read()
        ids, props = [], P[h]
        if kind == "bad":
            b = rnd.choice(byh[h]["bad"]) if byh[h]["bad"] else None
            if b is None: continue
            s = apply(s, b[4])
            if s is None: continue
            ids.append(b[1]); props = b[2]
        want = rnd.randint(2, 5)
        for g in rnd.sample(byh[h]["good"], min(12, len(byh[h]["good"]))):
            u = apply(s, g[4])
            if u is None: continue
            s = u; ids.append(g[1])
            if len(ids) >= want + (kind == "bad"): break
        if len(ids) < 2 or (h, tuple(ids)) in seen: continue
        seen.add((h, tuple(ids)))
        jobs.append((h, ids, s, props, kind))
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for job, res in ex.map(run, jobs):
            h, ids, _, props, _ = job
            rc = [r for _, r, _ in res]
            if any(r not in (0, 1) for r in rc): st = "broken"
            elif kind == "good": st = "ALARM" if 1 in rc else "quiet"
            else: st = "caught" if 1 in rc else "MISSED"
            cnt[st] = cnt.get(st, 0) + 1
            print(st, h, "+".join(ids), [x for x in res if x[1]] if st in ("ALARM", "broken") else "", flush=True)
    print(cnt)
