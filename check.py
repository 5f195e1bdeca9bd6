#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decide one property on /repo's current source.
Exit 0: nothing breaks the property; exit 1 with VIOLATION line(s): a construct breaks it;
exit 2: the check could not be carried out (the units do not build)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vpa import build, core, shared  # noqa: E402
from vpa.core import *               # noqa: E402
from vpa.rules import TABLE          # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    mod, fn = TABLE[pid]
    chk = Check(pid)
    ev = os.environ.get("VP_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    err = None
    try:
        getattr(importlib.import_module("vpa.rules." + mod), fn)(chk, tier)
    except build.BuildError as e:
        if chk.entries:
            # a further instantiation is ill-formed: nothing is claimed about it
            chk.ob("-", "every further instantiation can be analysed", UNDEC, None, f"{e.what}: {e.log[:200]}")
        else:
            err = f"{e.what}\n{e.log}"
    except (Broken, Exception) as e:
        # a shape the rules do not know: nothing is claimed about it, and what was refuted before stands
        err = None
        if os.environ.get("VP_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        chk.ob("-", "the rule recognises the code", UNDEC, None, f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"[:300])
    for fn, i, what in shared.of_check(chk):
        chk.ob(fn or "-", "what an operation keeps is kept in its object", REFUTED if fn else PROVED, i.get("loc") if fn else None, what)
    known = load_known(pid)
    rep = os.path.join(ev, pid + ".report.txt")
    viol, kf, seen = [], [], {}
    agg = {}
    for o in chk.obs:
        a = agg.setdefault(o.rule, {PROVED: 0, REFUTED: 0, UNDEC: 0})
        a[o.verdict] += 1
        if o.verdict == REFUTED:
            k = next((k for k in known if k["match"](o)), None)
            if k is not None:
                seen.setdefault(k["id"], (k, []))[1].append(o)
            else:
                viol.append(o)
    n = {v: sum(1 for o in chk.obs if o.verdict == v) for v in (PROVED, REFUTED, UNDEC)}
    with open(rep, "w") as f:
        f.write(f"property {pid} tier {tier}: {n[PROVED]} proved, {n[REFUTED]} refuted, {n[UNDEC]} undecided\n")
        if err:
            f.write("NOT CARRIED OUT COMPLETELY: " + err + "\n")
        for v in (REFUTED, UNDEC, PROVED):
            for o in chk.obs:
                if o.verdict == v:
                    f.write(f"{v:9} {o.loc}  [{o.entry}] {o.rule}" + (f": {o.detail}" if v != PROVED and o.detail else "") + "\n")
    insts = sum(getattr(e.an, "inst_count", 0) for e in chk.entries if e.an)
    fns = sorted({(e.unit["unit"], e.name) for e in chk.entries})
    cov = {
        "explanation": getattr(chk, "how", None) or "Path-sensitive abstract interpretation of the normalised compiler IR of every listed entry point; "
                       "each rule is an obligation on the paths and event traces of an entry. 'undecided' obligations are "
                       "neither proved nor reported.",
        "units": sorted(u + ("[" + ",".join(d) + "]" if d else "") for u, d in chk.units),
        "functions": len(fns),
        "entries": [f"{u}:{n_}" for u, n_ in fns],
        "paths": sum(len(e.recs) for e in chk.entries),
        "instructions": insts,
        "obligations": len(chk.obs),
        "proved": n[PROVED], "refuted": n[REFUTED], "undecided": n[UNDEC],
        "rules": {r: f"{a[PROVED]} proved, {a[REFUTED]} refuted, {a[UNDEC]} undecided" for r, a in sorted(agg.items())},
        "undecided_list": sorted({f"{o.loc} [{o.entry}] {o.rule}: {o.detail}"[:300] for o in chk.obs if o.verdict == UNDEC})[:60],
        "known_findings": sorted(seen),
        "notes": chk.notes,
    }
    out = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
           "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3)}
    if viol:
        out["violations"] = [f"{o.loc} [{o.entry}] {o.rule}: {o.detail}" for o in viol][:50]
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    print(f"{pid} [{tier}] {len(fns)} entries, {cov['paths']} paths, {len(chk.obs)} obligations: "
          f"{n[PROVED]} proved, {n[REFUTED]} refuted, {n[UNDEC]} undecided ({out['wall_s']} s)")
    for i, (k, os_) in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={pid} {k['what']} ({len(os_)} obligation(s), {os_[0].loc})")
    shown = set()
    for o in viol:
        t = f"  {o.loc} [{o.entry}] {o.rule}: {o.detail}"
        if t not in shown and len(shown) < 20:
            shown.add(t)
            print(t)
    if viol:
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if err:
        print("ANALYSIS-BROKEN: " + err[:600], file=sys.stderr)
        return 2
    return 0


def load_known(pid):
    """known-findings.jsonl: {"property","id","rule","loc_file","function","what"}; fixed entries suppress nothing."""
    p = os.path.join(HERE, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln:
                continue
            k = json.loads(ln)
            if k.get("property") != pid or k.get("status") != "known":
                continue
            k["match"] = lambda o, k=k: o.key is not None and o.key == k["key"]
            out.append(k)
    return out


if __name__ == "__main__":
    sys.exit(main())
