"""python3 -m vpa.dump FILE.json ENTRY: print the analysis result (for development)."""
import json
import sys
from . import engine
from .terms import *


def pev(e, ind="    "):
    if e.kind == "loop":
        lp = e.loop
        print(f"{ind}LOOP {lp.hid} count={e.count} kinds={lp.kinds} cells={[(str(k[0]), k[1], v) for k, v in lp.cells.items()]}")
        for k, v in lp.sym.items():
            print(f"{ind}   %{k} = {v}  init {lp.inits[k]}")
        for al in lp.alts:
            print(f"{ind}  way: {[('' if p else '!') + str(a) for a, p in al.lits]} next={[(k if not isinstance(k, tuple) else str(k[0]), str(v)) for k, v in al.nexts.items() if (lp.kinds.get(k) or lp.cells.get(k))[0] in ('gen','rel')]}")
            for x in al.events:
                pev(x, ind + "      ")
    else:
        print(ind + repr(e), (e.loc[0][1] if e.loc else ""))


def prec(r):
    print(" *", r.kind, "ret =", r.ret)
    print("    facts:", [('' if p else '!') + str(a) for a, p in r.facts.lits])
    for e in r.events:
        pev(e)


if __name__ == "__main__":
    if sys.argv[1].endswith(".json"):
        m = json.load(open(sys.argv[1]))
    else:
        from . import build
        d = [a for a in sys.argv[2:] if "=" in a]
        m = build.unit(sys.argv[1], d)
        sys.argv = [a for a in sys.argv if a not in d]
    for f in m["functions"]:
        if len(sys.argv) > 2 and f["dem"] not in sys.argv[2:]:
            continue
        an = engine.Analysis(f, m, unwind=False)
        print("==", f["dem"], an.inst_count, "instrs")
        try:
            for r in an.run():
                prec(r)
        except engine.TooBig:
            print("TOO BIG")
