#!/usr/bin/env python3
"""dev/setup_one.py CASE: a scratch header tree /tmp/one with the corpus edit applied (use with VP_REPO=/tmp/one)."""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
c = next(c for c in mut.load() if c[1] == sys.argv[1])
shutil.rmtree("/tmp/one", ignore_errors=True)
shutil.copytree("/repo/include", "/tmp/one/include"); os.makedirs("/tmp/one/build")
p = f"/tmp/one/include/xitren/{c[3]}"; s = open(p).read()
for o, n in c[4]:
    cnt = 1
    if isinstance(o, tuple): o, cnt = o
    s = s.replace(o, n, cnt) if cnt > 0 else s.replace(o, n)
open(p, "w").write(s)
