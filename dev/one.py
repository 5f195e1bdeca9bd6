"""python3 dev/one.py CASE CHECK [undecided|refuted]: details of one corpus case; keeps /tmp/one."""
import sys, os, shutil, subprocess, glob
sys.argv, a = [sys.argv[0]], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
c = [c for c in mut.load() if c[1] == a[0]][0]
d = "/tmp/one"
shutil.rmtree(d, ignore_errors=True)
shutil.copytree("/repo/include", d + "/include")
p = f"{d}/include/xitren/{c[3]}"
s = open(p).read()
for o, n in c[4]:
    cnt = 1
    if isinstance(o, tuple): o, cnt = o
    s = s.replace(o, n, cnt)
open(p, "w").write(s)
os.makedirs(d + "/build")
for f in glob.glob(mut.V + "/build/irx-*"): os.symlink(f, d + "/build/" + os.path.basename(f))
env = dict(os.environ, VP_REPO=d, VP_BUILD=d + "/build", VP_EVIDENCE=d)
for k in a[1:2] or c[2]:
    subprocess.run([sys.executable, mut.V + "/check.py", k], env=env)
    os.system(f"grep -E '^(undecided|refuted)' {d}/{k}.report.txt | cut -c1-500 | head -30")
