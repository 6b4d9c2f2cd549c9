"""Development aid: python3 tools/mut.py FILE 'old' 'new' PROP...  applies one textual change to /repo, runs checks, undoes it."""
import subprocess, sys
f, old, new, props = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
p = "/repo/pvgridder/" + f
s = open(p).read()
n = s.count(old)
if n != 1:
    print("occurrences:", n)
    if n == 0: sys.exit(1)
open(p, "w").write(s.replace(old, new, 1))
try:
    for x in props:
        r = subprocess.run([sys.executable, "/verif/run.py", x], capture_output=True, text=True)
        print("\n".join(l for l in r.stdout.splitlines() if "clauses" in l or x + " " in l and "VIOL" not in l or "ERROR" in l)[-600:])
finally:
    open(p, "w").write(s)
    print(subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout)
