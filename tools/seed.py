"""Development aid: plant one bug as seeded/<id>.  seeds are described in tools/seeds_src/<id>.py with
PROP, FILE, EDITS=[(old,new),...], NEEDS, BREAKS and DEMO (python text; must raise with the bug).
python3 tools/seed.py ID...   builds patch.diff in a scratch copy, runs the tests and the demo with and without it, and the property's check on /repo."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
def load(i):
    sp = importlib.util.spec_from_file_location(i, f"/verif/tools/seeds_src/{i}.py"); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(i, check=True, tests=True):
    m = load(i)
    d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(m.DEMO.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=m.PROP, needs=m.NEEDS, what_it_breaks=m.BREAKS), open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp"); shutil.rmtree(w)
    sh(f"git -C /repo worktree add --detach {w} HEAD")
    try:
        a = sh(f"bash {d}/demo.sh", cwd=w)
        files = {}
        for e in m.EDITS:
            f, old, new = (m.FILE, *e) if len(e) == 2 else e
            p = f"{w}/pvgridder/{f}"; s = open(p).read()
            if s.count(old) != 1: print(i, "EDIT occurrences", s.count(old), repr(old[:50])); return
            open(p, "w").write(s.replace(old, new))
        b = sh(f"bash {d}/demo.sh", cwd=w)
        open(d + "/patch.diff", "w").write(sh(f"git -C {w} diff").stdout)
        print(i, m.PROP, "demo clean:", a.returncode, "bugged:", b.returncode, (b.stderr.strip().splitlines() or [""])[-1][:150], "" if a.returncode == 0 else a.stderr[-300:])
        if tests:
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            r = sh(f"PYTHONPATH={w} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg timeout 800 xvfb-run -a {PY} -m pytest -q -n 4 -p no:cacheprovider --timeout=300 --tb=no -W ignore tests", cwd=w)
            bad = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            bad = [l for l in bad if "topographic-terrain" not in l]
            print("   tests:", r.stdout.strip().splitlines()[-1], bad[:5])
    finally:
        sh(f"git -C /repo worktree remove --force {w}"); sh("git -C /repo worktree prune")
    if check:
        if sh("git -C /repo status --short").stdout.strip(): print("repo dirty"); return
        print("   apply:", sh(f"git -C /repo apply {d}/patch.diff").stderr)
        try:
            r = sh(f"python3 /verif/run.py {m.PROP}")
            print("   check:", r.returncode, [l[:200] for l in r.stdout.splitlines() if "clauses" in l or " quick:" in l])
        finally:
            sh("git -C /repo checkout -- .")
opts = [x for x in sys.argv[1:] if x.startswith("-")]
for x in [x for x in sys.argv[1:] if not x.startswith("-")]:
    main(x, "--nocheck" not in opts, "--notests" not in opts)
