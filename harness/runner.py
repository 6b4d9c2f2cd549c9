"""Runs one property: model checking of the specification, execution of model-generated and
seeded random behaviours on the real code, validation of the recorded traces by TLC."""
from __future__ import annotations
import concurrent.futures as cf, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
BUILD = ROOT / "build"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


class MachineryError(RuntimeError):
    pass


def registry():
    return json.loads((ROOT / "harness" / "registry.json").read_text())


def java(args, env=None, timeout=600, xmx="3g"):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    meta = args[args.index("-metadir") + 1]      # TLC's scratch files stay with the run, and go with it
    cmd = ["java", f"-Djava.io.tmpdir={meta}", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", *args]
    return subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, errors="replace")


STAT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def run_model(work: Path, module: str, cfg: str, timeout=800, simulate=None, seed=1, workers=4):
    """Model check one MC module; returns (generated, distinct, behaviours)."""
    meta = tempfile.mkdtemp(prefix="meta_", dir=work)
    args = ["-metadir", meta, "-workers", str(workers), "-config", cfg]
    if simulate:
        args += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(seed), "-aril", "0"]
    args.append(module)
    t0 = time.time()
    r = java(args, timeout=timeout, xmx="6g")
    out = r.stdout
    m = STAT.findall(out)
    if not simulate:
        if "No error has been found" not in out or not m:
            raise MachineryError(f"model {module}/{cfg} failed:\n{out[-4000:]}")
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    else:
        if "Error:" in out:
            raise MachineryError(f"simulation {module}/{cfg} failed:\n{out[-4000:]}")
        mm = re.findall(r"The number of states generated: ([\d,]+)", out) or re.findall(r"Progress: ([\d,]+) states checked", out)
        gen = int(mm[-1].replace(",", "")) if mm else 0
        dist = 0
    beh = []
    for line in out.splitlines():
        if line.startswith('"B|'):
            beh.append(json.loads(line)[2:])
    beh = [json.loads(b) for b in sorted(beh)]
    shutil.rmtree(meta, ignore_errors=True)
    return dict(module=module, cfg=cfg, generated=gen, distinct=dist, behaviours=beh, wall=round(time.time() - t0, 1))


# ---------------------------------------------------------------- executing cases on the real code
def _spawn(work, suite, chunk, tag, tmo):
    fin, fout = work / f"{tag}.in.json", work / f"{tag}.out.ndjson"
    fin.write_text(json.dumps(chunk))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYVISTA_OFF_SCREEN="true", PYTHONPATH=str(ROOT), PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    p = subprocess.Popen([PY, "-B", "-m", "harness.worker", suite, str(fin), str(fout)], cwd=work, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    end, size, stuck = time.time() + tmo, -1, time.time()
    while True:
        try:
            _, err = p.communicate(timeout=5)
            break
        except subprocess.TimeoutExpired:
            n = fout.stat().st_size if fout.exists() else -1
            if n != size:
                size, stuck = n, time.time()
            if time.time() > end or time.time() - stuck > 150:      # the worker's own alarm (90 s) cannot interrupt native code
                p.kill()
                _, err = p.communicate()
                err = (err or "") + " [timeout]"
                break
    ev, started, ended, abort = [], [], set(), False
    if fout.exists():
        for line in fout.read_text(errors="replace").splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "start" in d:
                started.append(d["start"])
            elif "end" in d:
                ended.add(d["end"])
            elif "abort" in d:
                abort = True
            else:
                ev.append(d)
    ev = [d for d in ev if d["case"] in ended]
    return ev, started, ended, err, abort


def execute(work: Path, suite: str, cases: list[dict], nproc=NCPU, tmo=700):
    """Execute all cases; every case yields events, a dead worker yields a 'crash' event for its case."""
    for i, c in enumerate(cases):
        c["case"] = i + 1
    chunks = [cases[i::nproc] for i in range(min(nproc, max(1, len(cases))))]

    def job(k):
        todo, events, n, fails = list(chunks[k]), [], 0, {}
        while todo:
            ev, started, ended, err, abort = _spawn(work, suite, todo, f"{suite}_{k}_{n}", tmo)
            n += 1
            events += ev
            todo = [c for c in todo if c["case"] not in ended]
            if not todo or abort:
                break
            if not started:
                raise MachineryError(f"worker for {suite} did not start:\n{err[-3000:]}")
            bad = [s for s in started if s not in ended]
            if not bad:
                if n > 200:
                    raise MachineryError("worker makes no progress")
                continue
            b = bad[-1]
            late = err.endswith("[timeout]")
            fails[b] = fails.get(b, 0) + 1
            if fails[b] >= 2 or late:
                events.append(dict(case=b, seq=1, ev="crash", why=err[-300:]))
                todo = [c for c in todo if c["case"] != b]
            if late:
                break
        return events

    with cf.ThreadPoolExecutor(len(chunks)) as ex:
        res = list(ex.map(job, range(len(chunks))))
    return [e for r in res for e in r]


# ---------------------------------------------------------------- validating traces with TLC
VLINE = re.compile(r'^"V\|(\d+)\|([^|"]*)(?:\|(.*))?"$')


def validate(work: Path, module: str, events: list[dict], nshard=NCPU, timeout=800, cfg="Trace.cfg"):
    by = {}
    for e in events:
        by.setdefault(e["case"], []).append(e)
    ids = sorted(by)
    weight = {c: sum(len(json.dumps(e)) for e in by[c]) for c in ids}
    shards = [[] for _ in range(min(nshard, max(1, len(ids) // 4 or 1)))]
    load = [0] * len(shards)
    for c in sorted(ids, key=lambda c: (-weight[c], c)):
        k = load.index(min(load))
        shards[k].append(c)
        load[k] += weight[c] + 200
    verdicts, nstates = [], 0

    def job(k):
        todo, out, states, n = sorted(shards[k]), [], 0, 0
        while todo:
            tf = work / f"{module}_{k}_{n}.ndjson"
            lines = []
            for c in todo:
                lines += [json.dumps(e) for e in sorted(by[c], key=lambda e: e.get("seq", 0))]
            tf.write_text("\n".join(lines) + "\n")
            meta = tempfile.mkdtemp(prefix="meta_", dir=work)
            r = java(["-metadir", meta, "-workers", "1", "-config", cfg, module], env={"TRACE": str(tf)}, timeout=timeout, xmx="2500m")
            shutil.rmtree(meta, ignore_errors=True)
            txt = r.stdout
            for line in txt.splitlines():
                m = VLINE.match(line.strip())
                if m:
                    out.append((int(m[1]), m[2], m[3] or ""))
            done = re.search(r'"D\|(\d+)"', txt)
            mm = STAT.findall(txt)
            if mm:
                states += int(mm[-1][1].replace(",", ""))
            if done and int(done[1]) == len(lines) and "No error has been found" in txt:
                break
            # evaluation error: the observed output cannot even be interpreted by the specification
            pos = re.findall(r"^/\\ l = (\d+)", txt, re.M) or re.findall(r"^l = (\d+)", txt, re.M)
            at = int(pos[-1]) if pos else None
            if at is None or at > len(lines):
                raise MachineryError(f"TLC failed on {module}:\n{txt[-4000:]}")
            c = json.loads(lines[at - 1])["case"]
            msg = " ".join(x.strip() for x in txt.split("Error:")[1:2])[:300]
            out.append((c, "malformed", msg.replace("|", "/").replace("\n", " ")))
            todo = [x for x in todo if x > c]
            n += 1
            if n > 6:
                break
        return out, states

    with cf.ThreadPoolExecutor(len(shards)) as ex:
        for o, s in ex.map(job, range(len(shards))):
            verdicts += o
            nstates += s
    return sorted(set(verdicts)), nstates


# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    f = ROOT / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) clause=(\S+) (.*)", line)
            if m:
                out.append(dict(property=m[1], key=m[2], clause=m[3], text=m[4]))
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    replay = None
    for a in argv[2:]:
        if a.startswith("--replay="):
            replay = a.split("=", 1)[1]
    t0 = time.time()
    BUILD.mkdir(exist_ok=True)
    work = Path(tempfile.mkdtemp(prefix=f"{prop}_", dir=BUILD))
    keep = bool(os.environ.get("PVG_KEEP"))
    try:
        rc = decide(prop, tier, seed, work, t0, replay)
    except MachineryError as e:
        print(f"ERROR property={prop}: {e}")
        rc = 2
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(prop, tier, seed, work, t0, replay):
    reg = registry()[prop]
    mc_states = mc_gen = 0
    nstates = ntraces = nevents = 0
    models, samples, viols = [], [], []
    kf = [k for k in known_findings() if k["property"] == prop]
    seen_kf = set()
    timing = {}
    for entry in reg["suites"]:
        mod = importlib.import_module(f"suites.{entry['suite']}")
        suite = mod.SUITE
        beh = {}
        if replay:
            cases = [json.loads(Path(replay).read_text())["case"]]
        else:
            t = time.time()
            jobs = suite.models(prop, tier)
            with cf.ThreadPoolExecutor(4) as ex:
                futs = [ex.submit(run_model, work, j["module"], j["cfg"], simulate=j.get("simulate"), seed=seed,
                                  workers=j.get("workers", 4)) for j in jobs]
                for j, f in zip(jobs, futs):
                    r = f.result()
                    mc_states += r["distinct"]
                    mc_gen += r["generated"]
                    beh.setdefault(j.get("name", j["module"]), []).extend(r.pop("behaviours"))
                    models.append(dict(r, behaviours=len(beh[j.get("name", j["module"])])))
            timing["models"] = timing.get("models", 0) + time.time() - t
            rng = random.Random(f"{prop}/{entry['suite']}/{seed}")
            cases = suite.cases(prop, rng, tier, beh)
        t = time.time()
        events = execute(work, entry["suite"], cases)
        timing["execute"] = timing.get("execute", 0) + time.time() - t
        t = time.time()
        verdicts, st = validate(work, suite.trace, events)
        timing["validate"] = timing.get("validate", 0) + time.time() - t
        nstates += st
        nevents += len(events)
        got = {e["case"] for e in events}
        ntraces += len(got)
        if len(got) != len(cases) and not any(e["ev"] == "crash" for e in events):
            raise MachineryError(f"{len(cases)} cases but traces of {len(got)}")
        rs = random.Random(seed)
        for c in rs.sample(cases, min(3, len(cases))):
            samples.append(json.dumps(c)[:600])
        byid = {c["case"]: c for c in cases}
        for c, clause, detail in verdicts:
            if re.match(r"C\d\d\.", clause) and not clause.startswith(prop + "."):
                continue
            key = byid[c].get("key", "")
            hit = [k for k in kf if k["key"] == key and key and k["clause"] == clause]
            if hit:
                for k in hit:
                    seen_kf.add((k["key"], k["clause"]))
                continue
            ev = [e for e in events if e["case"] == c]
            viols.append(dict(clause=clause, detail=detail, case=byid[c], suite=entry["suite"], events=ev))
    for k in kf:
        if (k["key"], k["clause"]) in seen_kf:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    if viols and not replay:
        rd = BUILD / "replay"
        rd.mkdir(exist_ok=True)
    printed = {}
    for v in viols:
        n = printed.get(v["clause"], 0)
        printed[v["clause"]] = n + 1
        if n >= 2:
            continue
        path = BUILD / "replay" / f"{prop}-{re.sub(r'[^A-Za-z0-9.]', '_', v['clause'])}-{n}.json"
        path.parent.mkdir(exist_ok=True)
        if not replay:
            path.write_text(json.dumps(v))
        print(f"VIOLATION property={prop} replay={path if not replay else replay} clause={v['clause']} {v['detail'][:200]}")
        if os.environ.get("PVG_VERBOSE"):
            print(json.dumps(v)[:3000])
    if printed:
        print("violated clauses:", json.dumps(printed))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=mc_states + nstates, transitions=mc_gen + nevents, traces_validated_against_impl=ntraces,
                            samples=samples, model_states=mc_states, trace_states=nstates, events=nevents, models=models,
                            timing={k: round(v, 1) for k, v in timing.items()}),
              wall_s=round(wall, 2), assumptions=reg.get("assumptions", []),
              violations=[dict(clause=v["clause"], detail=v["detail"][:200], case=json.dumps(v["case"])[:400]) for v in viols[:20]])
    if not replay:
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} {tier}: {'VIOLATED' if viols else 'held'} on {ntraces} traces ({nevents} events), model states {mc_states}, "
          f"{wall:.1f}s {ev['coverage']['timing']}")
    return 1 if viols else 0
