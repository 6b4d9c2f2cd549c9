"""C20: decimation, averaging, reconstruction of lines."""
from harness.util import *

H = 1000      # K units per lattice unit


def walk(rng, n, m, flat):
    s = []
    while len(s) < n:
        p = [rng.randint(-m, m), rng.randint(-m, m), 0 if flat else rng.randint(-m, m)]
        if rng.random() < 0.5 and s:
            p = [a + rng.randint(-1, 1) * (k < 2 or not flat) for k, a in enumerate(s[-1])]
            p = [max(-8, min(8, v)) for v in p]
        if not s or p != s[-1]:
            s.append(p)
    return s


def grdp(rng):
    lines = [walk(rng, rng.randint(2, 8), rng.choice([1, 3, 8]), rng.random() < 0.6) for _ in range(rng.randint(1, 3))]
    for s in lines:
        if len(s) > 3 and rng.random() < 0.2 and s[-1] != s[0]:
            s.append(list(s[0]))
    return dict(ev="rdp", lines=lines, tn=rng.choice([1, 3, 9, 17, 25, 41]), off=rng.choice([0, 0, 2000000]), extra=rng.random() < 0.2)


def gavg(rng):
    n = rng.randint(3, 9)
    m = rng.choice([1, 2, 4])
    pts = [[rng.randint(-m, m), rng.randint(-m, m), rng.randint(0, 1)] for _ in range(n)]
    if rng.random() < 0.4:       # chains, shuffled
        n = rng.randint(8, 20)
        pts = [[i + (i > rng.randint(0, n)), 0, 0] if rng.random() < 0.9 else [i, 2, 0] for i in range(n)]
        rng.shuffle(pts)
    faces = []
    if rng.random() < 0.7:
        for _ in range(rng.randint(1, 4)):
            faces.append([i + 1 for i in rng.sample(range(n), min(n, rng.choice([3, 3, 4, 5])))])
    return dict(ev="avg", pts=pts, faces=faces, tn=rng.choice([1, 3, 3, 5]), off=rng.choice([0, 0, 2000000]))


def gpath(rng):
    n = rng.randint(2, 7)
    pts = [[rng.randint(-8, 8), rng.randint(-8, 8), rng.randint(-8, 8)] for _ in range(n)]
    if rng.random() < 0.07:
        pts = [pts[0] for _ in pts]
    d = rng.choice([2, 3])
    if d == 2:
        pts = [[*p[:2], 0] for p in pts]
    return dict(ev="path", pts=pts, start=rng.randrange(n) if rng.random() < 0.5 else 0, close=rng.random() < 0.5, d=d, form=rng.choice(["list", "array", "poly", "unstr", "bad" if rng.random() < 0.2 else "list"]), off=rng.choice([0, 0, 2000000]) if d == 3 else 0)


class S(Suite):
    trace = "Trace_Reduce"

    def models(self, prop, tier):
        return [dict(module="MC_Rdp", cfg="MC_Rdp.cfg" if tier == "quick" else "MC_Rdp5.cfg", name="rdp"), dict(module="MC_Average", cfg="MC_Average.cfg", name="avg"), dict(module="MC_TwoOpt", cfg="MC_TwoOpt.cfg" , name="path")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 8
        pick = lambda b, k: rng.sample(beh[b], min(len(beh[b]), k * n))
        out = [dict(ev="rdp", lines=[x["s"]], tn=x["tol"], off=0, extra=False) for x in pick("rdp", 200)]
        out += [dict(ev="avg", pts=x["s"], faces=rng.choice([[], [[1, 2, 3, 4]], [[1, 2, 3], [2, 4, 1, 3]]]), tn=x["tol"], off=0) for x in pick("avg", 150)]
        out += [dict(ev="path", pts=x["s"], start=rng.randrange(4), close=x["close"], d=3, form="array", off=0) for x in pick("path", 48)]
        for x in out:
            if not x["off"] and rng.random() < 0.25:
                x["p2"] = rng.choice([-14, -7, 7, 14])
            if x["ev"] == "path" and rng.random() < 0.15:
                x["neg"] = 1       # counted from the end
        return out + [grdp(rng) for _ in range(250 * n)] + [gavg(rng) for _ in range(250 * n)] + [gpath(rng) for _ in range(120 * n)]

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, ints, cells_of
        off, p2 = c["off"], 2.0 ** c.get("p2", 0)
        real = lambda p: np.array(p, float) * (H / 10000 * p2) + off
        lat = lambda p: scs((np.asarray(p, float) - off) / p2)
        exact = lambda p: [[v // H if v % H == 0 else 77777 for v in q] for q in lat(p)]
        if c["ev"] == "rdp":
            pts = [p for s in c["lines"] for p in s]
            ls, k = [], 0
            for s in c["lines"]:
                ls += [len(s), *range(k, k + len(s))]
                k += len(s)
            kw = dict(verts=[1, 0], faces=[3, 0, 1, 2]) if c["extra"] and len(pts) > 2 else {}
            me = pv.PolyData(real(pts), lines=ls, **kw)
            r, exc = attempt(lambda: pvg.decimate_rdp(me, c["tn"] / 16 * H / 10000 * p2))
            e = dict(ev="rdp", lines=c["lines"], plain=[len(s) == 2 for s in c["lines"]], tn=c["tn"], exc=exc, out=[])
            if not exc:
                cl, ty = cells_of(r)
                P = exact(r.points)
                for x in cl:
                    e["out"].append([P[i - 1] for i in x])
            return [e]
        if c["ev"] == "avg":
            kw = dict(faces=np.concatenate([[len(f), *[i - 1 for i in f]] for f in c["faces"]])) if c["faces"] else {}
            me = pv.PolyData(real(c["pts"]), **kw)
            r, exc = attempt(lambda: pvg.average_points(me, c["tn"] / 2 * H / 10000 * p2))
            e = dict(ev="avg", pts=c["pts"], faces=c["faces"], tn=c["tn"], h=H, exc=exc, out=[], ofaces=[], orig=[])
            if not exc:
                e["out"] = lat(r.points)
                if c["faces"] and r.n_cells:
                    e["ofaces"] = cells_of(r)[0]
                    e["orig"] = ints(r.cell_data["vtkOriginalCellIds"]) if "vtkOriginalCellIds" in r.cell_data else []
            return [e]
        P = real(c["pts"])
        if c["d"] == 2 and c["form"] in ("list", "array"):
            P = P[:, :2]
        x = P.tolist() if c["form"] == "list" else pv.PolyData(P) if c["form"] == "poly" else pv.UnstructuredGrid(np.array([v for i in range(len(P)) for v in (1, i)]), np.ones(len(P), np.uint8), P) if c["form"] == "unstr" else P
        if c["form"] == "bad":
            x = np.column_stack([P, P])
        r, exc = attempt(lambda: pvg.reconstruct_line(x, start=c["start"] - c.get("neg", 0) * len(P), close=c["close"]))
        e = dict(ev="path", pts=c["pts"], first=c["start"], close=c["close"], closed=False, bad=c["form"] == "bad", exc=exc, out=[])
        if not exc:
            from pvgridder import split_lines
            ids = []
            for s in cells_of(r)[0]:
                ids += s if not ids else s[1:] if s[0] == ids[-1] else [0, *s]
            Q = exact(r.points)
            e["closed"] = len(ids) > 1 and ids[0] == ids[-1]
            if e["closed"]:
                ids = ids[:-1]
            e["out"] = [Q[i - 1] if i else [88888] * 3 for i in ids]
        return [e]


SUITE = S()
