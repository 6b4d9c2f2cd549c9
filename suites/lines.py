"""C19: splitting and merging lines."""
from harness.util import *

U = 1250
KEYS = ["sca", "int", "vec", "str"]


def gmesh(rng, npool=None):
    n = rng.randint(2, 7)
    h = rng.choice([8 * U, 8 * U, U, 1])
    grid = [[x * h, y * h, z * h] for x in range(-1, 2) for y in range(-1, 2) for z in (0, 1)]
    pts = rng.sample(grid, n) if rng.random() < 0.8 else [rng.choice(grid) for _ in range(n)]
    lines = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(2, 6)
        s = []
        while len(s) < k:
            c = [i for i in range(n) if not s or pts[i] != pts[s[-1]]]
            if not c:
                break
            s.append(rng.choice(c))
        if len(s) > 2 and rng.random() < 0.3 and pts[s[-1]] != pts[s[0]]:
            s.append(s[0])
        if len(s) >= 2:
            lines.append([i + 1 for i in s])
    if not lines:
        return gmesh(rng)
    return dict(pts=pts, lines=lines, verts=rng.choice([0, 0, 0, 1, 2]), pk=[k for k in KEYS if rng.random() < 0.7], ck=[k for k in KEYS if rng.random() < 0.7])


class S(Suite):
    trace = "Trace_Lines"

    def models(self, prop, tier):
        return [dict(module="MC_Lines", cfg="MC_Lines.cfg", name="lines")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = []
        P3 = [[0, 0, 0], [8 * U, 0, 0], [8 * U, 16 * U, 0]]
        for x in rng.sample(beh["lines"], min(len(beh["lines"]), 200 * n)):
            out.append(dict(ms=[dict(pts=P3, lines=x["lines"], verts=0, pk=list(KEYS), ck=list(KEYS))], ops=[["split", x["a"], 0], ["mergelast", x["b"], 0]], off=0))
        for _ in range(250 * n):
            ms = [gmesh(rng) for _ in range(rng.randint(1, 3))]
            ops = []
            for _ in range(rng.randint(1, 4)):
                ops.append([rng.choice(["split", "split", "merge", "mergelast"]), rng.random() < 0.5, rng.randint(0, 9)])
            out.append(dict(ms=ms, ops=ops, off=rng.choice([0, 0, 4000000])))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs
        off = c["off"]

        def build(m, q):
            p = np.array(m["pts"], float) / 10000 + off
            kw = dict(verts=np.array([[1, i] for i in range(m["verts"])]).ravel()) if m["verts"] else {}
            me = pv.PolyData(p, lines=np.concatenate([[len(x), *[i - 1 for i in x]] for x in m["lines"]]), **kw)
            for keys, d, k, s in [(m["pk"], me.point_data, me.n_points, 10), (m["ck"], me.cell_data, me.n_cells, 50)]:
                base = np.arange(k) + 100 * q + s
                for key in keys:
                    d[key] = {"sca": base + 0.5, "int": base, "vec": np.column_stack([base, base * 2, -base]), "str": np.array([f"n{v}" for v in base])}[key]
            return me

        def proj(me):
            nv, nl = me.n_verts, me.n_lines
            ls, b = [], me.lines
            i = 0
            while i < len(b):
                ls.append([int(v) + 1 for v in b[i + 1:i + 1 + b[i]]])
                i += b[i] + 1
            s = lambda v: str(np.asarray(v).tolist())
            return dict(pts=scs(np.asarray(me.points, float) - off), lines=ls, pd={k: [s(v) for v in me.point_data[k]] for k in me.point_data},
                        cd={k: [s(v) for v in me.cell_data[k]][nv:nv + len(ls)] for k in me.cell_data}, other=me.n_cells - len(ls))

        ms = [build(m, q) for q, m in enumerate(c["ms"])]
        last = list(ms)
        out = []
        for op, as_, w in c["ops"]:
            if op == "split":
                me = last[w % len(last)] if w % 2 else ms[w % len(ms)]
                if len(out) == 1 and len(c["ms"]) == 1:
                    me = ms[0]
                r, exc = attempt(lambda: list(pvg.split_lines(me, as_lines=as_)))
                out.append(dict(ev="split", m=proj(me), exc=exc, res=[proj(x) for x in r or []], **{"as": as_}))
                if r:
                    last = r
            else:
                L = last if op == "mergelast" else ms
                r, exc = attempt(lambda: pvg.merge_lines(L, as_lines=as_))
                e = dict(ev="merge", ms=[proj(x) for x in L], exc=exc, res={}, **{"as": as_})
                if not exc:
                    e["res"] = proj(r)
                    last = [r, *last[:2]]
                out.append(e)
        return out


SUITE = S()
