"""C23: ray casting and intersection of polylines."""
from harness.util import *

H = 0.1


def gmesh(rng, flat=None):
    flat = rng.random() < 0.5 if flat is None else flat
    nx, ny, nz = rng.randint(1, 4), rng.randint(1, 4), 1 if flat else rng.randint(1, 3)
    ax = lambda n: [2 * v for v in sorted(rng.sample(range(-8, 9), n + 1))] if rng.random() < 0.7 else [6 * i for i in range(n + 1)]
    X, Y, Z = ax(nx), ax(ny), ax(nz)
    cells = []
    kind = rng.choice(["quad", "quad", "tri", "mix"])
    drop = rng.random() < 0.3
    for k in range(nz):
        lay = []
        r2 = rng.random() if k == 0 else r2
        for j in range(ny):
            for i in range(nx):
                p = [[X[i], Y[j]], [X[i + 1], Y[j]], [X[i + 1], Y[j + 1]], [X[i], Y[j + 1]]]
                h = hash((i * 7 + j * 3 + int(r2 * 100)) % 5)
                t = "tri" if kind == "tri" or (kind == "mix" and h % 2) else "quad"
                if t == "quad":
                    lay.append([p, h == 1 or h == 3])
                elif h < 3:
                    lay += [[[p[0], p[1], p[2]], False], [[p[0], p[2], p[3]], False]]
                else:
                    lay += [[[p[0], p[1], p[3]], False], [[p[1], p[2], p[3]], False]]
        for p, _ in lay:
            cells.append(dict(poly=p, z=[Z[k], Z[k + 1]]))
    if drop and len(cells) > 3:
        cells = [c for c in cells if rng.random() < 0.8] or cells
    if rng.random() < 0.4:
        rng.shuffle(cells)
    return flat, cells


def gline(rng, flat, n=None):
    n = n or rng.choice([2, 2, 2, 3, 3, 4, 5])
    pt = lambda: [rng.randint(-20, 20), rng.randint(-20, 20), 0 if flat else rng.randint(-20, 20)]
    V = [pt() for _ in range(n)]
    if rng.random() < 0.4:       # a smooth line across
        a, b = pt(), pt()
        V = [[(a[k] * (n - 1 - i) + b[k] * i) // max(1, n - 1) + (rng.randint(-2, 2) if k < 2 or not flat else 0) for k in range(3)] for i in range(n)]
    for _ in range(rng.choice([0, 0, 1, 2])):    # outside parts
        V.insert(0, [V[0][0] + rng.choice([-1, 1]) * rng.randint(1, 9) * (30 if abs(V[0][0]) < 15 else 1), V[0][1], V[0][2]]) if len(V) < 6 else None
    V = [[max(-40, min(40, x)) for x in v] for v in V]
    return [v for i, v in enumerate(V) if i == 0 or v != V[i - 1]]


class S(Suite):
    trace = "Trace_Walk"

    def models(self, prop, tier):
        return [dict(module="MC_Walk", cfg="MC_Walk.cfg", name="walk")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 8
        out = []
        tr = lambda: dict(perm=rng.choice([0, 1, 2]), rot=rng.choice([0, 0, 1, 2]), off=rng.choice([0, 0, 3, 4000000]), form=rng.choice(["unstr", "unstr", "voxel"]))
        opt = lambda: dict(before=rng.random() < 0.3, after=rng.random() < 0.3, dpass=rng.random() < 0.7, onecell=rng.random() < 0.5)
        B = beh["walk"]
        for x in rng.sample(B, min(len(B), 100 * n)):
            out.append(dict(ev="cut", flat=True, cells=x["cells"], v=x["v"], reentry=False, want=[], **opt(), **tr()))
        for _ in range(250 * n):
            flat, cells = gmesh(rng)
            out.append(dict(ev="cut", flat=flat, cells=cells, v=gline(rng, flat), reentry=False, want=[], **opt(), **tr()))
        for _ in range(150 * n):
            flat, cells = gmesh(rng)
            v = gline(rng, flat, 2)[-2:]
            if len(v) == 2:
                out.append(dict(ev="ray", flat=flat, cells=cells, v=v, ang=rng.choice([0, 0, 0, 30, 45, 60]), poly=rng.random() < 0.25, **tr()))
        q = lambda a, b, c, d: dict(poly=[[a, c], [b, c], [b, d], [a, d]], z=[0, 4])
        k = rng.randint(1005, 1060)      # a long line
        cut = [0, 2 * rng.randint(200, 400), 2 * rng.randint(450, 700), 2 * rng.randint(1010, 1030)]
        out.append(dict(ev="cut", flat=True, cells=[q(cut[i], cut[i + 1], -20, 20) for i in range(3)], v=[[2 * i - 5, rng.randint(-7, 7), 0] for i in range(k)],
                        reentry=False, want=[], **opt(), **tr()))
        out.append(dict(key="walk-reentry", ev="cut", flat=True, cells=[q(0, 4, 0, 4), q(8, 12, 0, 4)], v=[[-2, 1, 0], [15, 2, 0]], reentry=True, want=[-1, 0, -1, 1, -1], before=False, after=False, dpass=True, onecell=False, perm=0, rot=0, off=0, form="unstr"))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, ints, cells_of
        th = [None, (0.6, 0.8), (5 / 13, 12 / 13)][c["rot"]]
        R = np.eye(3) if th is None else np.array([[th[0], -th[1], 0], [th[1], th[0], 0], [0, 0, 1]])
        R = np.roll(np.eye(3), c["perm"], axis=0) @ R
        off = c["off"]
        fw = lambda p: np.array(p, float) @ R.T * H + off
        bw = lambda p: scs((np.asarray(p, float) - off) @ R / H, 1000)
        pid, pts, flat_cells, types = {}, [], [], []

        def P(v):
            t = tuple(v)
            if t not in pid:
                pid[t] = len(pts)
                pts.append(list(v))
            return pid[t]
        for x in c["cells"]:
            n = len(x["poly"])
            if c["flat"]:
                ids = [P([*q, 0]) for q in x["poly"]]
                t = {3: 5, 4: 9}[n]
                if c["form"] == "voxel" and n == 4 and th is None:
                    ids, t = [ids[0], ids[1], ids[3], ids[2]], 8
            else:
                ids = [P([*q, z]) for z in x["z"] for q in x["poly"]]
                t = {3: 13, 4: 12}[n]
                if c["form"] == "voxel" and n == 4 and th is None:
                    ids, t = [ids[k] for k in (0, 1, 3, 2, 4, 5, 7, 6)], 11
            flat_cells += [len(ids), *ids]
            types.append(t)
        me = pv.UnstructuredGrid(np.array(flat_cells), np.array(types, np.uint8), fw(pts))
        V = fw(c["v"])
        if c["ev"] == "ray":
            kw = dict(max_angle=c["ang"]) if c["ang"] else {}
            src = me
            if c["poly"]:            # the faces or edges themselves
                src = pvg.extract_cell_geometry(me, remove_ghost_cells=False)
                own = np.asarray(src.cell_data["vtkOriginalCellIds"]).reshape((src.n_cells, -1))
            r, exc = attempt(lambda: pvg.ray_cast(src, V[0], V[1], **kw))
            e = dict(ev="ray", ang=c["ang"], flat=c["flat"], cells=c["cells"], a=c["v"][0], b=c["v"][1], exc=exc, none=r is None, faces=[])
            if r is not None:
                lat = [[int(round(v / 1000)) for v in q] for q in bw(r.points)]
                ids = np.asarray(r.cell_data["vtkOriginalCellIds"]).reshape((r.n_cells, -1))
                ids = own[ids.ravel()] if c["poly"] else ids
                ip = bw(r.cell_data["IntersectionPoints"])
                for k, cl in enumerate(cells_of(r)[0]):
                    e["faces"].append(dict(p=ip[k], own=ints(ids[k]), v=[lat[i - 1] for i in cl]))
            return [e]
        n = len(V)
        ls = [n, *range(n)] if c["onecell"] else np.column_stack([np.full(n - 1, 2), np.arange(n - 1), np.arange(1, n)]).ravel()
        line = pv.PolyData(V, lines=ls)
        line.cell_data["dat"] = np.arange(line.n_cells) * 3 + 100
        if c["case"] % 3 == 0:       # names that are taken
            for k in ("vtkOriginalCellIds", "IntersectedCellIds"):
                line.cell_data[k] = np.arange(line.n_cells) + 70
        kw = dict(pass_cell_data=c["dpass"]) if not c["dpass"] else {}
        r, exc = attempt(lambda: pvg.intersect_polyline(me, line, ignore_points_before_entry=c["before"], ignore_points_after_exit=c["after"], **kw))
        e = dict(ev="cut", flat=c["flat"], cells=c["cells"], v=c["v"], before=c["before"], after=c["after"], reentry=c["reentry"], want=c["want"], exc=exc, pts=[], ids=[], lids=[], data=[], ldata=ints(line.cell_data["dat"]), chain=True, **{"pass": c["dpass"]})
        if not exc:
            cl = cells_of(r)[0]
            e["pts"] = bw(r.points)
            e["chain"] = cl == [[i + 1, i + 2] for i in range(len(cl))]
            e["ids"], e["lids"] = ints(r.cell_data["IntersectedCellIds"]), ints(r.cell_data["vtkOriginalCellIds"])
            e["data"] = ints(r.cell_data["dat"]) if "dat" in r.cell_data else []
        return [e]


SUITE = S()
