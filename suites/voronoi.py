"""C12, C13: Voronoi meshes."""
import math
from harness.util import *

V = 1000
MENU = [[[1, 1, 4, 9]], [[3, 3, 7, 7], [7, 3, 13, 7]], [[9, 4, 12, 19], [9, 19, 12, 29]], [[20, 1, 23, 6]]]
DIRS = [((1, 0), 1), ((0, 1), 1), ((-1, 0), 1), ((3, 4), 5), ((-4, 3), 5), ((4, -3), 5), ((-5, -12), 13), ((12, 5), 13)]


def box(b, q=1):
    x0, y0, x1, y1 = [v * q for v in b]
    return [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]


def nm(rng, names):
    return dict(k="name", v=rng.choice(names)) if rng.random() < 0.7 else dict(k="none")


def background(rng):
    """cells over a lattice: corner coordinates at scale V, ids of cells"""
    nx, ny = rng.choice([(2, 2), (3, 3), (4, 3), (3, 5), (4, 4), (5, 5), (5, 4)])
    X, Y = [0], [0]
    for A, n in ((X, nx), (Y, ny)):
        for _ in range(n):
            A.append(A[-1] + rng.choice([2, 2, 3, 4]) * V)
    kind = rng.choice(["struct", "struct", "quads", "tris", "poly"])
    pts = [[x, y] for y in Y for x in X]
    pid = lambda i, j: i + (nx + 1) * j
    cells = [[pid(i, j), pid(i + 1, j), pid(i + 1, j + 1), pid(i, j + 1)] for j in range(ny) for i in range(nx)]
    shell, holes = [[0, 0], [X[-1], 0], [X[-1], Y[-1]], [0, Y[-1]]], []
    if kind != "struct" and rng.random() < 0.5 and nx > 2 and ny > 2:
        if rng.random() < 0.5:                       # a corner is missing
            cells = [c for c in cells if c != [pid(nx - 1, ny - 1), pid(nx, ny - 1), pid(nx, ny), pid(nx - 1, ny)]]
            shell = [[0, 0], [X[-1], 0], [X[-1], Y[-2]], [X[-2], Y[-2]], [X[-2], Y[-1]], [0, Y[-1]]]
        else:                                        # holes
            at = [(1, 1)]
            if nx > 4 and rng.random() < 0.8:
                at.append((3, rng.randint(1, ny - 2)))
            if nx > 4 and ny > 4 and rng.random() < 0.5:
                at.append((1, 3))
            cells = [c for c in cells if c[0] not in [pid(i, j) for i, j in at]]
            holes = [[[X[i], Y[j]], [X[i + 1], Y[j]], [X[i + 1], Y[j + 1]], [X[i], Y[j + 1]]] for i, j in at]
    if kind == "tris":
        cells = [t for c in cells for t in ([c[:3], [c[0], c[2], c[3]]] if rng.random() < 0.6 else [c])]
    if kind == "poly" and rng.random() < 0.5:
        rng.shuffle(cells)
    used = sorted({v for c in cells for v in c})
    if kind != "struct" and len(used) < len(pts):
        m = {v: i for i, v in enumerate(used)}
        pts, cells = [pts[v] for v in used], [[m[v] for v in c] for c in cells]
    return dict(kind=kind, dims=[nx + 1, ny + 1], pts=pts, cells=cells, shell=shell, holes=holes, W=X[-1], H=Y[-1])


def item(rng, b, names):
    q = 250
    if rng.random() < 0.25:
        at = sorted({(rng.randint(1, b["W"] // q - 1) * q + 125, rng.randint(1, b["H"] // q - 1) * q + 125) for _ in range(rng.randint(1, 4))})
        rng.shuffle(at)
        cells = [[list(p)] for p in at]
        return dict(ev="add", kind="points", cells=cells, prio=rng.choice([0, 0, 1, -1, 2, -2, 3]), group=nm(rng, names), own=[])
    nx, ny = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
    out = rng.random() < 0.1
    X = [(rng.randint(-6, b["W"] // q) + (b["W"] // q + 8 if out else 0)) * q + 50 * rng.randint(1, 4)]
    Y = [rng.randint(-6, b["H"] // q) * q + 50 * rng.randint(1, 4)]
    for A, n in ((X, nx), (Y, ny)):
        for _ in range(n):
            A.append(A[-1] + rng.randint(3, 12) * q)
    cells = []
    for j in range(ny):
        for i in range(nx):
            c = [[X[i], Y[j]], [X[i + 1], Y[j]], [X[i + 1], Y[j + 1]], [X[i], Y[j + 1]]]
            cells.append(c)
    kind = rng.choice(["struct", "unstr", "unstr", "poly"])
    if kind == "unstr":
        cells = [t for c in cells for t in ([c[:3], [c[0], c[2], c[3]]] if rng.random() < 0.4 else [c])]
    own = [rng.choice(names) for _ in cells] if rng.random() < 0.3 else []
    return dict(ev="add", kind=kind, dims=[nx + 1, ny + 1], X=X, Y=Y, cells=cells, prio=rng.choice([0, 0, 1, -1, 2, -2, 3]), group=nm(rng, names), own=own)


def circle(rng, b, name, fit=True):
    n = rng.choice([6, 8, 9, 10, 12, 16, 18, 20])
    m = min(b["W"], b["H"])
    r = rng.randint(3, max(3, int(m / 3 / 100))) * 100
    cr = rng.choice([-1, r, r + r // 4, r + r // 2, r + r // 5]) if rng.random() < 0.95 else r - 100
    k = r + r // 2 + 200
    c = [rng.randint(k, b["W"] - k) if fit and b["W"] > 2 * k else rng.randint(0, b["W"]), rng.randint(k, b["H"] - k) if fit and b["H"] > 2 * k else rng.randint(0, b["H"])]
    return dict(ev="circle", c=[x // 10 * 10 for x in c], r=r, cr=cr, n=n, prio=rng.choice([0, 1, 2, -1]), group=dict(k="name", v=name) if rng.random() < 0.9 else dict(k="none"),
                plain=rng.random() < 0.35, cdim=rng.choice([2, 3, 3]), res=rng.choice(["int", "list"]), zero=False)


def polyline(rng, b, name):
    d, dl = rng.choice(DIRS)
    n = rng.randint(2, 5)
    s = [0]
    L = rng.choice([4, 6, 8]) * 100
    for _ in range(n - 1):
        s.append(s[-1] + (L if rng.random() < 0.7 else rng.choice([4, 6, 8, 10]) * 100))
    mid = [b["W"] // 2 + rng.randint(-20, 20) * 30, b["H"] // 2 + rng.randint(-20, 20) * 30]
    o = [mid[i] - d[i] * s[-1] // (2 * dl) for i in (0, 1)]
    perc = rng.choice([[0, 1000], [0, 1000], [0, 500, 1000], [0, 250, 500, 750, 1000], [0, 400, 600, 1000], [0, 250, 1000]])
    return dict(ev="polyline", o=o, d=list(d), dl=dl, s=s, width=rng.choice([4, 6, 8, 10]) * 100, pref=rng.choice(["cell", "point"]) if n > 2 else "cell", pad=rng.choice([-1, 100, 200, 300, 0]), c0=rng.choice([1, 1, 1, 2, 0]), c1=rng.choice([1, 1, 1, 2, 0]),
                perc=perc, prio=rng.choice([0, 0, 1, 2, -1, -2]), group=dict(k="name", v=name), form=rng.choice(["arr", "list", "mesh", "arr2"]), both=rng.random() < 0.3)


def bent(rng, b, name):
    w = rng.choice([4, 6]) * 100
    ang, p, P = rng.uniform(0, 6.28), [0, 0], [[0, 0]]
    for _ in range(rng.randint(2, 4)):
        d = rng.randint(5, 9) * 100
        p = [2 * round((p[0] + d * math.cos(ang)) / 2), 2 * round((p[1] + d * math.sin(ang)) / 2)]
        P.append(p)
        ang += rng.uniform(-0.9, 0.9)
    mid = [sum(q[i] for q in P) // len(P) for i in (0, 1)]
    o = [2 * (b[k] // 4 + rng.randint(-20, 20) * 15) - mid[i] // 2 * 2 for i, k in ((0, "W"), (1, "H"))]
    e = polyline(rng, b, name)
    e.update(ev="bent", path=[[q[0] + o[0], q[1] + o[1]] for q in P], width=w, pref=rng.choice(["cell", "point"]), both=False)
    return e


def robust(G, b):
    """are all parts of the domain closest to one generator simple polygons, also if the rim moves a little?"""
    import numpy as np
    from shapely.geometry import Point, Polygon, box as rect
    dom = Polygon(np.array(b["shell"]) / V, [np.array(h) / V for h in b["holes"]])
    doms = [dom] + [dom.buffer(w, join_style="mitre") for w in (1e-4, -1e-4)]
    for i in range(len(G)):
        full = rect(-99, -99, 99, 99)
        for j in range(len(G)):
            d = G[j] - G[i]
            L = np.hypot(*d)
            if i != j and L > 0:
                mid, t = (G[i] + G[j]) / 2, d / L
                n = np.array([-t[1], t[0]])
                full = full.intersection(Polygon([mid + 299 * n, mid - 299 * n, mid - 299 * n - 299 * t, mid + 299 * n - 299 * t]))
                if full.is_empty:
                    return False
        for dm in doms:
            r = dm.intersection(full)
            if r.geom_type != "Polygon" or r.is_empty or r.interiors or r.area < 1e-5:
                return False
            core = r.buffer(-5e-4, join_style="mitre")   # no arm is thinner than rounding
            if core.geom_type != "Polygon" or core.is_empty or any(core.distance(Point(p)) > 0.012 for p in r.exterior.coords):
                return False
    return True


class S(Suite):
    trace = "Trace_Voronoi"

    def models(self, prop, tier):
        return [dict(module="MC_Voronoi", cfg="MC_Voronoi.cfg", name="vor")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 8
        out = []
        names = ["a", "b", "c"]

        def begin(b, ops, pref=None, own=None):
            pref = pref or rng.choice(["cell", "cell", "point"])
            m = len(b["cells"])
            ops = list(ops)
            gen = lambda: dict(ev="gen", ccw=rng.random() < 0.6, short=rng.random() < 0.15, inf=rng.random() < 0.1)
            if rng.random() < 0.2 and ops:
                ops.insert(rng.randint(0, len(ops)), gen())
            return dict(b=b, pref=pref, own=own if own is not None else [rng.choice(names + ["d"]) for _ in range(m)] if rng.random() < 0.4 else [], dflt=rng.choice(["", "base"]), ignore=rng.choice([[], [], ["a"]]),
                        ax=rng.choice([2, 2, 0, 1]), off=rng.choice([0, 0, 0, 1000, 50000]), high=rng.choice([0, 1]), ops=ops + [gen()])
        MB = dict(kind="struct", dims=[5, 5], pts=[[1600 * i, 1600 * j] for j in range(5) for i in range(5)], cells=[[i + 5 * j, i + 1 + 5 * j, i + 6 + 5 * j, i + 5 + 5 * j] for j in range(4) for i in range(4)],
                  shell=box([0, 0, 6400, 6400]), holes=[], W=6400, H=6400)
        B = beh["vor"]
        for x in rng.sample(B, min(len(B), 100 * n)):
            out.append(begin(MB, [dict(ev="add", kind="unstr", cells=[box(v, 400) for v in MENU[o["k"] - 1]], prio=o["prio"], group=dict(k="name", v="abcd"[o["k"] - 1]), own=[]) for o in x["h"]], "cell", []))
        for _ in range(160 * n):
            b = background(rng)
            out.append(begin(b, [item(rng, b, names) for _ in range(rng.randint(0, 4))]))
        for _ in range(70 * n):
            b = background(rng)
            out.append(begin(b, [circle(rng, b, "well%d" % i, rng.random() < 0.8) for i in range(rng.choice([1, 1, 2]))] + ([item(rng, b, names)] if rng.random() < 0.2 else [])))
        for _ in range(70 * n):
            b = background(rng)
            out.append(begin(b, [polyline(rng, b, "line%d" % i) for i in range(rng.choice([1, 1, 1, 2]))] + ([item(rng, b, names)] if rng.random() < 0.2 else [])))
        for _ in range(40 * n):
            b = background(rng)
            out.append(begin(b, [bent(rng, b, "line%d" % i) for i in range(rng.choice([1, 1, 1, 2]))]))
        for i, o in enumerate(out):
            for x in o["ops"]:
                if x["ev"] == "circle" and (x["group"]["k"] == "none" or x["cr"] == x["r"]):
                    x["plain"] = False
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt
        ax, off, b = c["ax"], c["off"], c["b"]
        rng = np.random.default_rng(7)

        def lift(p, high=None):
            p = np.array(p, float).reshape(-1, 2) / V + off
            h = rng.integers(-3, 4, len(p)) if (c["high"] if high is None else high) else np.zeros(len(p))
            return np.insert(p, ax, h, axis=1)
        nm_ = {}

        def group(me, own):
            if own:
                tab = {k: i for i, k in enumerate(sorted(set(own)))}
                me.cell_data["CellGroup"] = np.array([tab[o] for o in own])
                me.user_dict["CellGroup"] = tab
            return me

        def cells(kind, dims, cs, pts=None):
            """pts: shared points, cs ids; otherwise cs are corners"""
            if kind == "points":
                return lift([p for x in cs for p in x])
            if kind == "struct":
                g = pv.StructuredGrid()
                P = lift(pts)
                g.points = P
                d = [dims[0], dims[1]]
                d.insert(ax, 1)
                g.dimensions = d
                return g
            if pts is None:
                pts, ids, at = [], [], {}
                for x in cs:
                    for p in x:
                        if tuple(p) not in at:
                            at[tuple(p)] = len(pts)
                            pts.append(p)
                    ids.append([at[tuple(p)] for p in x])
                cs = ids
            P = lift(pts, False)
            flat = [v for x in cs for v in (len(x), *x)]
            if kind == "poly":
                return pv.PolyData(P, faces=flat)
            return pv.UnstructuredGrid(flat, [{3: 5, 4: 9}[len(x)] for x in cs], P)

        me = group(cells(b["kind"], b["dims"], b["cells"], b["pts"]), c["own"])
        bg = [[sum(b["pts"][v][k] for v in x) / len(x) for k in (0, 1)] for x in b["cells"]] if c["pref"] == "cell" else b["pts"]
        kw = {}
        if c["dflt"]:
            kw["default_group"] = c["dflt"]
        if c["ignore"]:
            kw["ignore_groups"] = c["ignore"]
        vm, exc = attempt(lambda: pvg.VoronoiMesh2D(me, axis=ax, preference=c["pref"], **kw))
        out = [dict(ev="begin", shell=b["shell"], holes=b["holes"], bg=[[round(v) for v in p] for p in bg], names=c["own"] if c["pref"] == "cell" else [], dflt=c["dflt"] or "default", ignore=c["ignore"], exc=exc)]
        if exc:
            return out
        g = lambda o: dict(group=o["group"]["v"]) if o["group"]["k"] == "name" else {}
        pr = lambda o: dict(priority=o["prio"]) if o["prio"] else {}
        for o in c["ops"]:
            if o["ev"] == "add":
                it = cells(o["kind"], o.get("dims"), o["cells"], [[x, y] for y in o["Y"] for x in o["X"]] if o["kind"] == "struct" else None)
                if not isinstance(it, np.ndarray):
                    group(it, o["own"])
                elif len(it) == 1 and c["case"] % 3:
                    it = it[0]               # a single point
                _, exc = attempt(lambda: vm.add(it, **pr(o), **g(o)))
                out.append(dict(ev="add", cells=o["cells"], prio=o["prio"], group=o["group"], names=o["own"], exc=exc))
            elif o["ev"] == "circle":
                r = o["r"] / V
                ctr = np.array(o["c"], float) / V + off
                if o["cdim"] == 3:
                    ctr = np.insert(ctr, ax, 2.5 * c["high"])
                res = o["n"] if o["res"] == "int" else np.linspace(0, 1, o["n"] + 1)
                k = dict(constraint_radius=o["cr"] / V) if o["cr"] != -1 else {}
                _, exc = attempt(lambda: vm.add_circle(r, resolution=res, center=ctr, **k, **({"plain": True} if o["plain"] else {}), **pr(o), **g(o)))
                out.append(dict(ev="circle", c=o["c"], r=o["r"], cr=o["r"] * 3 // 2 if o["cr"] == -1 else o["cr"], n=o["n"], prio=o["prio"], group=o["group"], plain=o["plain"], exc=exc))
            elif o["ev"] in ("polyline", "bent"):
                p = np.array([[(o["o"][i] + o["d"][i] * s / o["dl"]) / V + off for i in (0, 1)] for s in o["s"]])
                if o["ev"] == "bent":
                    p = np.array(o["path"], float) / V + off
                q = np.insert(p, ax, 0.0, axis=1)
                arg = {"arr": q, "list": q.tolist(), "arr2": p, "mesh": pv.PolyData(q, lines=[len(q), *range(len(q))])}[o["form"]]
                k = dict(constraint=o["c0"] if o["c0"] == o["c1"] else (o["c0"], o["c1"]))
                if k["constraint"] == 1 and o["both"]:
                    k = {}
                if o["pad"] >= 0:
                    k["padding"] = o["pad"] / V
                if o["perc"] != [0, 1000]:
                    m = len(o["perc"]) - 1
                    k["resolution"] = m if o["both"] and o["perc"] == [1000 * i // m for i in range(m + 1)] else [x / 1000 for x in o["perc"]]
                _, exc = attempt(lambda: vm.add_polyline(arg, o["width"] / V, preference=o["pref"], **k, **pr(o), **g(o)))
                out.append(dict(ev=o["ev"], path=o.get("path", []), o=o["o"], d=o["d"], dl=o["dl"], s=o["s"], width=o["width"], pref=o["pref"], pad=o["width"] // 2 if o["pad"] < 0 else o["pad"], c0=o["c0"], c1=o["c1"], perc=o["perc"],
                                prio=o["prio"], group=o["group"], exc=exc))
            else:
                k = dict(orientation="CCW" if o["ccw"] else "CW") if not o["ccw"] or o["short"] else {}
                if o["short"]:
                    k["min_length"] = 1e-5
                if o["inf"]:
                    k["infinity"] = 1e5
                m, exc = attempt(lambda: vm.generate_mesh(**k))
                e = dict(ev="gen", ccw=o["ccw"], exc=exc, pts=[], cells=[], gen=[], names=[], simple=False, flat=True)
                if not exc:
                    P = np.asarray(m.points, float)
                    e["flat"] = bool((np.abs(P[:, ax]) < 1e-9).all())
                    P = np.delete(P, ax, axis=1) - off
                    e["pts"] = [[round(v * V) for v in p] for p in P.tolist()]
                    e["cells"] = [[int(v) + 1 for v in m.get_cell(i).point_ids] for i in range(m.n_cells)]
                    G = np.delete(np.column_stack([m.cell_data[k] for k in "XYZ"]), ax, axis=1) - off
                    e["gen"] = [[round(v * V) for v in p] for p in G.tolist()]
                    tab = {int(v): k for k, v in m.user_dict["CellGroup"].items()}
                    e["names"] = [tab.get(int(v), "?") for v in m.cell_data["CellGroup"]]
                    e["simple"] = robust(G, b)
                out.append(e)
        return out


SUITE = S()
