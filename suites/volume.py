"""C05: volume between two surfaces."""
from harness.util import *

U = 1250
TRI, POLY, PIXEL, QUAD = 5, 7, 8, 9


def axes(rng, n, r):
    v, out = rng.randint(-40, 40), []
    for _ in range(n):
        out.append(v * U)
        v += rng.randint(1, r)
    return out


def perm(ax, p):
    return p if ax == 3 else [p[0], p[2], p[1]] if ax == 2 else [p[2], p[0], p[1]]


def tops(rng, pts, ax, polys):
    """second surface: displaced along the axis, on one side, some columns collapsed"""
    s = rng.choice([1, 1, -1])
    k = ax - 1
    pz = rng.choice([0.0, 0.3, 0.6])
    hs = [0 if rng.random() < pz else rng.randint(1, 60) * U * s for _ in pts]
    if rng.random() < 0.2:
        hs = [rng.randint(1, 60) * U * s] * len(pts)
    sh = [0, 0, 0]
    if rng.random() < 0.3:
        hs = [rng.randint(1, 60) * U * s] * len(pts)   # a sheared prism stays right side out only under uniform height
        for c in range(3):
            if c != k:
                sh[c] = rng.randint(-20, 20) * U
    return [[p[c] + sh[c] + (h if c == k else 0) for c in range(3)] for p, h in zip(pts, hs)]


def g_struct(rng):
    ax = rng.choice([1, 2, 3])
    n1, n2 = rng.randint(2, 5), rng.randint(2, 5)
    x, y = axes(rng, n1, 12), axes(rng, n2, 12)
    form = rng.choice(["struct", "struct", "image", "rect"])
    z0 = rng.randint(-40, 40) * U
    flat = form != "struct" or rng.random() < 0.4
    if form == "image":
        x, y = [x[0] + i * (x[1] - x[0]) for i in range(n1)], [y[0] + i * (y[1] - y[0]) for i in range(n2)]
    pts = [perm(ax, [a, b, z0 if flat else z0 + rng.randint(-20, 20) * U]) for b in y for a in x]
    dims = perm(ax, [n1, n2, 1])
    off = 0
    if form == "struct" and rng.random() < 0.15:
        off = rng.choice([100000, -100000]) * 10000
        pts = [[p[0] + off, p[1] + off, p[2] + off] for p in pts]
    if form == "struct":
        b = tops(rng, pts, ax, False)
    else:
        h = rng.choice([0, 1, 1, 1, -1]) * rng.randint(1, 60) * U
        b = [[p[c] + (h if c == ax - 1 else 0) for c in range(3)] for p in pts]
    c = dict(a=dict(kind="struct", dims=dims, pts=pts), b=dict(kind="struct", dims=dims, pts=b), form=form)
    return finish(rng, c, (n1 - 1) * (n2 - 1), len(pts))


def patch(rng):
    """cells over a lattice of squares: quads, pixels, triangles, convex / reflex / collinear-cornered polygons, both orientations"""
    n1, n2 = rng.randint(2, 5), rng.randint(2, 4)
    x, y = axes(rng, n1, 12), axes(rng, n2, 12)
    pid = lambda i, j: j * n1 + i + 1
    used, cells = set(), []
    sq = [(i, j) for j in range(n2 - 1) for i in range(n1 - 1)]
    rng.shuffle(sq)
    for i, j in sq:
        if (i, j) in used:
            continue
        k = rng.choice(["quad", "pixel", "tri", "poly", "poly", "L", "hex", "tripoly"])
        if k == "L":
            need = [(i, j), (i + 1, j), (i, j + 1)]
            if any(q in used or q[0] >= n1 - 1 or q[1] >= n2 - 1 for q in need):
                k = "poly"
            else:
                c = [pid(i, j), pid(i + 1, j), pid(i + 2, j), pid(i + 2, j + 1), pid(i + 1, j + 1), pid(i + 1, j + 2), pid(i, j + 2), pid(i, j + 1)]
                used.update(need)
                cells.append((POLY, c))
        if k == "hex":
            need = [(i, j), (i + 1, j)]
            if any(q in used or q[0] >= n1 - 1 for q in need):
                k = "quad"
            else:
                c = [pid(i, j), pid(i + 1, j), pid(i + 2, j), pid(i + 2, j + 1), pid(i + 1, j + 1), pid(i, j + 1)]
                used.update(need)
                cells.append((POLY, c))
        q = [pid(i, j), pid(i + 1, j), pid(i + 1, j + 1), pid(i, j + 1)]
        if k in ("quad", "poly"):
            cells.append((QUAD if k == "quad" else POLY, q))
        elif k == "pixel":
            cells.append((PIXEL, [q[0], q[1], q[3], q[2]]))
        elif k == "tri":
            cells += [(TRI, [q[0], q[1], q[2]]), (TRI, [q[0], q[2], q[3]])]
        elif k == "tripoly":
            cells += [(POLY, [q[0], q[1], q[3]]), (TRI, [q[1], q[2], q[3]])]
        used.add((i, j))
    out = []
    for t, c in cells:
        if t != PIXEL:
            r = rng.randrange(len(c))
            c = c[r:] + c[:r]
            if rng.random() < 0.4:
                c = c[::-1]
        out.append((t, c))
    rng.shuffle(out)
    return x, y, [c for _, c in out], [t for t, _ in out]


def g_unstr(rng):
    x, y, cells, types = patch(rng)
    ax = rng.choice([1, 2, 3])
    z0 = rng.randint(-40, 40) * U
    form = rng.choice(["unstr", "unstr", "poly"])
    if form == "poly" and any(t == PIXEL for t in types):
        form = "unstr"
    if form == "poly":   # polydata has no pixels and names cells by their size
        types = [{3: TRI, 4: QUAD}.get(len(c), POLY) for c in cells]
    pts = [perm(ax, [a, b, z0]) for b in y for a in x]
    b = tops(rng, pts, ax, True)
    if rng.random() < 0.15:
        off = rng.choice([100000, -100000]) * 10000
        pts, b = ([[v + off for v in p] for p in q] for q in (pts, b))
    c = dict(a=dict(kind="unstr", cells=cells, types=types, pts=pts), b=dict(kind="unstr", cells=cells, types=types, pts=b), form=form)
    return finish(rng, c, len(cells), len(pts))


def finish(rng, c, nc, npt):
    res = rand_res(rng, 4)
    if res["k"] == "list" and rng.random() < 0.3:
        res["v"].append(rng.choice(res["v"]))
    k = rng.choice([0, 1, 1, 3])
    c["a"]["ghost"] = [rng.random() < 0.2 for _ in range(nc)] if rng.random() < 0.15 else [False] * nc
    c["a"]["pd"] = [[7 * i + j for j in range(k)] for i in range(npt)] if k else []
    c["a"]["cd"] = [[100 + i, i * i][: max(1, k - 1)] for i in range(nc)] if k else []
    c.update(res=res, m=rand_method(rng, res))
    return c


def g_bad(rng):
    k = rng.choice(["size", "type", "dims", "ctype", "unsup", "dim1", "dim3", "method", "ctype2"])
    c = g_struct(rng)
    while c["form"] != "struct":
        c = g_struct(rng)
    u = g_unstr(rng)
    while u["form"] != "unstr":
        u = g_unstr(rng)
    if k == "size":
        d = c["a"]["dims"]
        ax = d.index(1)
        d2 = list(d)
        j = rng.choice([x for x in range(3) if x != ax])
        d2[j] += 1
        n = d2[0] * d2[1] * d2[2]
        c["b"] = dict(kind="struct", dims=d2, pts=[[i * U, i * i * U, U] for i in range(n)])
    elif k == "dims":
        d = c["a"]["dims"]
        o = [x for x in range(3) if d[x] > 1]
        d2 = list(d)
        i = d.index(1)
        d2[i], d2[o[0]] = d2[o[0]], 1
        c["b"] = dict(c["b"], dims=d2)
    elif k == "type":
        n = len(u["a"]["pts"])
        # same number of points, other kind of surface
        c = u
        c["b"] = dict(kind="struct", dims=[n // 2, 2, 1] if n % 2 == 0 else [n, 1, 1], pts=c["b"]["pts"])
        c["form"] = "mixed"
        return c
    elif k == "ctype":
        c = u
        i = rng.randrange(len(c["a"]["types"]))
        t = c["a"]["types"][i]
        if t not in (QUAD, POLY) or len(c["a"]["cells"][i]) != 4:
            return g_bad(rng)
        tb = list(c["b"]["types"])
        tb[i] = QUAD if t == POLY else POLY
        c["b"] = dict(c["b"], types=tb)
    elif k == "ctype2":
        c = u
        if len(c["a"]["cells"]) < 2:
            return g_bad(rng)
        c["b"] = dict(c["b"], types=c["b"]["types"][:-1], cells=c["b"]["cells"][:-1])
    elif k == "unsup":
        c = u
        t = rng.choice([(3, [1, 2]), (1, [1]), (4, [1, 2, 3])])
        for s in ("a", "b"):
            c[s] = dict(c[s], types=[*c[s]["types"], t[0]], cells=[*c[s]["cells"], t[1]])
        c["a"]["ghost"] = [*c["a"]["ghost"], False]
        c["a"]["cd"] = []
    elif k == "dim1":
        n = rng.randint(2, 5)
        d = rng.choice([[n, 1, 1], [1, n, 1], [1, 1, n]])
        c["a"] = dict(kind="struct", dims=d, pts=[[i * U, 0, 0] for i in range(n)], ghost=[False] * (n - 1), pd=[], cd=[])
        c["b"] = dict(kind="struct", dims=d, pts=[[i * U, U, 0] for i in range(n)])
    elif k == "dim3":
        d = [2, 2, 2]
        p = [[i * U, j * U, k * U] for k in range(2) for j in range(2) for i in range(2)]
        c["a"] = dict(kind="struct", dims=d, pts=p, ghost=[False], pd=[], cd=[])
        c["b"] = dict(kind="struct", dims=d, pts=[[x, y, z + 8 * U] for x, y, z in p])
    else:
        c["res"], c["m"] = dict(k="int", n=2), "cubic"
    return c


class S(Suite):
    trace = "Trace_Volume"

    def models(self, prop, tier):
        return [dict(module="MC_Volume", cfg="MC_Volume.cfg", name="vol")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = []
        for x in rng.sample(beh["vol"], min(len(beh["vol"]), 120 * n)):
            nc = 2 if x["a"]["kind"] == "struct" else len(x["a"]["cells"])
            x["a"].update(ghost=[False] * nc, pd=[[i] for i in range(6)], cd=[[10 * i] for i in range(nc)])
            out.append(dict(x, form=x["a"]["kind"]))
        out += [g_struct(rng) for _ in range(160 * n)]
        out += [g_unstr(rng) for _ in range(220 * n)]
        out += [g_bad(rng) for _ in range(50 * n)]
        for x in out:
            if rng.random() < 0.25:
                x["p2"] = rng.choice([-20, -10, 10, 17])
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, K, data_ints, cells_of, faces_of

        p2 = 2.0 ** c.get("p2", 0)

        def surf(s, form):
            p = np.array(s["pts"], float) / K * p2
            if s["kind"] == "struct":
                d = s["dims"]
                if form == "image":
                    sp = [(p[:, i].max() - p[:, i].min()) / (d[i] - 1) if d[i] > 1 else 1.0 for i in range(3)]
                    return pv.ImageData(dimensions=d, spacing=sp, origin=p.min(axis=0))
                if form == "rect":
                    return pv.RectilinearGrid(*[np.unique(p[:, i]) for i in range(3)])
                me = pv.StructuredGrid()
                me.points = p
                me.dimensions = d
                return me
            cells = [[i - 1 for i in x] for x in s["cells"]]
            if form == "poly":
                return pv.PolyData(p, faces=np.concatenate([[len(x), *x] for x in cells]))
            return pv.UnstructuredGrid(np.concatenate([[len(x), *x] for x in cells]), s["types"], p)
        a, b = surf(c["a"], c["form"]), surf(c["b"], c["form"])
        sq = lambda d: [x[0] for x in d] if len(d[0]) == 1 else d
        if c["a"]["pd"]:
            a.point_data["p"] = np.array(sq(c["a"]["pd"]))
        if c["a"]["cd"]:
            a.cell_data["q"] = np.array(sq(c["a"]["cd"]))
        if any(c["a"]["ghost"]):
            a.cell_data["vtkGhostType"] = np.array([32 if g else 0 for g in c["a"]["ghost"]], dtype=np.uint8)
        me, exc = attempt(lambda: pvg.Volume(a, b, real_res(c["res"]), real_m(c["m"])))
        e = dict(ev="volume", a=c["a"], b=c["b"], res=c["res"], m=c["m"], exc=exc, dims=[], pts=[], hid=[], pd=[], cd=[], cells=[], types=[], faces=[])
        if not exc:
            e.update(pts=scs(np.asarray(me.points, float) / p2), hid=[int(x) == 32 for x in me.cell_data["vtkGhostType"]])
            if c["a"]["pd"]:
                e["pd"] = data_ints(me.point_data["p"])
            if c["a"]["cd"]:
                e["cd"] = data_ints(me.cell_data["q"])
            if isinstance(me, pv.StructuredGrid):
                e["dims"] = list(me.dimensions)
            else:
                me.clear_cell_data()
                e["cells"], e["types"] = cells_of(me)
                e["faces"] = [faces_of(me, i) if t == 42 else [] for i, t in enumerate(e["types"])]
        return [e]


SUITE = S()
