"""C17, C18: boundary polygons and fused cells."""
from harness.util import *
from suites.meshes import *
from suites.selection import finger


def region(rng, w, h, keep, kinds=("quad", "pixel", "tri", "poly"), gap=6):
    """mesh over the given squares (1-based) of a w x h board"""
    ax = rng.choice([1, 2, 3])
    x, y = axes(rng, w + 1, gap), axes(rng, h + 1, gap)
    z = rng.randint(-20, 20) * U
    pid = lambda i, j: i + (w + 1) * j + 1
    pts = [perm(ax, [a, b, z]) for b in y for a in x]
    cells = []
    order = sorted(keep)
    if rng.random() < 0.3:
        rng.shuffle(order)
    sq = []
    for i, j in order:
        i, j = i - 1, j - 1
        q = [pid(i, j), pid(i + 1, j), pid(i + 1, j + 1), pid(i, j + 1)]
        k = rng.choice(kinds)
        flip = rng.random() < 0.3
        if k == "quad":
            cells.append(cell(QUAD, q[::-1] if flip else q))
        elif k == "pixel":
            cells.append(cell(PIXEL, [q[0], q[1], q[3], q[2]]))
        elif k == "poly":
            cells.append(cell(POLY, q[::-1] if flip else q))
        else:
            a, b = ([q[0], q[1], q[2]], [q[0], q[2], q[3]]) if rng.random() < 0.5 else ([q[0], q[1], q[3]], [q[1], q[2], q[3]])
            cells += [cell(TRI, a[::-1] if flip else a), cell(TRI, b)]
        sq.append(((x[i + 1] - x[i]) // U) * ((y[j + 1] - y[j]) // U))
    ab = {1: [2, 3], 2: [1, 3], 3: [1, 2]}[ax]
    m = dict(form="unstr", pts=pts, cells=cells, dims=[], hid=[False] * len(cells), flag=False, off=rng.choice([0, 0, 0, 5000000]))
    if rng.random() < 0.2 and all(c["type"] in (TRI, QUAD) for c in cells):
        m["form"] = "poly"
    if rng.random() < 0.2:      # every cell with its own copy of its points
        P, C = [], []
        for c in cells:
            n = len(P)
            P += [list(pts[v - 1]) for v in c["ids"]]
            C.append(cell(c["type"], range(n + 1, n + 1 + len(c["ids"]))))
        m["pts"], m["cells"] = P, C
    return m, ab, sq


def rregion(rng):
    w, h = rng.randint(2, 5), rng.randint(2, 5)
    p = rng.choice([0.5, 0.75, 0.9])
    keep = [(i, j) for i in range(1, w + 1) for j in range(1, h + 1) if rng.random() < p] or [(1, 1)]
    return w, h, keep


NEST = [(i, j) for i in range(1, 6) for j in range(1, 6) if i in (1, 5) or j in (1, 5)] + [(3, 3)]
NEST7 = [(i, j) for i in range(1, 8) for j in range(1, 8) if max(abs(i - 4), abs(j - 4)) != 2 and (max(abs(i - 4), abs(j - 4)) != 0)]


def holed(rng):
    """a full board with several isolated holes"""
    w, h = rng.choice([(7, 3), (7, 5), (5, 5), (9, 3), (7, 7)])
    holes = [(i, j) for i in range(2, w, 2) for j in range(2, h, 2)]
    holes = rng.sample(holes, rng.randint(3, len(holes)))
    return w, h, [(i, j) for i in range(1, w + 1) for j in range(1, h + 1) if (i, j) not in holes]


def pinched(keep):
    """two squares of the region, or of its complement, meet at a corner only"""
    k = set(map(tuple, keep))
    return any(((i, j) in k) == ((i + 1, j + 1) in k) != (((i + 1, j) in k)) and (((i + 1, j) in k) == ((i, j + 1) in k)) for i in range(0, 9) for j in range(0, 9))


def bcase(rng, w, h, keep, gmsh=False):
    gmsh = gmsh and not pinched(keep)
    m, ab, sq = region(rng, w, h, [tuple(k) for k in keep])
    if gmsh:
        m["off"] = 0
    return dict(k="bnd", m=m, ab=ab, sq=sq, gmsh=gmsh)


def fcase(rng, w, h, keep):
    """fuse part of a full board"""
    m, ab, sq = region(rng, w, h, [(i, j) for j in range(1, h + 1) for i in range(1, w + 1)])
    # cells of the squares to fuse
    xs = sorted({p[ab[0] - 1] for p in m["pts"]})
    ys = sorted({p[ab[1] - 1] for p in m["pts"]})

    def square(c):
        P = [m["pts"][v - 1] for v in c["ids"]]
        return (xs.index(min(p[ab[0] - 1] for p in P)) + 1, ys.index(min(p[ab[1] - 1] for p in P)) + 1)
    keep = [tuple(k) for k in keep]
    s = [i for i, c in enumerate(m["cells"]) if square(c) in keep]
    rest = [i for i in range(len(m["cells"])) if i not in s]
    if rng.random() < 0.5:
        rng.shuffle(s)
    sets = [s]
    if rest and rng.random() < 0.4:
        sets.append([rng.choice(rest)])
        if rng.random() < 0.5:
            sets.reverse()
    if rng.random() < 0.3:
        m["hid"] = [i in rest and rng.random() < 0.3 for i in range(len(m["cells"]))]
        for t in sets:
            for i in t:
                m["hid"][i] = False
        m["flag"] = any(m["hid"])
    m["off"] = 0 if m["form"] == "poly" else m["off"]
    return dict(k="fuse", m=m, sets=sets, mask=rng.random() < 0.3, d3=False)


class S(Suite):
    trace = "Trace_Boundary"

    def models(self, prop, tier):
        return [dict(module="MC_Boundary", cfg="MC_Boundary.cfg" if tier == "quick" else "MC_Boundary4.cfg", name="bnd")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 8
        out = []
        B = beh["bnd"]
        f = (lambda w, h, k: bcase(rng, w, h, k, rng.random() < 0.15)) if prop == "C18" else (lambda w, h, k: fcase(rng, w, h, k))
        for x in (B if len(B) <= 600 and prop == "C17" else rng.sample(B, min(len(B), 220 * n))):
            out.append(f(x["w"], x["h"], x["reg"]))
        for _ in range((120 if prop == "C18" else 150) * n):
            out.append(f(*rregion(rng)))
        for _ in range(6 * n):
            out += [f(5, 5, NEST), f(7, 7, NEST7)]
        if prop == "C18":
            for _ in range(15 * n):
                out.append(f(*holed(rng)))
            k = rng.randint(505, 520)      # a long boundary
            out.append(bcase(rng, k, 1, [(i, 1) for i in range(1, k + 1)]))
            out += [dict(k="none", kind=k) for k in ("cube", "sphere", "tet")]
            for _ in range(20 * n):
                m, ab, sq = region(rng, *rregion(rng))
                out.append(dict(k="lines", m=dict(m, form="unstr", off=0), ab=ab, sq=sq, seed=rng.randint(0, 10 ** 6)))
        else:
            for _ in range(5):
                m = m3d(rng, empty=False)
                out.append(dict(k="fuse", m=dict(m, hid=[False] * len(m["cells"]), flag=False, off=0), sets=[[0, min(1, len(m["cells"]) - 1)] if len(m["cells"]) > 1 else [0]], mask=False, d3=True))
        rescale(rng, [c["m"] for c in out if c["k"] != "none"])
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, sc, ints
        if c["k"] == "none":
            me = {"cube": lambda: pv.Cube().clean(), "sphere": lambda: pv.Sphere(theta_resolution=6, phi_resolution=6), "tet": lambda: pv.Tetrahedron()}[c["kind"]]()
            r, exc = attempt(lambda: pvg.extract_boundary_polygons(me))
            return [dict(ev="none", exc=exc, none=r is None)]
        me = make(c["m"])
        off, p2 = c["m"].get("off", 0), 2.0 ** c["m"].get("p2", 0)
        P = lambda a: scs((np.asarray(a, float) - off) / p2)

        def proj(x):
            y = x.copy()
            y.points = (np.asarray(x.points, float) - off) / p2
            return project(y)

        def loop(po):
            ids = po.lines.tolist()
            assert po.n_lines == 1 and ids[0] == len(ids) - 1
            return P(po.points[ids[1:]])
        if c["k"] == "fuse":
            me.cell_data["val"] = np.arange(me.n_cells) * 3 + 1
            me.cell_data["CellGroup"] = np.arange(me.n_cells) % 2
            me.user_dict["CellGroup"] = {"a": 0, "b": 1}
            key = {}
            pd = [key.setdefault(tuple(p), len(key)) for p in c["m"]["pts"]]
            me.point_data["pval"] = np.array(pd) if len(pd) == me.n_points else np.arange(me.n_points)
            sets = [list(s) for s in c["sets"]]
            if c["mask"]:
                arg = [np.isin(np.arange(me.n_cells), s) for s in sets]
                sets = [sorted(s) for s in sets]
            else:
                arg = sets
            arg = arg[0] if len(arg) == 1 else arg
            f0, m = finger(me), proj(me)
            po, exc = attempt(lambda: pvg.fuse_cells(me, arg))
            e = dict(ev="fuse", m=m, sets=sets, d3=c["d3"], exc=exc, same=finger(me) == f0, cd=ints(me.cell_data["val"]), pd=ints(me.point_data["pval"]), out=dict(pts=[], cells=[], hid=[]), ocd=[], opd=[], table=["a0", "b1"], otable=[])
            if not exc:
                e["out"] = proj(po)
                e["ocd"], e["opd"] = ints(po.cell_data["val"]), ints(po.point_data["pval"])
                e["otable"] = sorted(k + str(v) for k, v in dict(po.user_dict.get("CellGroup", {})).items())
            return [e]
        m = proj(me)
        if c["k"] == "lines":      # the boundary given as loose segments
            rng = np.random.default_rng(c["seed"])
            edges = me.clean().extract_feature_edges(boundary_edges=True, non_manifold_edges=False, feature_edges=False, manifold_edges=False, clear_data=True)
            seg = edges.lines.reshape((-1, 3))[:, 1:]
            seg = rng.permuted(seg[rng.permutation(len(seg))], axis=1)
            me = pv.PolyData(np.asarray(edges.points, float), lines=np.insert(seg, 0, 2, axis=1).ravel())
        a, b = c["ab"]
        base = dict(m=m, a=a, b=b)
        out = []
        r, exc = attempt(lambda: pvg.extract_boundary_polygons(me))
        out.append(dict(base, ev="loops", exc=exc, loops=[] if exc else [loop(x) for x in (r or [])]))
        r, exc = attempt(lambda: pvg.extract_boundary_polygons(me, with_holes=True))
        out.append(dict(base, ev="groups", exc=exc, groups=[] if exc else [[loop(x) for x in y] for y in (r or [])]))
        r, exc = attempt(lambda: pvg.extract_boundary_polygons(me, fill=True))
        k2 = (10000 / U) ** 2 * 1000 / p2 ** 2

        def ar(x):
            tot = 0.0
            for q in x.cell:
                p = q.points[:, [a - 1, b - 1]] - q.points[0, [a - 1, b - 1]]
                r2 = np.roll(p, -1, axis=0)
                tot += 0.5 * abs(float((p[:, 0] * r2[:, 1] - r2[:, 0] * p[:, 1]).sum()))
            return sc(tot, k2)

        def face(x):
            f = x.faces
            ids = f[1:1 + f[0]]
            assert x.n_faces_strict == 1
            return P(np.vstack([x.points[ids], x.points[ids[:1]]]))
        out.append(dict(base, ev="fill", exc=exc, loops=[] if exc else [face(x) for x in (r or [])]))
        if c.get("gmsh"):
            r, exc = attempt(lambda: pvg.extract_boundary_polygons(me, fill=True, with_holes=True))
            out.append(dict(base, ev="fillh", exc=exc, sq=c["sq"], area=[] if exc else [ar(x) for x in (r or [])]))
        return out


SUITE = S()
