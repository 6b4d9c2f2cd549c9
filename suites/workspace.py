"""C24: sessions of calls on shared objects; contents of every live object are observed after every call."""
import random, re
from harness.util import *
from suites.meshes import *


def fp(o, top=True):
    """token of the contents of anything"""
    import hashlib
    return hashlib.sha1(repr(look(o)).encode()).hexdigest()[:12]


def look(o):
    import numpy as np, pyvista as pv
    if isinstance(o, pv.DataSet):
        ud = str(o.field_data["_PYVISTA_USER_DICT"]) if "_PYVISTA_USER_DICT" in o.field_data else ""
        ud = "" if ud in ("", "{}", "['{}']", "None") else ud
        arr = lambda d: sorted((k, look(np.asarray(d[k]))) for k in d.keys() if not k.startswith("vtkOriginal") and k != "_PYVISTA_USER_DICT")
        shape = (o.dimensions if hasattr(o, "dimensions") else "")
        if isinstance(o, pv.UnstructuredGrid):
            topo = (look(o.GetCells() and np.asarray(o.cell_connectivity)), look(np.asarray(o.offset)), look(np.asarray(o.celltypes)), look(poly(o)))
        elif isinstance(o, pv.PolyData):
            topo = (look(np.asarray(o.faces)), look(np.asarray(o.lines)), look(np.asarray(o.verts)))
        else:
            topo = ""
        return (type(o).__name__, look(np.asarray(o.points)), shape, topo, arr(o.cell_data), arr(o.point_data), arr(o.field_data), ud)
    if isinstance(o, np.ndarray):
        if o.dtype.kind in "OU":
            return ("arr", o.dtype.str, [look(x) for x in o.tolist()])
        return ("arr", o.dtype.str, o.shape, np.ascontiguousarray(o).tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [look(x) for x in o])
    if isinstance(o, dict):
        return ("dict", [(repr(k), look(v)) for k, v in o.items()])
    if callable(o):
        return "function"
    if hasattr(o, "wkb"):
        return ("geometry", o.wkb)
    return repr(o)


def poly(o):
    from harness.proj import faces_of
    import numpy as np
    return [faces_of(o, i) for i in np.flatnonzero(np.asarray(o.celltypes) == PHED)]


def deco(rng, me):
    """groups and data"""
    import numpy as np
    n = me.n_cells
    if n and rng.random() < 0.7:
        me.cell_data["CellGroup"] = np.array([rng.randint(0, 2) for _ in range(n)])
        me.user_dict["CellGroup"] = {"a": 0, "b": 1, "c": 2}
    if n and rng.random() < 0.5:
        me.cell_data["q"] = np.array([rng.randint(0, 9) / 4 for _ in range(n)])
    if me.n_points and rng.random() < 0.5:
        me.point_data["w"] = np.array([[rng.randint(0, 9) / 4, 1.0] for _ in range(me.n_points)])
    return me


def grid2(rng, nx, ny, kind, ax=2, at=(0, 0), dz=0.0):
    """a plane mesh of nx x ny cells, one unit each, normal to ax"""
    import numpy as np, pyvista as pv
    P = np.array([[at[0] + i, at[1] + j] for j in range(ny + 1) for i in range(nx + 1)], float)
    P = np.insert(P, ax, dz, axis=1)
    if kind == "struct":
        g = pv.StructuredGrid()
        g.points = P
        d = [nx + 1, ny + 1]
        d.insert(ax, 1)
        g.dimensions = d
        return g
    pid = lambda i, j: i + (nx + 1) * j
    C = [[pid(i, j), pid(i + 1, j), pid(i + 1, j + 1), pid(i, j + 1)] for j in range(ny) for i in range(nx)]
    if kind == "tris":
        C = [t for c in C for t in ([c[:3], [c[0], c[2], c[3]]] if rng.random() < 0.5 else [c])]
    flat = [v for c in C for v in (len(c), *c)]
    if kind == "poly":
        return pv.PolyData(P, faces=flat)
    return pv.UnstructuredGrid(flat, [{3: 5, 4: 9}[len(c)] for c in C], P)


def line(rng, k, closed=False):
    import numpy as np, pyvista as pv
    P = [[0, 0, 0]]
    for _ in range(k):
        P.append([P[-1][0] + rng.randint(1, 3), P[-1][1] + rng.randint(-2, 2), P[-1][2] + rng.choice([0, 0, 1])])
    P = np.array(P, float) * 0.5
    if closed:
        P = np.array([[np.cos(t), np.sin(t), 0.0] for t in np.arange(k + 2) * 6.2831853 / (k + 2)]) * 2 + 3
        ids = [*range(len(P)), 0]
        return pv.PolyData(P, lines=[len(ids), *ids])
    if rng.random() < 0.5:
        return pv.PolyData(P, lines=[len(P), *range(len(P))])
    return pv.PolyData(P, lines=[v for i in range(len(P) - 1) for v in (2, i, i + 1)])


class S(Suite):
    trace = "Trace_Workspace"

    def models(self, prop, tier):
        return [dict(module="MC_Workspace", cfg="MC_Workspace.cfg", name="ws")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 10
        B = beh["ws"]
        near, far = [x["h"] for x in B if not x["apart"]], [x["h"] for x in B if x["apart"]]
        out = [dict(kind="calls", seed=rng.randrange(1 << 30), h=[]) for _ in range(400 * n)]
        for kind in ("merge", "extrude", "stack2", "stack3", "voronoi"):
            for h in rng.sample(near, min(len(near), 50 * n)) + rng.sample(far, min(len(far), 40 * n)):
                out.append(dict(kind=kind, seed=rng.randrange(1 << 30), h=h))
        again = [h for h in near + far if re.match("a+ga+g", "".join(x[0][0] for x in h if x[0] in ("add", "gen"))) and [x[0] for x in h[:2]] == ["add", "add"]]
        for kind in ("stack2", "stack3"):
            for h in rng.sample(again, min(len(again), 40 * n)):
                out.append(dict(kind=kind, seed=rng.randrange(1 << 30), h=h, cross=1))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv
        rng = random.Random(c["seed"])
        W = Session()
        return (self.calls if c["kind"] == "calls" else self.builder)(c, rng, W)

    # ---- functions
    def calls(self, c, rng, W):
        import numpy as np, pyvista as pv, pvgridder as pvg
        arr = lambda *v: np.array(v)
        M = []
        for _ in range(rng.randint(2, 3)):
            r = rng.random()
            me = make(m2d(rng) if r < 0.25 else m3d(rng) if r < 0.45 else mstruct(rng) if r < 0.7 else m1d(rng)) if r < 0.75 else line(rng, rng.randint(2, 5), rng.random() < 0.3) if r < 0.87 else grid2(rng, 2, 3, rng.choice(["tris", "poly", "poly", "struct"]))
            M.append(W.new(deco(rng, me)))
        for _ in range(rng.randint(7, 12)):
            if rng.random() < 0.35 and W.log:
                W.again(rng)
                continue
            h = rng.choice(M)
            me = W.obj[h]
            n = me.n_cells
            r = rng.random
            if n == 0:
                continue
            name, f, args, keep, target = self.pick(rng, W, M, h, me, n)
            args = [a if isinstance(a, str) else W.new(a) for a in args]
            res = W.call(name, f, args, target and args[0])
            if keep and res and isinstance(W.obj[res], pv.DataSet):
                M.append(res)
        return W.ev

    def pick(self, rng, W, M, h, me, n):
        import numpy as np, pyvista as pv, pvgridder as pvg
        r = rng.random
        ind = sorted(rng.sample(range(n), rng.randint(1, n))) if r() < 0.9 else [n + 3]
        ind = rng.choice([lambda: ind, lambda: np.array(ind), lambda: [i in ind for i in range(n)], lambda: np.array([i in ind for i in range(n)])])()
        g = lambda o: W.new(o)
        b = lambda: r() < 0.5
        ops = []

        def op(name, f, *args, keep=False, target=""):
            ops.append((name, f, args, keep, target))
        inv, rg, fl, cl = b(), b(), b(), b()
        op("extract_cells%s" % inv, lambda m, i: pvg.extract_cells(m, i, invert=inv), h, ind, keep=True)
        nd, me_, ke = rng.choice([None, 0, 1, 2, 3]), rng.choice(["upper", "lower", "bad"]), b()
        op("dim%s%s%s" % (nd, me_, ke), lambda m: pvg.extract_cells_by_dimension(m, nd, me_, ke), h, keep=True)
        op("geometry%s" % rg, lambda m: pvg.extract_cell_geometry(m, rg), h)
        op("boundary%s%s" % (fl, rg), lambda m: pvg.extract_boundary_polygons(m, fill=fl, with_holes=rg), h)
        op("fuse", lambda m, i: pvg.fuse_cells(m, i), h, ind)
        op("fuse2", lambda m, i: pvg.fuse_cells(m, i), h, [[0], [1, min(2, n - 1)]])
        pm = rng.choice([None, "box", "geometric", "tetra"])
        op("centers%s" % pm, lambda m: pvg.get_cell_centers(m, pm), h)
        op("conn%s" % fl, lambda m: pvg.get_cell_connectivity(m, fl), h)
        op("group", lambda m: pvg.get_cell_group(m), h)
        cen = np.array([[rng.randint(0, 9) / 2 for _ in range(3)] for _ in range(n)])
        op("connectivity%s" % rg, lambda m, x: pvg.get_connectivity(m, x, rg), h, cen if b() else None)
        op("neigh%s" % rg, lambda m: pvg.get_neighborhood(m, rg), h)
        op("dimension", lambda m: pvg.get_dimension(m), h)
        op("quadratic", lambda m: pvg.quadraticize(m), h)
        mp = rng.choice([{"b": 7, "a": 3, "c": 1}, {"a": 1, "b": 0, "c": 2}, {0: 4, 1: 2, 2: 0}, {"zz": 1}])
        op("remap", lambda m, d: pvg.remap_categorical_data(m, "CellGroup", d), h, mp, keep=True)
        op("remapin", lambda m, d: pvg.remap_categorical_data(m, "CellGroup", d, inplace=True), me.copy(deep=True), mp, target="first")
        pa, pb = [-3.0, 1.3, 0.4], [20.0, 2.1, 0.7]
        op("ray", lambda m, x, y: pvg.ray_cast(m, x, y), h, rng.choice([pa, np.array(pa)]), pb)
        op("merge", lambda *m: pvg.merge(m), h, rng.choice(M))
        op("merge0", lambda *m: pvg.merge(m, 0, False), h, rng.choice(M))
        op("merge1", lambda *m: pvg.merge(list(m)), h)
        if isinstance(me, pv.PolyData) and me.n_lines:
            x = rng.choice(M)
            ig = b()
            op("intersect%s" % ig, lambda m, l: pvg.intersect_polyline(m, l, ignore_points_before_entry=ig), x, h)
            op("rdp", lambda m: pvg.decimate_rdp(m, 0.3), h)
            op("reconstruct", lambda m: pvg.reconstruct_line(m), h)
            op("split%s" % fl, lambda m: pvg.split_lines(m, fl), h)
            op("mlines%s" % fl, lambda *m: pvg.merge_lines(m, fl), h, *[q for q in M if isinstance(W.obj[q], pv.PolyData) and W.obj[q].n_lines][:2])
            op("surface", lambda p, q: pvg.StructuredSurface(p, q, "xy", 2), h, np.asarray(W.obj[h].points) + [0, 2, 0])
        if isinstance(me, pv.PolyData):
            op("average", lambda m: pvg.average_points(m, 0.6), h)
            op("offset", lambda m: pvg.offset_polygon(m, 0.1), h)
            op("offset0", lambda m: pvg.offset_polygon(m, 0.0), h)
        if n > 1 and pvg.get_dimension(me) == 2:
            up = me.copy()
            try:
                up.points = np.asarray(up.points) + [0, 0, 5.0]
                op("volume", lambda p, q, z: pvg.Volume(p, q, z), h, up, rng.choice([2, [0.0, 0.3, 1.0], np.array([0.0, 0.5, 1.0])]))
            except Exception:
                pass
        pts = np.array([[0, 0, 0], [1, 0, 0], [2, 1.5, 0], [2, 3, 1.0]])
        loop = np.array([[0, 0], [4, 0], [4, 3], [0, 3.0]])
        hole = [np.array([[1, 1], [2, 1], [2, 2], [1, 2.0]])]
        seq = lambda x: rng.choice([x, x.tolist()])
        op("regular", lambda p: pvg.RegularLine(p, 4), seq(pts))
        op("rline%s" % cl, lambda p: pvg.reconstruct_line(p, close=cl), seq(pts))
        op("offarr", lambda p: pvg.offset_polygon(p, 0.25), seq(np.insert(loop, 2, 0, axis=1)))
        op("polygon", lambda p, q: pvg.Polygon(p, q), seq(loop), rng.choice([None, hole]))
        op("polytri", lambda p, q: pvg.Polygon(p, q, celltype="triangle", cellsize=2.0), seq(loop), hole)
        op("surf", lambda p, q, z: pvg.StructuredSurface(p, q, resolution=z), seq(pts), seq(pts + [0, 2, 0]), rng.choice([3, [0.0, 0.7, 1.0]]))
        op("quad", lambda p, z: pvg.Quadrilateral(p, z, 2), seq(loop), rng.choice([None, 2, [0.0, 0.7, 1.0]]))
        ctr = rng.choice([None, [1.0, 2.0, 0.5], np.array([1.0, 2.0, 3.0])])
        res = rng.choice([3, [0.0, 0.2, 1.0], np.array([0.0, 0.25, 1.0])])
        for nm in ("Annulus", "AnnularSector", "CylindricalShell", "CylindricalShellSector"):
            op(nm, lambda z, q, f=getattr(pvg, nm): f(0.5, 1.0, r_resolution=z, theta_resolution=4, center=q), res, ctr)
        for nm in ("Circle", "Sector", "Square"):
            op(nm, lambda z, q, f=getattr(pvg, nm): f(1.0, resolution=z, center=q), res, ctr)
        for nm in ("RectangleSector", "SquareSector", "SectorRectangle", "SectorSquare"):
            op(nm, lambda z, q, f=getattr(pvg, nm): f(center=q, **({"r_resolution": z} if nm[0:6] == "Sector" else {"x_resolution": z})), res, ctr)
        op("Rectangle", lambda z, q: pvg.Rectangle(1.0, 2.0, z, 2, center=q), res, ctr)
        op("curved", lambda o, s: pvg.CurvedLine(o, 5.0, s, resolution=4), ctr if ctr is not None else [0.0, 0, 0], [0.0, 1.0, 1.0])
        return rng.choice(ops[:-14] if r() < 0.8 else ops)

    # ---- builders
    def builder(self, c, rng, W):
        import numpy as np, pyvista as pv, pvgridder as pvg
        kind = c["kind"]
        ax = rng.choice([0, 1, 2])
        nx, ny = rng.randint(2, 3), rng.randint(2, 3)
        pk = rng.choice(["struct", "tris", "quads"] if kind != "voronoi" else ["struct", "tris", "poly"])
        ign, dfl = rng.choice([[], ["a"]]), rng.choice([None, "base"])
        kw = dict(default_group=dfl)

        def flag(me):
            if rng.random() < 0.3:
                me.cell_data["vtkGhostType"] = np.array([rng.choice([0, 0, 32]) for _ in range(me.n_cells)], np.uint8)
            return me
        gens = []
        names = lambda n: rng.choice([None, "g%d" % rng.randint(0, 2)])

        def group(n):
            r = rng.random() * (0.7 if n < 2 else 1)
            if r < 0.4:
                return None
            if r < 0.7:
                return "g"
            return {"h": np.array([i % 2 == 0 for i in range(n)]), "k": [0]} if r < 0.85 else {"~h": [0], "k": lambda m: np.arange(m.n_cells) > 1}

        if kind == "merge":
            base, mk = [], lambda ig: pvg.MeshMerge(ignore_groups=ig, **kw)
            obj = lambda i: flag(deco(rng, grid2(rng, nx, ny, rng.choice(["struct", "tris", "quads"]), 2, (i * nx, 0)) if rng.random() < 0.7 else make(m3d(rng))))
            add = lambda b, x, p: b.add(x, group=p["name"])
        elif kind == "extrude":
            base, mk = [flag(deco(rng, grid2(rng, nx, ny, pk, ax)))], lambda me, ig: pvg.MeshExtrude(me, ignore_groups=ig, scale=sc, angle=an, **kw)
            sc, an = rng.choice([None, 0.5]), rng.choice([None, 30.0])
            obj = lambda i: np.array([0.0, 0.0, 0.0]) + np.eye(3)[ax] * (1.5 + i)
            add = lambda b, x, p: b.add(x, resolution=p["res"], group=p["group"])
        elif kind in ("stack2", "stack3"):
            cls = pvg.MeshStack2D if kind == "stack2" else pvg.MeshStack3D
            bu = rng.random() < 0.7
            if kind == "stack2":
                bm = line(rng, 3)
                bm.points[:, 1] = 0
                bm.points[:, 2] = 0
                ax = 1
                bm = pv.PolyData(np.asarray(bm.points), lines=[bm.n_points, *range(bm.n_points)])
            else:
                bm = flag(deco(rng, grid2(rng, nx, ny, pk, ax)))
            base, mk = [bm], lambda me, ig: cls(me, axis=ax, bottom_up=bu, ignore_groups=ig, **kw)

            st = 0.25 if c.get("cross") else rng.choice([0.5, 2.0])

            def obj(i):
                """a surface, as a mesh or an array of points, or a height"""
                if rng.random() < 0.25 and not c.get("cross"):
                    return rng.choice([0.5, 1, -1.25])
                if kind == "stack2":
                    P = np.array([[x, 0.0, 0.0] for x in range(-1, 9)], float)
                else:
                    P = np.asarray(grid2(rng, nx + 2, ny + 2, "struct", ax, (-1, -1)).points).copy()
                P[:, ax] = (1 if bu else -1) * np.array([st * i + rng.randint(0, 5) / 4 for _ in P])
                return P if rng.random() < 0.4 else pv.PolyData(P) if kind == "stack2" or rng.random() < 0.5 else pv.PolyData(P).cast_to_unstructured_grid()
            add = lambda b, x, p: b.add(x, resolution=p["res"], group=p["group"], priority=p["prio"], extrapolation="nearest")
        else:
            ax = rng.choice([0, 1, 2])
            base, mk = [deco(rng, grid2(rng, nx + 1, ny + 1, pk, ax, dz=rng.choice([0.0, 1.5])))], lambda me, ig: pvg.VoronoiMesh2D(me, axis=ax, ignore_groups=ig, **kw)

            def obj(i):
                r = rng.random()
                if r < 0.3:
                    return np.insert(np.array([[0.3 + i, 0.2], [1.2, 0.8 + i]]), ax, 2.5, axis=1)
                if r < 0.6:
                    return deco(rng, grid2(rng, 1, 2, rng.choice(["tris", "quads", "struct"]), ax, (0.3 + 0.2 * i, 0.15), dz=rng.choice([0.0, 3.5])))
                if r < 0.8:
                    return np.insert(np.array([1.35 + i * 0.3, 1.4]), ax, 0.7)            # center of a circle
                return pv.PolyData(np.insert(np.array([[0.4, 0.5 + 0.3 * i], [1.1, 0.6], [1.9, 0.8]]), ax, 0.7, axis=1), lines=[3, 0, 1, 2])

            def add(b, x, p):
                if isinstance(x, np.ndarray) and x.ndim == 1:
                    return b.add_circle(0.45, resolution=6, center=x, plain=p["plain"], priority=p["prio"], group=p["name"])
                if isinstance(x, pv.PolyData) and x.n_lines:
                    return b.add_polyline(x, 0.2, priority=p["prio"], group=p["name"])
                return b.add(x, priority=p["prio"], group=p["name"])
        H = {k: W.new(obj(i)) for i, k in enumerate("xy")}
        # the items to be added, and which object is edited, are what the history says; a builder is made of the base
        bh = [W.new(x) for x in base]
        ig = W.new(ign)
        W.build("B", kind + str((ax, nx, ny, dfl)), lambda: mk(*[W.obj[x] for x in bh], W.obj[ig]), [*bh, ig])
        bh0 = [W.new(W.copy(x)) for x in bh]
        given, ngen = [], 0

        def give(b, k, p, x):
            args = [x]
            q = dict(p)
            for nm in ("res", "group"):
                if isinstance(p[nm], (list, dict, np.ndarray)):
                    args.append(p["h" + nm])
                    q[nm] = W.obj[p["h" + nm]]
            W.add(b, "add%s%s%s%s" % (p["name"], p["prio"], p["plain"], [p[nm] if not isinstance(p[nm], (list, dict, np.ndarray)) else "" for nm in ("res", "group")]), lambda: add(W.bld[b], W.obj[x], q), args)
        ncell = base[0].n_cells if base else 1
        need = {"merge": 1, "extrude": 1, "stack2": 2, "stack3": 2, "voronoi": 0}[kind]
        gop = {} if kind == "stack2" else rng.choice([{}, {"tolerance": 1e-6}])
        for st in c["h"]:
            if st[0] == "add":
                p = dict(res=rng.choice([None, 2, [0.0, 0.25, 1.0], np.array([0.0, 0.5, 1.0])]), group=group(ncell), prio=rng.choice([0, 1]) if not c.get("cross") else int(not given), name=rng.choice([None, "n1", "n2"]), plain=False)
                for nm in ("res", "group"):
                    if isinstance(p[nm], (list, dict, np.ndarray)):
                        p["h" + nm] = W.new(p[nm])
                x = H[st[1]]
                if kind in ("stack2", "stack3") and rng.random() < (0.6 if gens else 0 if c.get("cross") else 0.2):
                    x = W.new(rng.choice([0.5, 1, -1.25]))
                x0 = W.new(W.copy(x))
                give("B", st[1], p, x)
                given.append((st[1], p, x0))
            elif st[0] == "gen":
                if len(given) < need:
                    continue
                W.gen("B", str(gop), lambda: W.bld["B"].generate_mesh(**gop))
                gens.append(W.last)
            elif st[0] == "edit":
                x = H[st[1]] if st[1] == "x" or not bh or rng.random() < 0.4 else bh[0]
                W.edit(x, ax, rng)
            elif gens and gens[-1]:
                W.edit(gens[-1], ax, rng, spoil=True)
        if len(given) >= need and len(given) < 4:
            W.build("C", kind + str((ax, nx, ny, dfl)), lambda: mk(*[W.obj[x] for x in bh0], W.obj[ig]), [*bh0, ig])
            for k, p, x0 in given:
                give("C", k, p, x0)
            W.gen("C", str(gop), lambda: W.bld["C"].generate_mesh(**gop))
        return W.ev


class Session:
    """live objects, and the log of what happened to them"""
    def __init__(self):
        self.obj, self.bld, self.ev, self.log, self.n, self.last = {}, {}, [dict(ev="begin", all=[])], [], 0, ""

    def all(self):
        return [[h, fp(o)] for h, o in self.obj.items()]

    def put(self, o):
        self.n += 1
        self.obj["h%d" % self.n] = o
        return "h%d" % self.n

    def new(self, o):
        h = self.put(o)
        self.ev.append(dict(ev="new", h=h, fp=fp(o), all=self.all()))
        return h

    def copy(self, h):
        import copy, pyvista as pv
        o = self.obj[h]
        return o.copy(deep=True) if isinstance(o, pv.DataSet) else copy.deepcopy(o)

    def call(self, name, f, args, target=""):
        from harness.proj import attempt
        r, exc = attempt(lambda: f(*[self.obj[a] for a in args]))
        if target:
            res, v = "", fp(self.obj[target]) + exc
            self.ev.append(dict(ev="call", op=name, args=args, res="", target=target, same=[], fp=v, all=self.all()))
            return ""
        same = [] if name == "merge1" else [h for h, o in self.obj.items() if not exc and o is r and hasattr(o, "shape" if not hasattr(o, "n_cells") else "n_cells") or isinstance(r, (list, tuple)) and any(o is x for x in r) and hasattr(o, "n_cells")]
        res = "" if exc else self.put(r)
        self.ev.append(dict(ev="call", op=name, args=args, res=res, target="", same=same, fp="!" + exc if exc else fp(r), all=self.all()))
        self.log.append((name, f, args))
        return res

    def again(self, rng):
        name, f, args = rng.choice(self.log)
        self.call(name, f, args)

    def build(self, b, name, f, args):
        from harness.proj import attempt
        self.bld[b], exc = attempt(f)
        self.ev.append(dict(ev="build", b=b, op=name, args=args, exc=exc, all=self.all()))

    def add(self, b, name, f, args):
        from harness.proj import attempt
        _, exc = attempt(f)
        self.ev.append(dict(ev="add", b=b, op=name, args=args, exc=exc, all=self.all()))

    def gen(self, b, name, f):
        from harness.proj import attempt
        r, exc = attempt(f)
        self.last = "" if exc else self.put(r)
        self.ev.append(dict(ev="gen", b=b, op=name, res=self.last, fp="!" + exc if exc else fp(r), exc=exc, all=self.all()))

    def edit(self, h, ax, rng, spoil=False):
        import numpy as np, pyvista as pv
        o = self.obj[h]
        if isinstance(o, pv.DataSet):
            o.points[:, ax] += 0.5
            if spoil or rng.random() < 0.5:
                o.points[:, (ax + 1) % 3] -= 0.75
            for k in o.cell_data.keys():
                o.cell_data[k][:] = 0
            if spoil and "CellGroup" in o.user_dict:
                o.user_dict["CellGroup"] = {"spoilt": 0}
        elif isinstance(o, np.ndarray):
            o += 0.25
        self.ev.append(dict(ev="edit", h=h, fp=fp(o), all=self.all()))


SUITE = S()
