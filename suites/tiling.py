"""C04: polygons meshed (or not) with gmsh."""
from harness.util import *
from suites.meshes import perm
from suites.polyoff import star

Z = 500          # units per lattice step


def forms(rng, p):
    return rng.choice(["list", "tuple", "arr3", "int", "closed", "closed3", "face", "grid", "fan", "line", "lineclosed", "linerep"])


def region(rng, fine=False):
    """shell, holes strictly inside and apart"""
    from shapely.geometry import Polygon
    while True:
        sh = star(rng, rng.choice([4, 5, 6]) if fine else rng.choice([6, 9, 12, 14]))
        S = Polygon(sh)
        holes = []
        for _ in range(rng.choice([0, 1, 1, 2] if fine else [0, 0, 1, 1, 2, 3, 4, 5])):
            for _ in range(30):
                h = star(rng, rng.choice([1, 1, 2] if fine else [1, 2, 3]))
                a, b, w = rng.choice(sh), rng.choice(sh), rng.random()
                x, y = [round(a[i] * w + b[i] * (1 - w)) for i in (0, 1)]
                h = [[v[0] + x - h[0][0], v[1] + y - h[0][1]] for v in h]
                H = Polygon(h)
                if S.buffer(-0.8 if fine else -0.4).contains(H) and all(Polygon(o).distance(H) > (0.8 if fine else 0.4) for o in holes):
                    holes.append(h)
                    break
        return sh, holes


def convex(p):
    n = len(p)
    d = [(p[i - 1][0] - p[i - 2][0]) * (p[i][1] - p[i - 1][1]) - (p[i - 1][1] - p[i - 2][1]) * (p[i][0] - p[i - 1][0]) for i in range(n)]
    return all(v >= 0 for v in d) or all(v <= 0 for v in d)


def fix(c):
    """coordinates around zero"""
    o = c["shell"][0]
    c["shell"], c["holes"] = [[v[0] - o[0], v[1] - o[1]] for v in c["shell"]], [[[v[0] - o[0], v[1] - o[1]] for v in h] for h in c["holes"]]
    return c


class S(Suite):
    trace = "Trace_Tiling"

    def models(self, prop, tier):
        return [dict(module="MC_Tiling", cfg="MC_Tiling.cfg" if tier == "quick" else "MC_Tiling6.cfg", name="tile")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 10
        out = []

        kinds = lambda: rng.choice(["triangle", "triangle", "quad", "quad", "", "polygon"]) if rng.random() < 0.95 else rng.choice(["hexahedron", "Quad", "line"])

        def one(sh, holes):
            kind = kinds()
            if kind == "quad" and (holes or not convex(sh)):      # gmsh itself fails to recombine some very coarse meshes: see the last case
                sh, holes = region(rng, True)
            w = max(max(v[i] for v in sh) - min(v[i] for v in sh) for i in (0, 1))
            size = rng.choice([0, 0, w / 4, w / 7, w / 2])
            opt = rng.choice(["", "", "", "Laplace2D", "Relocate2D", "Netgen"])
            if kind == "quad" and (holes or not convex(sh)):
                size, opt = rng.choice([0.6, 0.8, 0.9]), rng.choice(["", "", "Relocate2D"])
            return fix(dict(ev="mesh", shell=sh, holes=holes, kind=kind, engine=rng.choice(["gmsh", "occ"]) if rng.random() < 0.95 else rng.choice(["cad", "Gmsh"]),
                            size=size, algo=rng.choice([0, 0, 0, 1, 5, 8]), opt=opt,
                            sf=forms(rng, sh), hf=[forms(rng, h) for h in holes], nohole=rng.choice(["none", "empty"]),
                            ax=rng.choice([3, 3, 3, 1, 2]), z=rng.choice([0, 0, 3, -7]), off=rng.choice([0, 0, 0, 1000, 400000])))
        for x in beh["tile"]:
            out.append(one([[3 * a, 3 * b] for a, b in x["p"]], []))
        for _ in range(250 * n):
            out.append(one(*region(rng)))
        out.append(dict(ev="default", kind="triangle"))
        out.append(dict(ev="mesh", key="coarse-quad", shell=[[0, 0], [5, 2], [-1, 6], [4, 7], [1, 7], [-1, 12], [-9, 11]], holes=[], kind="quad", engine="gmsh", size=0, algo=0, opt="",
                        sf="list", hf=[], nohole="none", ax=3, z=0, off=0))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, ints

        if c["ev"] == "default":
            me, exc = attempt(lambda: pvg.Polygon(celltype=c["kind"]))
            sh, holes, ax, z, off, kind = pv.Polygon().points[:, :2].tolist(), [], 3, 0, 0, c["kind"]
            c = dict(engine="gmsh", size=0)
        else:
            ax, z, off, kind = c["ax"], c["z"], c["off"], c["kind"] or ("triangle" if c["holes"] else "polygon")
            sh, holes = c["shell"], c["holes"]

            def build(p, f):
                q = np.array([perm(ax, [a + off, b + off, z]) for a, b in p], float)
                if ax != 3 or z:
                    f = {"list": "arr3", "tuple": "arr3", "int": "arr3", "closed": "closed3"}.get(f, f)
                if f == "list":
                    return [[float(a + off), float(b + off)] for a, b in p]
                if f == "tuple":
                    return tuple((a + off, b + off) for a, b in p)
                if f == "int":
                    return np.array([[a + off, b + off] for a, b in p])
                if f == "closed":
                    return [[a + off, b + off] for a, b in p + p[:1]]
                if f == "arr3":
                    return q
                if f == "closed3":
                    return np.vstack((q, q[:1]))
                n = len(p)
                if f == "face":
                    return pv.PolyData(q, faces=[n, *range(n)])
                if f == "grid":
                    return pv.UnstructuredGrid([n, *range(n)], [7], q)
                if f == "fan":          # several cells
                    m = pv.PolyData(q, faces=[n, *range(n)]).triangulate()
                    return m.cast_to_unstructured_grid() if len(p) % 2 else m
                if f == "line":
                    return pv.PolyData(q, lines=[n, *range(n)])
                if f == "lineclosed":
                    return pv.PolyData(q, lines=[n + 1, *range(n), 0])
                if f == "linerep":
                    return pv.PolyData(np.vstack((q, q[:1])), lines=[n + 1, *range(n + 1)])
            kw = dict(engine=c["engine"])
            if c["size"]:
                kw["cellsize"] = c["size"]
            if c["algo"]:
                kw["algorithm"] = c["algo"]
            if c["opt"]:
                kw["optimization"] = c["opt"]
            if c["kind"]:
                kw["celltype"] = c["kind"]
            hs = [build(h, f) for h, f in zip(holes, c["hf"])] or (None if c["nohole"] == "none" else [])
            me, exc = attempt(lambda: pvg.Polygon(build(sh, c["sf"]), hs, **kw))
        lat = lambda p: [[round(Z * v) for v in q] for q in p]
        e = dict(ev="mesh", kind=kind, engine=c["engine"], exc=exc, shell=lat(sh), holes=[lat(h) for h in holes], pts=[], cells=[], types=[], flat=True, size=round(Z * c["size"]))
        if not exc:
            a, b, k = [(1, 2, 0), (0, 2, 1), (0, 1, 2)][ax - 1]
            p = np.asarray(me.points, float)
            e["flat"] = bool(np.abs(p[:, k] - z).max() < 1e-6) if ax != 0 else True
            e["pts"] = lat((p[:, [a, b]] - off).tolist())
            e["cells"] = [[int(v) + 1 for v in me.get_cell(i).point_ids] for i in range(me.n_cells)]
            e["types"] = ints(me.celltypes)
        return [e]


SUITE = S()
