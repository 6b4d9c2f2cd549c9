"""C10: the mesh merger as a state machine (new, add, generate)."""
from harness.util import *
from suites.volume import patch, axes, perm

L = 125000          # lattice at the fine scale 10^6
TOLS = [100, 1000]  # at the fine scale: 1e-4, 1e-3


def g_mesh(rng, site, tol, kind=None):
    """small meshes around a common lattice, so that they touch; some points slightly off it"""
    kind = kind or rng.choice(["quads", "tris", "hexes", "line", "poly", "struct", "image", "polydata"])
    o = [rng.randint(0, 3) + s for s in site]
    nx, ny = rng.randint(1, 3), rng.randint(1, 2)
    m = dict(kind=kind)
    if kind in ("hexes", "image"):
        ny, nz = rng.randint(1, 2), rng.randint(1, 2)
        d = [nx + 1, ny + 1, nz + 1]
        pts = [[o[0] + i, o[1] + j, o[2] + k] for k in range(d[2]) for j in range(d[1]) for i in range(d[0])]
        pid = lambda i, j, k: i + d[0] * (j + d[1] * k) + 1
        cells = [[pid(i, j, k), pid(i + 1, j, k), pid(i + 1, j + 1, k), pid(i, j + 1, k), pid(i, j, k + 1), pid(i + 1, j, k + 1), pid(i + 1, j + 1, k + 1), pid(i, j + 1, k + 1)]
                 for k in range(nz) for j in range(ny) for i in range(nx)]
        types = [12] * len(cells)
        if kind == "image":
            types = [11] * len(cells)
            cells = [[c[0], c[1], c[3], c[2], c[4], c[5], c[7], c[6]] for c in cells]
            m.update(dims=d, org=[v * L for v in o])
    elif kind == "line":
        pts = [[o[0] + i, o[1], o[2]] for i in range(nx + 1)]
        cells = [[i + 1, i + 2] for i in range(nx)]
        types = [3] * nx
    else:
        d = [nx + 1, ny + 1, 1]
        pts = [[o[0] + i, o[1] + j, o[2]] for j in range(ny + 1) for i in range(nx + 1)]
        pid = lambda i, j: i + d[0] * j + 1
        cells = [[pid(i, j), pid(i + 1, j), pid(i + 1, j + 1), pid(i, j + 1)] for j in range(ny) for i in range(nx)]
        types = [9] * len(cells)
        if kind == "poly":
            types = [7] * len(cells)
        if kind == "tris":
            cells = [t for c in cells for t in ([c[0], c[1], c[2]], [c[0], c[2], c[3]])]
            types = [5] * len(cells)
        m.update(dims=d)
    pts = [[v * L for v in p] for p in pts]
    if kind != "image" and rng.random() < 0.4:
        for p in pts:
            if rng.random() < 0.3:
                p[rng.randint(0, 2)] += rng.choice([-1, 1]) * (tol // 20 if rng.random() < 0.6 else tol * 30)
    m.update(pts=pts, cells=[dict(ids=c, type=t) for c, t in zip(cells, types)])
    n = len(cells)
    r = rng.random()
    m["table"] = "none"
    m["names"] = [""] * n
    if r < 0.7:
        m["table"] = rng.choice(["full", "full", "extra", "partial"])
        m["names"] = [rng.choice("abc") for _ in range(n)]
        if m["table"] == "partial":
            m["names"] = [rng.choice(["a", "b", ""]) for _ in range(n)]
    elif r < 0.8:
        m["table"] = "raw"
    m["ud"] = rng.random() < 0.3
    m["pd"] = rng.random() < 0.45
    m["hid"] = [rng.random() < 0.4 for _ in range(n)] if kind != "image" and rng.random() < 0.3 else [False] * n
    m["gh"] = any(m["hid"]) or kind != "image" and rng.random() < 0.1
    m["cd"] = [rng.randint(0, 99) for _ in range(n)] if m["pd"] else []
    return m


def g_case(rng):
    tol = rng.choice([*TOLS, 0])
    ops = [dict(ev="new", ignore=rng.choice([[], [], ["a"], ["b", "zz"]]))]
    ops[0]["def"] = rng.choice(["", "", "dd", "a"])
    if rng.random() < 0.08:
        ops.append(dict(ev="gen", tol=tol))
    site = [rng.randint(-20, 20) for _ in range(3)]
    for i in range(rng.randint(1, 4)):
        ops.append(dict(g_mesh(rng, site, tol), ev="add", grp=rng.choice(["", "", "G1", "a", "G2"])))
        if rng.random() < 0.3:
            ops.append(dict(ev="gen", tol=tol))
    ops.append(dict(ev="gen", tol=tol))
    if rng.random() < 0.5:
        ops.append(dict(ev="gen", tol=tol))
    return dict(ops=ops)


def from_model(rng, x):
    ops, k = [dict(ev="new", ignore=x["ignore"])], 0
    ops[0]["def"] = x["def"]
    for a in x["log"]:
        if a == "add":
            it = x["items"][k]
            k += 1
            m = dict(kind="line", pts=[[it["a"] * L, 0, 0], [(it["a"] + 1) * L, 0, 0]], cells=[dict(ids=[1, 2], type=3)], names=[it["name"]],
                     table="full" if it["name"] else rng.choice(["none", "raw"]), ud=rng.random() < 0.3, pd=bool(it["cd"]), hid=it["hid"], gh=any(it["hid"]), cd=it["cd"])
            ops.append(dict(m, ev="add", grp=it["grp"]))
        else:
            ops.append(dict(ev="gen", tol=100))
    return dict(ops=ops)


def build(o):
    import numpy as np, pyvista as pv
    p = np.array(o["pts"], float) / 1e6
    cells = [[v - 1 for v in c["ids"]] for c in o["cells"]]
    types = [c["type"] for c in o["cells"]]
    if o["kind"] == "image":
        me = pv.ImageData(dimensions=o["dims"], spacing=(0.125, 0.125, 0.125), origin=[v / 1e6 for v in o["org"]])
    elif o["kind"] == "struct":
        me = pv.StructuredGrid()
        me.points = p
        me.dimensions = o["dims"]
    elif o["kind"] == "polydata":
        me = pv.PolyData(p, faces=np.concatenate([[len(c), *c] for c in cells]))
    else:
        me = pv.UnstructuredGrid(np.concatenate([[len(c), *c] for c in cells]), types, p)
    n = me.n_cells
    if o["table"] == "raw":
        me.cell_data["CellGroup"] = np.arange(n)
    elif o["table"] != "none":
        names = sorted({x for x in o["names"] if x}, reverse=True)
        if o["table"] == "extra":
            names = ["u1", *names, "u2"]
        t = {x: i + 3 for i, x in enumerate(names)}
        me.cell_data["CellGroup"] = np.array([t.get(x, 1) for x in o["names"]])
        me.user_dict["CellGroup"] = t
    if o["ud"]:
        me.user_dict["Other"] = {"k": 1}
    if o.get("gh"):
        me.cell_data["vtkGhostType"] = np.array([32 if h else 0 for h in o["hid"]], dtype=np.uint8)
    if o["pd"]:
        me.point_data["pd"] = np.arange(me.n_points)
        me.cell_data["cd"] = np.array(o["cd"])
    return me


class S(Suite):
    trace = "Trace_Merge"

    def models(self, prop, tier):
        return [dict(module="MC_Merge", cfg="MC_Merge.cfg", name="merge")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = [from_model(rng, x) for x in rng.sample(beh["merge"], min(len(beh["merge"]), 100 * n))]
        return alias_names(rng, out + [g_case(rng) for _ in range(250 * n)])

    def run(self, c):
        import pvgridder as pvg
        from harness.proj import attempt, scs, cells_of
        out, mm = [], None
        for o in c["ops"]:
            if o["ev"] == "new":
                mm, exc = attempt(lambda: pvg.MeshMerge(default_group=o["def"] or None, ignore_groups=o["ignore"] or None))
                out.append(dict({k: o[k] for k in ("ev", "def", "ignore")}, exc=exc))
            elif o["ev"] == "add":
                me = build(o)
                _, exc = attempt(lambda: mm.add(me, o["grp"] or None))
                out.append(dict({k: o[k] for k in ("ev", "pts", "cells", "names", "grp", "hid", "cd")}, exc=exc))
            else:
                me, exc = attempt(lambda: mm.generate_mesh(tolerance=o["tol"] / 1e6))
                e = dict(ev="gen", exc=exc, tol=o["tol"], pts=[], cells=[], names=[], nums=[], table=[], hid=[], cd=[])
                if not exc:
                    cl, ty = cells_of(me)
                    e["hid"] = [int(x) == 32 for x in me.cell_data["vtkGhostType"]] if "vtkGhostType" in me.cell_data else [False] * me.n_cells
                    e["cd"] = [int(x) for x in me.cell_data["cd"]] if "cd" in me.cell_data else []
                    e["pts"] = scs(me.points, 1e6)
                    e["cells"] = [dict(ids=x, type=t) for x, t in zip(cl, ty)]
                    e["names"] = [str(x) for x in pvg.get_cell_group(me)]
                    e["nums"] = [int(x) for x in me.cell_data["CellGroup"]]
                    e["table"] = [dict(name=str(k), num=int(v)) for k, v in me.user_dict["CellGroup"].items()]
                out.append(e)
        return out


SUITE = S()
