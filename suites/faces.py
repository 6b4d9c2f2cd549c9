"""C14: cell geometry, neighbourhood and connectivity."""
from harness.util import *
from suites.meshes import *


def stacked(rng):
    """parameters of an unstructured stack with collapsed columns (built by the real builder)"""
    m = m2d(rng, lines=False, empty=False)
    while m["form"] != "unstr":
        m = m2d(rng, lines=False, empty=False)
    m["flag"] = False
    n = len(m["pts"])
    ax = [c for c in range(3) if len({p[c] for p in m["pts"]}) == 1]
    return dict(form="stack", base=m, axis=ax[0] if ax else 2, h=[[rng.choice([0, 0, 8, 16, 8]) * U for _ in range(n)] for _ in range(2)])


def build(m):
    import numpy as np, pvgridder as pvg
    from harness.proj import K
    if m["form"] != "stack":
        return make(m)
    b = make(m["base"])
    st = pvg.MeshStack3D(b, axis=m["axis"]).add(0.0)
    z = np.zeros(len(m["h"][0]))
    for h in m["h"]:
        z = z + np.array(h) / K
        st.add(lambda *_, z=z: z)
    return st.generate_mesh()


def g(rng):
    r = rng.random()
    m = m2d(rng, planar=False) if r < 0.35 else m3d(rng) if r < 0.65 else mstruct(rng) if r < 0.85 else m1d(rng) if r < 0.9 else stacked(rng)
    return dict(m=m, rem=rng.random() < 0.7, cen=rng.random() < 0.5, badc=rng.random() < 0.05)


def fixed(rng):
    """single cells of every type, and everything hidden"""
    out = []
    q = [[0, 0, 0], [8 * U, 0, 0], [8 * U, 8 * U, 0], [0, 8 * U, 0], [0, 0, 8 * U], [8 * U, 0, 8 * U], [8 * U, 8 * U, 8 * U], [0, 8 * U, 8 * U]]
    one = {TRI: [1, 2, 3], QUAD: [1, 2, 3, 4], POLY: [1, 2, 3, 4], PIXEL: [1, 2, 4, 3], TET: [1, 2, 4, 5], HEX: [1, 2, 3, 4, 5, 6, 7, 8], WEDGE: [1, 2, 4, 5, 6, 8], PYR: [1, 2, 3, 4, 7], VOXEL: [1, 2, 4, 3, 5, 6, 8, 7], LINE: [1, 2], PLINE: [1, 2, 3]}
    for t, ids in one.items():
        for hid in ([False], [True]):
            out.append(dict(m=dict(form="unstr", pts=q, cells=[cell(t, ids)], dims=[], hid=hid, flag=True), rem=True, cen=True, badc=False))
    out.append(dict(m=dict(form="unstr", pts=q, cells=[cell(PHED, [], [[v + 1 for v in f] for f in CUBE_FACES])], dims=[], hid=[False], flag=False), rem=True, cen=True, badc=False))
    return out


class S(Suite):
    trace = "Trace_Faces"

    def models(self, prop, tier):
        return [dict(module="MC_Faces", cfg="MC_Faces.cfg", name="faces")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = fixed(rng)
        P = [[(v % 3) * U, (v // 3) * U, 0] for v in range(9)]
        for x in rng.sample(beh["faces"], min(len(beh["faces"]), 100 * n)):
            out.append(dict(m=dict(form="unstr", pts=P, cells=x["cells"], dims=[], hid=x["hid"], flag=any(x["hid"])), rem=rng.random() < 0.7, cen=True, badc=False))
        out += [g(rng) for _ in range(300 * n)]
        rescale(rng, [c["m"] for c in out if c["m"]["form"] != "stack"])
        return out

    def run(self, c):
        import numpy as np, pvgridder as pvg
        from harness.proj import attempt, scs
        me = build(c["m"])
        p2 = c["m"].get("p2", 0)
        m = project(me, p2)
        out = []
        po, exc = attempt(lambda: pvg.extract_cell_geometry(me, remove_ghost_cells=c["rem"]))
        e = dict(ev="geom", m=m, rem=c["rem"], exc=exc, faces=[], pts=[])
        if not exc:
            own = np.asarray(po.cell_data["vtkOriginalCellIds"]) if po.n_cells else np.zeros((0, 1), int)
            own = own.reshape((po.n_cells, -1)) if po.n_cells else own
            for i in range(po.n_cells):
                ids = po.GetCell(i).GetPointIds()
                e["faces"].append(dict(ids=[ids.GetId(k) + 1 for k in range(ids.GetNumberOfIds())], own=[int(x) for x in own[i]]))
            e["pts"] = scs(np.asarray(po.points, float) / 2.0 ** p2)
        out.append(e)
        nb, exc = attempt(lambda: pvg.get_neighborhood(me, remove_ghost_cells=c["rem"]))
        out.append(dict(ev="neigh", m=m, rem=c["rem"], exc=exc, nb=[] if exc else [[int(x) for x in v] for v in nb]))
        n = me.n_cells
        cen = [[i, 2 * i, -i] for i in range(n)]
        arg = None
        if c["cen"]:
            arg = np.array(cen, float)
        if c["badc"]:
            arg = np.zeros((n + 1, 3)) if n % 2 else np.zeros((n, 2))
        po, exc = attempt(lambda: pvg.get_connectivity(me, cell_centers=arg, remove_ghost_cells=c["rem"]))
        e = dict(ev="conn", m=m, rem=c["rem"], exc=exc, badc=c["badc"], given=c["cen"], cen=[[v * 10000 for v in x] for x in cen], lines=[], ends=[])
        if not exc:
            e["lines"] = [[int(v) for v in x[1:]] for x in po.lines.reshape((-1, 3))] if po.n_lines else []
            e["ends"] = scs(np.asarray(po.points, float) / (1 if c["cen"] else 2.0 ** p2))
        out.append(e)
        return out


SUITE = S()
