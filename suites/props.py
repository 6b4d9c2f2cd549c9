"""C15: connectivity, centers, dimension."""
from harness.util import *
from suites.meshes import *

BOX = [[0, 0, 0], [8 * U, 0, 0], [8 * U, 12 * U, 0], [0, 12 * U, 0], [0, 0, 4 * U], [8 * U, 0, 4 * U], [8 * U, 12 * U, 4 * U], [0, 12 * U, 4 * U]]
NPTS = {0: 0, 1: 1, 2: 3, 3: 2, 4: 3, 5: 3, 6: 4, 7: 5, 8: 4, 9: 4, 10: 4, 11: 8, 12: 8, 13: 6, 14: 5, 15: 10, 16: 12, 21: 3, 22: 6, 23: 8, 24: 10, 25: 20, 26: 15, 27: 13, 28: 9, 29: 27, 30: 6,
        31: 12, 32: 18, 33: 24, 34: 7, 35: 4, 36: 6, 37: 19, 41: 5, 68: 3, 69: 6, 70: 9, 71: 10, 72: 27, 73: 18, 74: 14, 75: 3, 76: 6, 77: 9, 78: 10, 79: 27, 80: 18, 81: 14}


def g(rng):
    r = rng.random()
    m = m2d(rng) if r < 0.3 else m3d(rng) if r < 0.7 else mstruct(rng) if r < 0.9 else m1d(rng)
    if m["form"] == "unstr" and rng.random() < 0.3:      # mixed dimensions
        n = len(m["pts"])
        for t, k in [(VERTEX, 1), (LINE, 2), (TRI, 3)]:
            if rng.random() < 0.5 and n >= k:
                i = rng.randint(0, len(m["cells"]))
                m["cells"].insert(i, cell(t, rng.sample(range(1, n + 1), k)))
                m["hid"].insert(i, False)
    if m["form"] == "unstr" and rng.random() < 0.3:
        m = mconcave(rng, m if rng.random() < 0.5 else None)
    return dict(m=m, how=rng.choice(["", "box", "geometric", "tetra", "tetra"]), types=[])


class S(Suite):
    trace = "Trace_Props"

    def models(self, prop, tier):
        return [dict(module="MC_Props", cfg="MC_Props.cfg" if tier == "quick" else "MC_Props3.cfg", name="props")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = []
        for x in rng.sample(beh["props"], min(len(beh["props"]), 150 * n)):
            out.append(dict(m=dict(form="unstr", pts=BOX, cells=x["cells"], dims=[], hid=x["hid"], flag=any(x["hid"])), how=rng.choice(["", "box", "geometric", "tetra"]), types=[]))
        for t in NPTS:
            out.append(dict(m=None, how="", types=[t]))
        for _ in range(60 * n):
            out.append(dict(m=None, how="", types=[rng.choice(list(NPTS)) for _ in range(rng.randint(2, 4))]))
        out += [g(rng) for _ in range(250 * n)]
        rescale(rng, [c["m"] for c in out])
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, ints, cells_of, faces_of
        if c["m"] is None:
            flat, n = [], 30
            for t in c["types"]:
                flat += [NPTS[t], *range(NPTS[t])]
            me = pv.UnstructuredGrid(np.array(flat), np.array(c["types"], np.uint8), np.random.default_rng(0).random((n, 3)))
            d, exc = attempt(lambda: int(pvg.get_dimension(me)))
            return [dict(ev="dim", form="unstr", dims=[], types=c["types"], exc=exc, dim=d if not exc else 99)]
        me = make(c["m"])
        p2 = c["m"].get("p2", 0)
        m = project(me, p2)
        form = c["m"]["form"]
        out = []
        d, exc = attempt(lambda: int(pvg.get_dimension(me)))
        out.append(dict(ev="dim", form=form, dims=c["m"]["dims"], types=[x["type"] for x in m["cells"]], exc=exc, dim=d if not exc else 99))
        got, exc = attempt(lambda: (pvg.get_cell_connectivity(me), pvg.get_cell_connectivity(me, flatten=True)))
        e = dict(ev="conn", m=m, form=form, exc=exc, got=[], flat=[], back=[])
        if not exc:
            a, f = got
            e["got"] = [[[int(v) + 1 for v in x] for x in y] if isinstance(y, list) else [int(v) + 1 for v in y] for y in a]
            e["flat"] = ints(f)
            b = pv.UnstructuredGrid(np.array(f), me.cast_to_unstructured_grid().celltypes, me.points)
            cl, ty = cells_of(b)
            e["back"] = [dict(type=t, faces=faces_of(b, i)) if t == PHED else dict(type=t, ids=x) for i, (x, t) in enumerate(zip(cl, ty))]
        out.append(e)
        cen, exc = attempt(lambda: pvg.get_cell_centers(me, *([c["how"]] if c["how"] else [])))
        out.append(dict(ev="cent", m=m, how=c["how"] or "box", exc=exc, cen=[] if exc else scs(np.asarray(cen, float) / 2.0 ** p2)))
        return out


SUITE = S()
