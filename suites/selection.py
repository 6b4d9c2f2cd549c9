"""C16: extraction of cells."""
from harness.util import *
from suites.meshes import *
from suites.props import BOX


def finger(me):
    """contents of a mesh (order of the data arrays ignored)"""
    import numpy as np
    from harness.proj import cells_of
    d = lambda a: sorted((k, np.asarray(a[k]).dtype.str, np.asarray(a[k]).shape, np.asarray(a[k]).tobytes()) for k in a.keys() if not k.startswith('vtkOriginal'))
    return (type(me).__name__, np.asarray(me.points).tobytes(), cells_of(me) if "vtkGhostType" not in me.cell_data else me.n_cells, d(me.cell_data), d(me.point_data), [x for x in d(me.field_data) if x[0] != "_PYVISTA_USER_DICT"])


def sel(rng, n):
    r = rng.random()
    if r < 0.4:
        return False, [int(rng.random() < 0.5) for _ in range(n)]
    k = rng.randint(0 if r < 0.45 else 1, n)
    s = rng.sample(range(n), k)
    if rng.random() < 0.3 and s:
        s += [rng.choice(s) for _ in range(2)]
    return True, s


def g(rng):
    r = rng.random()
    m = m2d(rng) if r < 0.3 else m3d(rng) if r < 0.55 else mstruct(rng) if r < 0.8 else m1d(rng)
    n = len(m["hid"])
    isidx, s = sel(rng, n)
    ops = [dict(ev="sel", ismask=not isidx, sel=s, inv=rng.random() < 0.3)]
    if m["dims"] == [] or not any(m["hid"]):
        if m["form"] == "unstr" and rng.random() < 0.5:
            k = len(m["pts"])
            for t, q in [(VERTEX, 1), (LINE, 2), (TRI, 3), (EMPTY, 0)]:
                if rng.random() < 0.5 and k >= q:
                    i = rng.randint(0, len(m["cells"]))
                    m["cells"].insert(i, cell(t, rng.sample(range(1, k + 1), q)))
                    m["hid"].insert(i, rng.random() < 0.2)
            m["flag"] = m["flag"] or any(m["hid"])
            ops[0]["sel"] = ops[0]["sel"] if isidx else [int(rng.random() < 0.5) for _ in m["hid"]]
        ops.append(dict(ev="dim", d=rng.choice([99, 0, 1, 2, 3]), me=rng.choice(["upper", "lower", "lower", "x" if rng.random() < 0.2 else "upper"]), keep=rng.random() < 0.4))
    return dict(m=m, ops=ops)


class S(Suite):
    trace = "Trace_Select"

    def models(self, prop, tier):
        return [dict(module="MC_Select", cfg="MC_Select.cfg" if tier == "quick" else "MC_Select4.cfg", name="select")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = []
        for x in rng.sample(beh["select"], min(len(beh["select"]), 250 * n)):
            o = x["op"]
            op = dict(ev="sel", ismask=False, sel=sorted(o["s"]), inv=o["inv"]) if o["k"] == "sel" else dict(ev="dim", d=o["d"], me=o["me"], keep=o["keep"])
            hid = [rng.random() < 0.3 for _ in x["cells"]]
            out.append(dict(m=dict(form="unstr", pts=BOX, cells=x["cells"], dims=[], hid=hid, flag=any(hid)), ops=[op]))
        out += [g(rng) for _ in range(250 * n)]
        rescale(rng, [c["m"] for c in out])
        return out

    def run(self, c):
        import numpy as np, pvgridder as pvg
        from harness.proj import attempt, ints
        out = []
        for op in c["ops"]:
            me = make(c["m"])
            me.cell_data["val"] = np.arange(me.n_cells) * 7 + 3
            me.point_data["pval"] = np.arange(me.n_points) * 5 + 1
            me.field_data["fld"] = np.array([4, 5])
            p2 = c["m"].get("p2", 0)
            f0, m = finger(me), project(me, p2)
            if op["ev"] == "sel":
                arg = np.array(op["sel"], dtype=bool if op["ismask"] else int)
                po, exc = attempt(lambda: pvg.extract_cells(me, list(arg) if len(arg) and len(arg) % 2 and not op["ismask"] else arg, invert=op["inv"]))
            else:
                kw = dict(keep_empty_cells=True) if op["keep"] else {}
                if op["d"] != 99:
                    kw["ndim"] = op["d"]
                po, exc = attempt(lambda: pvg.extract_cells_by_dimension(me, method=op["me"], **kw))
            e = dict(op, m=m, cd=ints(me.cell_data["val"]), pd=ints(me.point_data["pval"]), exc=exc, same=finger(me) == f0, out=dict(pts=[], cells=[], hid=[]), orig=[], ocd=[], opd=[])
            if not exc and po.n_cells:
                e["out"] = project(po, p2)
                e["ocd"], e["opd"] = ints(po.cell_data["val"]), ints(po.point_data["pval"])
                e["orig"] = ints(po.cell_data["vtkOriginalCellIds"]) if "vtkOriginalCellIds" in po.cell_data else list(range(po.n_cells))
            out.append(e)
        return out


SUITE = S()
