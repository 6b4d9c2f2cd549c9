"""C07, C08, C09: the extrusion builder as a state machine (new, add, generate)."""
from harness.util import *
from suites.stack import base_struct, base_unstr, new as new_base, mesh_of, set_groups, project, g_group, real_group, NONE
from suites.volume import axes

U = 1250
NOANG = 99999
DIRS = [([0, 0, 1], 1), ([0, 1, 0], 1), ([1, 0, 0], 1), ([1, 2, 2], 3), ([2, 3, 6], 7), ([3, 4, 0], 5), ([0, -3, 4], 5), ([-2, 1, 2], 3), ([0, 0, -1], 1), ([-1, 0, 0], 1)]


def base(rng):
    b = base_struct(rng) if rng.random() < 0.5 else base_unstr(rng)
    if "types" not in b:
        b["types"] = [9] * len(b["cells"])
    if b["form"] != "rect" and rng.random() < 0.3:      # not flat
        for p in b["pts"]:
            p[b["axis"] - 1] += rng.randint(-4, 4) * U
    return b


def step(rng, zero=True):
    d, n = rng.choice(DIRS)
    m = rng.randint(1, 12) * rng.choice([1, 1, -1])
    ang = rng.choice([NOANG, NOANG, rng.randint(-360, 360), rng.choice([180, -180, 90, 360, 0, 0])])
    sc = rng.choice([-1, -1, -1, 4, 2, 3, 5, 6, 8, 0])
    if zero and rng.random() < 0.1:
        return dict(vec=[0, 0, 0], dir=[0, 0, 0], n=1, sc=rng.choice([-1, -1, 2]), ang=NOANG)
    s = 1 if m > 0 else -1
    return dict(vec=[x * m * U for x in d], dir=[x * s for x in d], n=n, sc=sc, ang=ang)


def add(rng, st, n, cg, groups):
    res = rand_res(rng, 3)
    if res["k"] == "list" and rng.random() < 0.1:
        res["v"].append(rng.choice(res["v"]))
    e = dict(st, ev="add", res=res, m=rand_method(rng, res), grp=NONE, form=rng.choice(["list", "np", "tuple"]))
    if rng.random() < (0.9 if groups else 0.3):
        e["grp"] = g_group(rng, n, cg)
    if rng.random() < 0.02:
        e["m"], e["res"] = "linear", dict(k="int", n=2)
    return e


def wrap(rng, b, groups):
    nw = new_base(rng, b, groups)
    nw["sc"], nw["ang"] = rng.choice([-1, -1, -1, 3, 8]), rng.choice([NOANG, NOANG, NOANG, 45, -120])
    return nw


def g_case(rng, groups=False):
    b = base(rng)
    nw = wrap(rng, b, groups)
    ops, n = [nw], len(b["cells"])
    if rng.random() < 0.1:
        ops.append(dict(ev="gen"))
    for i in range(rng.randint(1, 3)):
        if rng.random() < 0.05:
            ops.append(dict(ev="addbad", v=rng.choice([[0.0, 1.0], [1.0], [[0.0, 0.0, 1.0]], [0.0, 0.0, 1.0, 0.0], 1.0])))
        ops.append(add(rng, step(rng, zero=nw["ang"] == NOANG), n, nw["cg"], groups))
        if rng.random() < 0.3:
            ops.append(dict(ev="gen"))
    if ops[-1]["ev"] != "gen":
        ops.append(dict(ev="gen"))
    return dict(ops=ops)


def from_model(rng, x):
    b = base(rng)
    nw = wrap(rng, b, False)
    nw["sc"], nw["ang"] = x["def"]["sc"], x["def"]["ang"]
    return dict(ops=[nw, *[add(rng, h, len(b["cells"]), nw["cg"], False) for h in x["hist"]], dict(ev="gen")])


def g_newbad(rng):
    return dict(ops=[dict(ev="newbad", why=rng.choice(["line", "3d", "points"]))])


class S(Suite):
    trace = "Trace_Extrude"

    def models(self, prop, tier):
        return [dict(module="MC_Extrude", cfg="MC_Extrude.cfg" if tier == "quick" else "MC_Extrude3.cfg", name="extrude")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 8
        f = 1.0 if prop == "C09" else 0.5
        out = [from_model(rng, x) for x in rng.sample(beh["extrude"], min(len(beh["extrude"]), int(100 * n * f)))]
        out += [g_case(rng, prop == "C08") for _ in range(int(200 * n * f))]
        for x in out:
            if rng.random() < 0.2:
                x["p2"] = rng.choice([-17, -7, 7, 14])
        return alias_names(rng, out) + [g_newbad(rng) for _ in range(6)]

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, K
        p2 = 2.0 ** c.get("p2", 0)
        out, ex, cd = [], None, []
        for o in c["ops"]:
            if o["ev"] == "newbad":
                m = {"line": pv.Line(), "3d": pv.ImageData(dimensions=(3, 3, 3)), "points": pv.PolyData(np.zeros((2, 3)))}[o["why"]].cast_to_unstructured_grid()
                _, exc = attempt(lambda: pvg.MeshExtrude(m))
                out.append(dict(ev="newbad", exc=exc))
            elif o["ev"] == "new":
                b, cd = mesh_of(o, p2), o["cd"]
                if o["cg"]:
                    set_groups(b, o["cg"], o["extra"])
                if cd:
                    b.cell_data["q"] = np.array(cd)
                ex, exc = attempt(lambda: pvg.MeshExtrude(b, scale=o["sc"] / 4 if o["sc"] >= 0 else None, angle=None if o["ang"] == NOANG else o["ang"] / 2,
                                                          default_group=o["def"] or None, ignore_groups=o["ignore"] or None))
                cells = o["cells"]
                if 8 in o["types"]:
                    cells = [[x[0], x[1], x[3], x[2]] if t == 8 else x for x, t in zip(cells, o["types"])]
                out.append(dict({k: o[k] for k in ("ev", "pts", "types", "cg", "cd", "ignore", "def", "sc", "ang")}, cells=cells, exc=exc))
            elif o["ev"] == "addbad":
                _, exc = attempt(lambda: ex.add(o["v"]))
                out.append(dict(ev="addbad", exc=exc))
            elif o["ev"] == "add":
                v = [x / K * p2 for x in o["vec"]]
                v = np.array(v) if o["form"] == "np" else tuple(v) if o["form"] == "tuple" else v
                _, exc = attempt(lambda: ex.add(v, resolution=real_res(o["res"]), method=real_m(o["m"]), scale=o["sc"] / 4 if o["sc"] >= 0 else None,
                                                angle=None if o["ang"] == NOANG else o["ang"] / 2, group=real_group(o["grp"])))
                out.append(dict({k: o[k] for k in ("ev", "vec", "dir", "n", "sc", "ang", "res", "m", "grp")}, exc=exc))
            else:
                me, exc = attempt(lambda: ex.generate_mesh())
                e = dict(ev="gen", exc=exc, cells=[], table=[], names=[], types=[])
                if not exc:
                    e["cells"], e["table"], e["names"] = project(me, "ExtrudeItem", cd, p2)
                    m2 = me.copy()
                    m2.cell_data.pop("vtkGhostType", None)
                    e["types"] = [int(m2.GetCellType(i)) for i in range(m2.n_cells)]
                out.append(e)
        return out


SUITE = S()
