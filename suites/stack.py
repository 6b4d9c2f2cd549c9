"""C06, C07, C08: stacking builders as state machines (new, set_transition, add, generate)."""
from harness.util import *
from suites.volume import patch, perm, axes, PIXEL

U = 1250
NONE = dict(k="none")


# ------------------------------------------------------------------ bases
def base2d(rng, ax=None, n=None):
    ax = ax or rng.choice([1, 2, 3])
    n = n or rng.randint(2, 5)
    x = axes(rng, n, 12)
    form = rng.choice(["array", "poly", "bent"])
    if form == "array":
        c = (ax) % 3           # 0-based (axis0 + 1) % 3
        pts = [[0, 0, 0] for _ in x]
        for p, v in zip(pts, x):
            p[c] = v
    else:
        lat = [c for c in range(3) if c != ax - 1]
        a, b = rng.sample(lat, 2)
        pts = [[0, 0, 0] for _ in x]
        y0 = rng.randint(-20, 20) * U
        for p, v in zip(pts, x):
            p[a], p[b] = v, y0 + (rng.randint(-10, 10) * U if form == "bent" else 0)
            p[ax - 1] = rng.randint(-10, 10) * U
    return dict(kind="2D", form=form, axis=ax, pts=pts, cells=[[i + 1, i + 2] for i in range(n - 1)])


def base_struct(rng, ax=None, n1=None, n2=None):
    ax = ax or rng.choice([1, 2, 3])
    n1, n2 = n1 or rng.randint(2, 4), n2 or rng.randint(2, 4)
    x, y = axes(rng, n1, 12), axes(rng, n2, 12)
    form = rng.choice(["struct", "struct", "rect"])
    z0 = rng.randint(-10, 10) * U
    pts = [perm(ax, [a, b, z0]) for b in y for a in x]
    cells = [[j * n1 + i + 1, j * n1 + i + 2, (j + 1) * n1 + i + 2, (j + 1) * n1 + i + 1] for j in range(n2 - 1) for i in range(n1 - 1)]
    return dict(kind="struct", form=form, axis=ax, dims=perm(ax, [n1, n2, 1]), pts=pts, cells=cells)


def base_unstr(rng):
    ax = rng.choice([1, 2, 3])
    x, y, cells, types = patch(rng)
    z0 = rng.randint(-10, 10) * U
    pts = [perm(ax, [a, b, z0]) for b in y for a in x]
    return dict(kind="unstr", form="unstr", axis=ax, pts=pts, cells=cells, types=types)


def new(rng, b, groups=False):
    n = len(b["cells"])
    e = dict(b, ev="new", cg=[], cd=[], ignore=[], up=rng.random() < 0.6)
    e["def"] = rng.choice(["", "", "dd"])
    if b["kind"] != "2D":
        if rng.random() < (0.9 if groups else 0.3):
            e["cg"] = [rng.choice("abcd") for _ in range(n)]
            e["ignore"] = rng.choice([[], [], ["a"], ["b", "zz"], ["a", "c"]])
            e["extra"] = rng.random() < 0.3        # unused names in the base table
        if rng.random() < 0.5:
            e["cd"] = [100 + 3 * i for i in range(n)]
    return e


# ------------------------------------------------------------------ items
def lat2(p, ax):
    return tuple(p[c] for c in range(3) if c != ax - 1)


def no_ties(pts, data, ax):
    for p in pts:
        d = sorted(sum((a - b) ** 2 for a, b in zip(lat2(p, ax), lat2(q, ax))) for q in data)
        if len(d) > 1 and d[0] == d[1]:
            return False
    return True


def g_arg(rng, b, first, spread_=60):
    ax, pts = b["axis"], b["pts"]
    r = rng.random()
    rz = lambda: rng.randint(-spread_, spread_) * U
    if r < 0.25 or (first and r < 0.35):
        return dict(k="const", v=rng.choice([rz(), rng.randint(0, 20) * U]))
    if r < 0.5:
        return dict(k="vals", v=[rz() for _ in pts])
    if r < 0.6:
        c = [rng.choice([0, 0, 1, -1, 2]) for _ in range(3)] + [rz()]
        return dict(k="affine", c=c)
    if r < 0.68 and b["kind"] != "2D":
        rr = rng.choice([c for c in (1, 2, 3) if c != ax])
        return dict(k="plane", r=rr, h=rng.randint(-100, 100), p=[rz() for _ in range(3)], g=rng.choice([0.0, 35.0]))
    lats = [c for c in (1, 2, 3) if c != ax and len({p[c - 1] for p in pts}) > 1]
    if b["kind"] == "2D" and b["form"] == "bent":
        return dict(k="vals", v=[rz() for _ in pts])
    if len(lats) == 1 or (r < 0.85 and lats):
        c = rng.choice(lats)
        lo, hi = min(p[c - 1] for p in pts), max(p[c - 1] for p in pts)
        mode = rng.choice(["cover", "cover", "cover", "short", "bad"])
        if mode == "cover":
            lo, hi = lo - rng.randint(0, 5) * U, hi + rng.randint(0, 5) * U
        else:
            lo += U
        if hi - lo < U:
            hi = lo + 4 * U
        inner = sorted(set(rng.randint(lo // U, hi // U) * U for _ in range(rng.randint(0, 3))) | {lo, hi})
        dp = []
        other = [x for x in (1, 2, 3) if x not in (ax, c)][0]
        y0 = rz()
        for v in inner:
            p = [0, 0, 0]
            p[c - 1], p[other - 1], p[ax - 1] = v, y0, rz()
            dp.append(p)
        rng.shuffle(dp) if rng.random() < 0.3 else (dp.reverse() if rng.random() < 0.5 else None)
        return dict(k="line" if mode != "bad" else "bad", why="data", c=c, pts=dp, near=mode == "short", form=rng.choice(["poly", "array"]))
    # nodes
    mode = rng.choice(["all", "all", "sub", "bad"])
    data = [list(p) for p in pts]
    for p in data:
        p[ax - 1] = rz()
    if mode != "all" and b["kind"] == "struct":
        u = [c for c in range(3) if c != ax - 1]
        vs = [sorted({p[c] for p in pts}) for c in u]
        if len(vs[0]) < 3 and len(vs[1]) < 3:
            mode = "all"
        else:
            k = 0 if len(vs[0]) >= 3 else 1
            data = [p for p in data if p[u[k]] != vs[k][-1]]
    else:
        mode = "all" if mode != "all" else mode
    if mode == "sub" and not no_ties(pts, data, ax):
        mode = "bad"
    rng.shuffle(data)
    return dict(k="nodes" if mode != "bad" else "bad", why="data", pts=data, near=mode == "sub", form=rng.choice(["poly", "array", "unstr"]))


BADARGS = [dict(k="bad", why="1d"), dict(k="bad", why="2cols"), dict(k="bad", why="3d")]


def g_sel(rng, n, cg):
    r = rng.random()
    fn = rng.random() < 0.3
    if r < 0.3:
        return dict(k="mask", v=[rng.random() < 0.5 for _ in range(n)], fn=fn, form=rng.choice(["np", "list"]))
    if r < 0.6 or not cg:
        v = rng.sample(range(n), rng.randint(0 if rng.random() < 0.2 else 1, n))
        return dict(k="idx", v=v, fn=fn, form="scalar" if len(v) == 1 and rng.random() < 0.5 else rng.choice(["np", "list", "tuple"]))
    names = rng.sample(sorted(set(cg)), rng.randint(1, min(2, len(set(cg)))))
    neg = rng.random() < 0.3
    return dict(k="names", v=[dict(neg=neg if len(names) == 1 else rng.random() < 0.3, name=x) for x in names], fn=False,
                form="str" if len(names) == 1 and rng.random() < 0.6 else rng.choice(["list", "tuple", "np"]))


def g_group(rng, n, cg, simple=False, bad=True):
    r = rng.random()
    if r < 0.2:
        return NONE
    if r < 0.35 or simple:
        return dict(k="name", v=rng.choice(["G1", "a", "G2"]))
    keys = rng.sample(["G1", "G2", "a", "b", "zz"], rng.randint(1, 3))
    rules = [dict(key=k, neg=rng.random() < 0.25, sel=g_sel(rng, n, cg)) for k in keys]
    if bad and rng.random() < 0.04:
        rules[-1]["sel"] = dict(k="bad", form=rng.choice(["float", "float2"]))
    return dict(k="rules", v=rules)


def add(rng, b, first, arg, groups, cg, tr=False):
    res = rand_res(rng, 3)
    if res["k"] == "list" and rng.random() < 0.1:
        res["v"].append(rng.choice(res["v"]))
    e = dict(ev="add", arg=arg, res=res, m=rand_method(rng, res), prio=rng.choice([0, 0, 0, 1, 1, 2, -1, 5]), th=rng.choice([0, 0, 0, 4, 8, 20]) * U, grp=NONE)
    if groups and not first:
        e["grp"] = g_group(rng, len(b["cells"]), cg, simple=tr)
    elif not first and rng.random() < 0.2:
        e["grp"] = dict(k="name", v="G1")
    return e


def g_case(rng, groups=False, kinds=("2D", "struct", "struct", "unstr", "unstr")):
    k = rng.choice(kinds)
    b = base2d(rng) if k == "2D" else base_struct(rng) if k == "struct" else base_unstr(rng)
    nw = new(rng, b, groups)
    ops = [nw]
    nit = rng.randint(2, 5) if not groups else rng.randint(2, 3)
    cur, cg = b, nw["cg"]
    trans = k == "2D" and rng.random() < 0.6 and b["form"] == "array"
    hasadd = 0
    gens = set()
    if rng.random() < 0.5:
        gens.add(rng.randint(2, nit))
    for i in range(nit):
        tr = trans and i == nit // 2 and i > 0
        if tr:
            lo, hi = cur["pts"][0][cur["axis"] % 3], cur["pts"][-1][cur["axis"] % 3]
            m = rng.randint(2, 4)
            span = (hi - lo) // U
            if span < m:
                tr = trans = False
            else:
                xs = sorted({lo, hi} | {lo + rng.randint(1, span - 1) * U for _ in range(m - 2)})
                np_, was = [[0, 0, 0] for _ in xs], cur
                for p, v in zip(np_, xs):
                    p[cur["axis"] % 3] = v
                cur = dict(cur, pts=np_, cells=[[j + 1, j + 2] for j in range(len(xs) - 1)])
                t = cur["axis"] % 3
                o = dict(ev="settr", pts=np_, cells=cur["cells"], n=0)
                old, n = was["pts"], rng.randint(1, 6)
                if rng.random() < 0.4 and (hi - lo) % n == 0 and all(a[t] < b[t] for a, b in zip(old, old[1:])) and not any(p[k] for p in old for k in range(3) if k != t):
                    o["n"] = n          # the number of regular intervals instead of a line
                    o["pts"] = [[lo + (hi - lo) // n * j if k == t else 0 for k in range(3)] for j in range(n + 1)]
                    o["cells"] = [[j + 1, j + 2] for j in range(n)]
                    cur = dict(cur, pts=o["pts"], cells=o["cells"])
                ops.append(o)
        arg = g_arg(rng, cur, i == 0)
        if tr or trans:
            # a transition joins two lines that do not touch
            h = (i * 40 + rng.randint(0, 10)) * U * (1 if nw["up"] else -1)
            arg = dict(k="vals", v=[h + rng.randint(0, 10) * U * (1 if nw["up"] else -1) for _ in cur["pts"]])
        if arg["k"] == "bad":
            ops.append(add(rng, cur, i == 0, arg, groups, cg, tr))
            arg = dict(k="vals", v=[rng.randint(-60, 60) * U for _ in cur["pts"]])
        if rng.random() < 0.03:
            ops.append(add(rng, cur, i == 0, dict(rng.choice(BADARGS)), groups, cg, tr))
        o = add(rng, cur, i == 0, arg, groups, cg, tr or trans)
        if trans:
            o["th"], o["prio"] = 0, 0
            if o["grp"]["k"] == "rules":
                o["grp"] = NONE
        ops.append(o)
        if i + 1 in gens:
            ops.append(dict(ev="gen"))
    ops.append(dict(ev="gen"))
    if rng.random() < 0.15:
        ops.append(dict(ev="gen"))
    return dict(ops=ops)


def from_model(rng, x):
    """items of the model over one base point become columns of a small base"""
    b = rng.choice([lambda: base2d(rng, n=3), lambda: base_struct(rng, n1=2, n2=2), lambda: base_struct(rng, n1=3, n2=2)])()
    nw = new(rng, b)
    nw.update(up=x["up"], cg=[])
    ops = [nw]
    for i, it in enumerate(x["items"]):
        z = [it["z"]] + [rng.choice([0, 1, 3]) for _ in b["pts"][1:]]
        res = rand_res(rng, 2)
        ops.append(dict(ev="add", arg=dict(k="vals", v=[8 * U * v for v in z]), res=res, m=rand_method(rng, res), prio=it["p"], th=8 * U * it["t"], grp=NONE))
    ops.append(dict(ev="gen"))
    return dict(ops=ops)


def from_groups(rng, x):
    b = base_struct(rng, n1=4, n2=2)
    nw = new(rng, b)
    nw.update(cg=x["cg"], ignore=x["ignore"], extra=rng.random() < 0.3)
    rules = [dict(r, sel=dict(r["sel"], fn=rng.random() < 0.25 and r["sel"]["k"] != "names", form="list")) for r in x["rules"]]
    g = dict(k="rules", v=rules) if rules else NONE
    ops = [nw, dict(ev="add", arg=dict(k="const", v=0), res=NONE, m="", prio=0, th=0, grp=NONE),
           dict(ev="add", arg=dict(k="const", v=8 * U), res=NONE, m="", prio=0, th=0, grp=g)]
    if rng.random() < 0.4:
        ops.append(dict(ev="add", arg=dict(k="const", v=8 * U), res=dict(k="int", n=2), m="", prio=0, th=0, grp=g_group(rng, 3, x["cg"], bad=False)))
    return dict(ops=[*ops, dict(ev="gen")])


def g_newbad(rng):
    return dict(ops=[dict(ev="newbad", why=rng.choice(["axis", "dims", "3d", "line", "2dface"]))])


def real_sel(sel, size):
    import numpy as np
    k = sel["k"]
    if k == "bad":
        return np.array([0.5, 1.0]) if sel["form"] == "float" else [0.0, 1.0]
    if k == "names":
        v = [("~" if x["neg"] else "") + x["name"] for x in sel["v"]]
        v = v[0] if sel["form"] == "str" else tuple(v) if sel["form"] == "tuple" else np.array(v) if sel["form"] == "np" else v
    elif k == "mask":
        v = np.array(sel["v"], dtype=bool) if sel["form"] == "np" else [bool(x) for x in sel["v"]]
    else:
        v = sel["v"]
        v = v[0] if sel["form"] == "scalar" else np.array(v, dtype=int) if sel["form"] == "np" else tuple(v) if sel["form"] == "tuple" else list(v)
        if not sel["v"]:
            v = np.array([], dtype=int)
    return (lambda mesh: np.atleast_1d(np.asarray(v))) if sel.get("fn") else v


def real_group(g):
    if g["k"] == "none":
        return None
    if g["k"] == "name":
        return g["v"]
    return {("~" if r["neg"] else "") + r["key"]: real_sel(r["sel"], 0) for r in g["v"]}


def set_groups(me, cg, extra):
    import numpy as np
    names = sorted(set(cg), reverse=True)
    if extra:
        names = ["unused", *names, "unused2"]
    table = {x: i for i, x in enumerate(names)}
    me.cell_data["CellGroup"] = np.array([table[x] for x in cg])
    me.user_dict["CellGroup"] = table


def mesh_of(b, p2=1.0):
    import numpy as np, pyvista as pv
    from harness.proj import K
    p = np.array(b["pts"], float) / K * p2
    if b["kind"] == "2D":
        return pv.MultipleLines(p)
    if b["kind"] == "struct":
        if b["form"] == "rect":
            return pv.RectilinearGrid(*[np.unique(p[:, i]) for i in range(3)])
        me = pv.StructuredGrid()
        me.points = p
        me.dimensions = b["dims"]
        return me
    cells = [[i - 1 for i in x] for x in b["cells"]]
    return pv.UnstructuredGrid(np.concatenate([[len(x), *x] for x in cells]), b["types"], p)


def project(me, item, cd, p2=1.0):
    """cells of a generated mesh with their provenance"""
    import numpy as np, pvgridder as pvg
    from harness.proj import scs, cells_of
    g = pvg.get_cell_group(me)
    table = dict(me.user_dict["CellGroup"])
    inv = {int(v): k for k, v in table.items()}
    nums = [int(x) for x in me.cell_data["CellGroup"]]
    hid = [int(x) == 32 for x in me.cell_data["vtkGhostType"]] if "vtkGhostType" in me.cell_data else [False] * me.n_cells
    m2 = me.copy()
    m2.cell_data.pop("vtkGhostType", None)
    cl, _ = cells_of(m2)
    p = scs(np.asarray(me.points, float) / p2)
    col, lay, it = me.cell_data["ColumnId"], me.cell_data["LayerId"], me.cell_data[item]
    q = me.cell_data["q"] if cd else [0] * me.n_cells
    cells = [dict(col=int(col[i]), lay=int(lay[i]), item=int(it[i]), hid=hid[i], grp=inv.get(nums[i], "?"), num=nums[i], cd=int(q[i]),
                  pts=[p[v - 1] for v in cl[i]]) for i in range(me.n_cells)]
    return cells, [dict(name=str(k), num=int(v)) for k, v in table.items()], [str(x) for x in g]


class S(Suite):
    trace = "Trace_Stack"

    def models(self, prop, tier):
        if prop == "C08":
            return [dict(module="MC_Groups", cfg="MC_Groups.cfg", name="groups")]
        return [dict(module="MC_Stack", cfg="MC_Stack.cfg" if tier == "quick" else "MC_Stack4.cfg", name="stack")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 8
        out = []
        if prop == "C08":
            out += [from_groups(rng, x) for x in rng.sample(beh["groups"], min(len(beh["groups"]), 160 * n))]
            out += [g_case(rng, True, ("struct", "unstr", "2D")) for _ in range(140 * n)]
        elif prop == "C06":
            out += [from_model(rng, x) for x in rng.sample(beh["stack"], min(len(beh["stack"]), 140 * n))]
            out += [g_case(rng) for _ in range(170 * n)]
            out += [g_newbad(rng) for _ in range(12)]
        else:
            out += [from_model(rng, x) for x in rng.sample(beh["stack"], min(len(beh["stack"]), 60 * n))]
            out += [g_case(rng, rng.random() < 0.3) for _ in range(170 * n)]
        for x in out:
            if rng.random() < 0.2:
                x["p2"] = rng.choice([-14, -7, 7, 14])
        return alias_names(rng, out)

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, sc, K
        p2 = 2.0 ** c.get("p2", 0)      # the same stack at another scale
        out, st, cd, tu = [], None, [], 1
        f = lambda p: np.array(p, float) / K * p2
        for o in c["ops"]:
            if o["ev"] == "newbad":
                g = pv.StructuredGrid(*np.meshgrid([0.0, 1, 2], [0.0, 1], [0.0]))
                calls = {"axis": lambda: pvg.MeshStack3D(g, axis=3), "dims": lambda: pvg.MeshStack3D(g, axis=0),
                         "3d": lambda: pvg.MeshStack3D(pv.ImageData(dimensions=(3, 3, 3))), "line": lambda: pvg.MeshStack3D(pv.Line().cast_to_unstructured_grid()),
                         "2dface": lambda: pvg.MeshStack2D(pv.Plane())}
                _, exc = attempt(calls[o["why"]])
                out.append(dict(ev="newbad", exc=exc))
            elif o["ev"] == "new":
                kw = dict(axis=o["axis"] - 1, bottom_up=o["up"], default_group=o["def"] or None, ignore_groups=o["ignore"] or None)
                cd = o["cd"]
                if o["kind"] == "2D" and o["form"] == "array":
                    tu = o["axis"] % 3 + 1
                    b = f(o["pts"])[:, tu - 1]
                    b = list(b) if len(b) % 2 else b
                    st, exc = attempt(lambda: pvg.MeshStack2D(b, **kw))
                else:
                    b = mesh_of(o, p2)
                    if o["cg"]:
                        set_groups(b, o["cg"], o["extra"])
                    if cd:
                        b.cell_data["q"] = np.array(cd)
                    st, exc = attempt(lambda: (pvg.MeshStack2D if o["kind"] == "2D" else pvg.MeshStack3D)(b, **kw))
                out.append(dict({k: o[k] for k in ("ev", "pts", "cells", "cg", "cd", "ignore", "def", "axis", "up")}, exc=exc))
            elif o["ev"] == "settr":
                st.set_transition(o["n"] if o.get("n") else pv.MultipleLines(f(o["pts"])))
                out.append(dict(ev="settr", pts=o["pts"], cells=o["cells"]))
            elif o["ev"] == "add":
                a = o["arg"]
                kw = dict(resolution=real_res(o["res"]), method=real_m(o["m"]), priority=o["prio"], thickness=o["th"] / K * p2, group=real_group(o["grp"]))
                if a["k"] == "const":
                    x = a["v"] / K * p2
                elif a["k"] == "vals":
                    v = f(a["v"])
                    x = lambda *_: v
                elif a["k"] == "affine":
                    k = a["c"]
                    x = lambda x, y, z: k[3] / K * p2 + k[0] * x + k[1] * y + k[2] * z
                elif a["k"] == "plane":
                    x = None
                elif a["k"] in ("nodes", "line") or a.get("why") == "data":
                    p = f(a["pts"])
                    x = p if a["form"] == "array" else pv.PolyData(p) if a["form"] == "poly" else pv.PolyData(p).cast_to_unstructured_grid()
                    kw["extrapolation"] = "nearest" if a.get("near") else None
                else:
                    x = {"1d": [0.0, 1.0, 2.0], "2cols": [[0.0, 1.0], [1.0, 2.0]], "3d": np.zeros((2, 2, 3))}[a["why"]]
                if a["k"] == "plane":
                    ang = [0.0, 0.0, 0.0]
                    ang[a["r"] - 1] = a["h"] / 2
                    ang[st.axis] = a["g"]
                    _, exc = attempt(lambda: st.add_plane(ang, f(a["p"]), **kw))
                else:
                    _, exc = attempt(lambda: st.add(x, **kw))
                out.append(dict(ev="add", arg=a, res=o["res"], m=o["m"], prio=o["prio"], th=o["th"], grp=o["grp"], exc=exc))
            else:
                me, exc = attempt(lambda: st.generate_mesh())
                e = dict(ev="gen", exc=exc, cells=[], table=[], names=[], tu=tu)
                if not exc:
                    e["cells"], e["table"], e["names"] = project(me, "StackItem", cd, p2)
                out.append(e)
        return out


SUITE = S()
