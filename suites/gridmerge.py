"""C11: merge() of structured grids along an axis, and of general meshes."""
from harness.util import *
from suites.merger import g_mesh, build

U = 1250


def flat(d, x):
    return x[0] + d[0] * (x[1] + d[1] * x[2])


def idx(d):
    return [[i, j, k] for k in range(d[2]) for j in range(d[1]) for i in range(d[0])]


def cdims(d):
    return [max(1, n - 1) for n in d]


def cut(rng, d, ax, cuts, mangle=None, nodata=False):
    """a warped grid of shape d cut at the given (1-based) positions along ax (1-based)"""
    a = ax - 1
    step = [rng.randint(2, 9) for _ in range(3)]
    pts = {tuple(x): [(x[c] * step[c] * 8 + rng.randint(-3, 3)) * U for c in range(3)] for x in idx(d)}
    b = [1, *cuts, d[a]]
    keys = [k for k in ("i", "f", "v", "w") if rng.random() < 0.5]
    if nodata:
        keys = []
    n, out = 0, []
    for lo, hi in zip(b[:-1], b[1:]):
        e = list(d)
        e[a] = hi - lo + 1
        p = []
        for x in idx(e):
            y = list(x)
            y[a] += lo - 1
            p.append(list(pts[tuple(y)]))
        nc = 1
        for v in cdims(e):
            nc *= v
        data = []
        for k in keys:
            if rng.random() < 0.9:
                w = {"i": 1, "f": 1, "v": 3, "w": 2}[k]
                data.append(dict(name=k, v=[[(n + q) * 10 + z for z in range(w)] for q in range(nc)]))
        n += 100
        rng.shuffle(data)
        out.append(dict(dims=e, pts=p, data=data))
    return out


def g_moved(rng, ax, c, pair):
    """coordinate c of one point of an interface along ax is off (or exchanged with that of another point)"""
    d = [rng.randint(2, 4) for _ in range(3)]
    d[ax - 1] = rng.randint(3, 5)
    G = cut(rng, d, ax, sorted(rng.sample(range(2, d[ax - 1]), rng.randint(1, d[ax - 1] - 2))))
    i = rng.randint(1, len(G) - 1)
    on = [k for k, x in enumerate(idx(G[i]["dims"])) if x[ax - 1] == 0]
    p, q = rng.sample(on, 2)
    P = G[i]["pts"]
    if pair:
        P[p][c], P[q][c] = P[q][c] + (U if P[p][c] == P[q][c] else 0), P[p][c] - (U if P[p][c] == P[q][c] else 0)
    else:
        P[p][c] += rng.choice([-1, 1]) * rng.choice([1, 8, 80]) * U
    return dict(ev="grids", grids=G, axis=ax)


def g_grids(rng, d=None, ax=None, cuts=None):
    while d is None:
        d = [rng.randint(1, 4) for _ in range(3)]
        if sum(v > 1 for v in d) < 2:
            d = None
    if ax is None:
        ax = rng.choice([a for a in (1, 2, 3) if d[a - 1] >= 2])
        d[ax - 1] = rng.randint(3, 6)
        cuts = sorted(rng.sample(range(2, d[ax - 1]), rng.randint(1, min(3, d[ax - 1] - 2))))
    G = cut(rng, d, ax, cuts)
    r = rng.random()
    axis = ax
    if r < 0.05:
        axis = 0
    elif r < 0.3:
        how = rng.choice(["swap", "move", "size", "gap", "axis"])
        if how == "swap":
            G = G[::-1]
        elif how == "move":
            # displace one point of one interface
            i = rng.randint(1, len(G) - 1)
            e = G[i]["dims"]
            on = [k for k, x in enumerate(idx(e)) if x[ax - 1] == 0]
            G[i]["pts"][rng.choice(on)][rng.randint(0, 2)] += rng.choice([-1, 1]) * rng.choice([1, 8, 80]) * U
        elif how == "size":
            c = rng.choice([c for c in range(3) if c != ax - 1])
            d2 = list(d)
            d2[c] += 1
            G[-1] = cut(rng, d2, ax, cuts)[-1]
        elif how == "gap":
            if len(G) > 2:
                del G[1]
            else:
                G = G[::-1]
        else:
            axis = rng.choice([a for a in (1, 2, 3) if a != ax])
            if any(g["dims"][axis - 1] < 2 for g in G):
                axis = ax
    return dict(ev="grids", grids=G, axis=axis)


def g_mixed(rng):
    site = [rng.randint(-20, 20) for _ in range(3)]
    n = rng.randint(2, 4)
    M = [g_mesh(rng, site, 0) for _ in range(n)]
    kinds = [m["kind"] for m in M]
    if all(k == "struct" for k in kinds):
        M[0] = g_mesh(rng, site, 0, "quads")
    keys = [k for k in ("i", "v") if rng.random() < 0.6]
    q = 0
    for m in M:
        m["ud"], m["pd"], m["table"], m["gh"] = rng.random() < 0.4, False, "none", False
        m["data"] = [dict(name=k, v=[[(q + i) * 10 + z for z in range(1 if k == "i" else 3)] for i in range(len(m["cells"]))]) for k in keys if rng.random() < 0.9]
        q += 50
    if rng.random() < 0.35:      # hidden flags are cell data like any other
        for m in M:
            if rng.random() < 0.95:
                m["data"].append(dict(name="h", v=[[rng.choice([0, 0, 32])] for _ in m["cells"]]))
    return dict(ev="mixed", ins=M, share=rng.random() < 0.5)


def g_single(rng):
    return dict(ev="single", m=g_mesh(rng, [0, 0, 0], 0, rng.choice(["quads", "struct"])), axis=rng.choice([None, 0]))


class S(Suite):
    trace = "Trace_GridMerge"

    def models(self, prop, tier):
        return [dict(module="MC_GridMerge", cfg="MC_GridMerge.cfg", name="grids")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = [dict(ev="grids", grids=cut(rng, x["d"], x["ax"], x["cuts"]), axis=x["ax"]) for x in beh["grids"]]
        out += [g_moved(rng, ax, c, pair) for ax in (1, 2, 3) for c in range(3) for pair in (False, True) for _ in range(2 * n)]
        for x in out:
            if rng.random() < 0.3:
                for g in x["grids"]:
                    g["data"].append(dict(name="h", v=[[rng.choice([0, 0, 32])] for _ in range(max(1, g["dims"][0] - 1) * max(1, g["dims"][1] - 1) * max(1, g["dims"][2] - 1))]))
        out += [g_grids(rng) for _ in range(250 * n)]
        out += [g_mixed(rng) for _ in range(200 * n)]
        return out + [g_single(rng) for _ in range(6)]

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, cells_of, data_ints, K

        def put(me, data):
            for x in data:
                if x["name"] == "h":
                    me.cell_data["vtkGhostType"] = np.array(x["v"], np.uint8)[:, 0]
                    continue
                v = np.array(x["v"], float if x["name"] in "fv" else int)
                me.cell_data[x["name"]] = v[:, 0] if v.shape[1] == 1 else v

        def get(me):
            return [dict(name=str(k), v=data_ints(me.cell_data[k])) for k in me.cell_data if k in "ifvw"] + [dict(name="h", v=data_ints(me.cell_data["vtkGhostType"])) for k in me.cell_data if k == "vtkGhostType"]

        e = dict(ev=c["ev"])
        if c["ev"] == "grids":
            G = []
            for g in c["grids"]:
                me = pv.StructuredGrid()
                me.points = np.array(g["pts"], float) / K
                me.dimensions = g["dims"]
                put(me, g["data"])
                G.append(me)
            me, exc = attempt(lambda: pvg.merge(G, axis=c["axis"] - 1 if c["axis"] else None))
            e.update(grids=c["grids"], axis=c["axis"], exc=exc, out=dict(dims=[], pts=[], data=[]))
            if not exc:
                e["out"] = dict(dims=[int(v) for v in me.dimensions], pts=scs(me.points), data=get(me))
        elif c["ev"] == "mixed":
            M = []
            for m in c["ins"]:
                me = build(m)
                put(me, m["data"])
                M.append(me)
            me, exc = attempt(lambda: pvg.merge(M if len(M) % 2 else tuple(M), axis=None, merge_points=c["share"]))
            e.update(ins=[dict({k: m[k] for k in ("pts", "cells")}, data=[x for x in m["data"]]) for m in c["ins"]], share=c["share"], exc=exc, out=dict(pts=[], cells=[], data=[]))
            if not exc:
                cl, ty = cells_of(me)
                e["out"] = dict(pts=scs(me.points, 1e6), cells=[dict(ids=x, type=t) for x, t in zip(cl, ty)], data=get(me))
        else:
            m = build(c["m"])
            me, exc = attempt(lambda: pvg.merge([m], axis=c["axis"]))
            e.update(exc=exc, same=bool(me == m) if not exc else False)
        return [e]


SUITE = S()
