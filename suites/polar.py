"""C03: annular sectors, sectors, cylindrical shells, rectangle/sector combinations."""
from harness.util import *

U = 1250


def ctr(rng, three=False):
    k = rng.choice([0, 3] if three else [0, 2, 3])
    v = [rng.randint(-80, 80) * U for _ in range(3)]
    if k == 0:
        v = [0, 0, 0]
    if k == 2:
        v[2] = 0
    return v, k


def angles(rng):
    r = rng.random()
    if r < 0.3:
        return 0, 720
    t0 = rng.randint(0, 700)
    t1 = rng.randint(0, 720)
    if r < 0.7 and t1 < t0:
        t0, t1 = t1, t0
    if rng.random() < 0.4:      # beyond a full turn
        k = rng.choice([360, 400, 650])
        t0, t1 = t0 + k, t1 + k
    return t0, t1


def g_polar(rng):
    solid = rng.random() < 0.5
    t0, t1 = angles(rng)
    ri = rng.choice([0, rng.randint(0, 40)]) * U
    ro = ri + rng.randint(1, 40) * U
    r = rng.random()
    if r < 0.06:
        ri, ro = ro, ri
    elif r < 0.1:
        ro = ri
    elif r < 0.14:
        ri = -max(ri, U)
    tres, rres, zres = rand_res(rng, 8), rand_res(rng, 5), rand_res(rng, 4)
    if t0 == t1:
        t1 += 2
    c, cn = ctr(rng, solid)
    g = dict(kind="polar", ri=ri, ro=ro, t0=t0, t1=t1, tres=tres, tm=rand_method(rng, tres), rres=rres, rm=rand_method(rng, rres),
             solid=solid, h=2 * rng.randint(1, 40) * U, zres=zres, zm=rand_method(rng, zres), center=c, cn=cn)
    if rng.random() < 0.05:
        k, m = rng.choice([("tres", "tm"), ("rres", "rm")])
        g[k], g[m] = dict(k="int", n=2), "expo"
    return g


def g_sector(rng):
    t0, t1 = angles(rng)
    res = rand_res(rng, 10)
    c, cn = ctr(rng)
    r = rng.randint(1, 60) * U
    if rng.random() < 0.1:
        r = rng.choice([0, -r])
    return dict(kind="sector", r=r, t0=t0, t1=t1, res=res, m=rand_method(rng, res), center=c, cn=cn)


def g_mixed(rng):
    ins = rng.choice(["rect", "sector"])
    dx, dy = rng.randint(2, 40) * U, rng.randint(2, 40) * U
    c, cn = ctr(rng)
    xres = rand_res(rng, 6)
    yres = xres if ins == "sector" or rng.random() < 0.2 else rand_res(rng, 6)
    rres = rand_res(rng, 5)
    xm = rand_method(rng, xres)
    ym = xm if yres is xres else rand_method(rng, yres)
    q = ((dx // U) ** 2 + (dy // U) ** 2) ** 0.5
    r = (int(q) + 1 + rng.randint(1, 20)) * U if ins == "rect" else rng.randint(1, min(dx, dy) // U - 1) * U
    if rng.random() < 0.15:
        r = rng.choice([0, -U, int(q * 0.8) * U or U, int(q) * U if q != int(q) else U, min(dx, dy), max(dx, dy)])
        if ins == "rect" and (r // U) ** 2 == (dx // U) ** 2 + (dy // U) ** 2:
            r = U
    sq = False
    if rng.random() < 0.25:
        sq, dy, yres, ym = True, dx, xres, xm
        q = (dx // U) * 2 ** 0.5
        r = (int(q) + 1 + rng.randint(1, 20)) * U if ins == "rect" else rng.randint(1, dx // U - 1) * U
    return dict(kind="mixed", inside=ins, r=r, dx=dx, dy=dy, xres=xres, xm=xm, yres=yres, ym=ym, rres=rres, rm=rand_method(rng, rres), center=c, cn=cn, sq=sq)


class S(Suite):
    trace = "Trace_Polar"

    def models(self, prop, tier):
        return [dict(module="MC_Polar", cfg="MC_Polar.cfg", name="polar")]

    def cases(self, prop, rng, tier, beh):
        n = 1 if tier == "quick" else 12
        out = []
        for x in rng.sample(beh["polar"], min(len(beh["polar"]), 250 * n)):
            if x["kind"] == "mixed" and x["inside"] == "sector":
                x = dict(x, yres=x["xres"], ym=x["xm"])
            out.append(dict(x, cn=3 if any(x["center"]) else 0, sq=False))
        for g, k in ((g_polar, 260), (g_sector, 120), (g_mixed, 220)):
            out += [g(rng) for _ in range(k * n)]
        for g, k in ((g_polar, 60), (g_sector, 20), (g_mixed, 40)):      # default sizes
            for _ in range(k * n):
                x = g(rng)
                D = dict(ri=4, ro=8, h=8) if x["kind"] == "polar" else dict(r=8) if x["kind"] == "sector" else dict(r=8, dx=4, dy=4) if x["inside"] == "rect" else dict(r=4, dx=8, dy=8)
                for q, v in D.items():
                    if q in x and (x["kind"] == "mixed" or rng.random() < 0.7):
                        x[q] = v * U
                if "t0" in x and rng.random() < 0.5:
                    x["t0"], x["t1"] = 0, 180
                if x.get("ri", 0) <= x.get("ro", 1) and x.get("r", 1) > 0:
                    out.append(dict(x, turn=0, p2=0))
        for x in out:
            if "turn" in x:
                continue
            x["turn"] = rng.choice([0, 0, 1, 2])
            if rng.random() < 0.25:
                x["p2"] = rng.choice([-17, -10, -5, 10, 17])
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, K, cells_of
        p2 = 2.0 ** c.get("p2", 0)
        f = lambda x: x / K * p2
        ctr = None if not c["cn"] else [x / K * p2 for x in c["center"]][: c["cn"]]
        R, M = real_res, real_m
        args = {k: v for k, v in c.items() if k not in ("case", "cn", "sq", "p2", "turn")}
        hid = lambda me: [int(x) == 32 for x in me.cell_data["vtkGhostType"]] if "vtkGhostType" in me.cell_data else []
        e = dict(ev="make", args=args, dims=[], pts=[], hid=[], cells=[], np=0)
        if c["kind"] == "polar":
            full = c["t0"] == 0 and c["t1"] == 720
            kw = dict(r_resolution=R(c["rres"]), theta_resolution=R(c["tres"]), r_method=M(c["rm"]), theta_method=M(c["tm"]), center=ctr)
            if c["solid"]:
                kw.update(height=f(c["h"]), z_resolution=R(c["zres"]), z_method=M(c["zm"]))
            if not full:
                kw.update(theta_min=c["t0"] / 2 - 360 * c["turn"], theta_max=c["t1"] / 2 - 360 * c["turn"])
            fn = {(0, 0): pvg.AnnularSector, (0, 1): pvg.Annulus, (1, 0): pvg.CylindricalShellSector, (1, 1): pvg.CylindricalShell}[int(c["solid"]), int(full)]
            me, e["exc"] = attempt(lambda: fn(f(c["ri"]), f(c["ro"]), **kw))
            if not e["exc"]:
                e.update(dims=list(me.dimensions), pts=scs(np.asarray(me.points, float) / p2), hid=hid(me))
            return [e]
        if c["kind"] == "sector":
            full = c["t0"] == 0 and c["t1"] == 720
            kw = dict(resolution=R(c["res"]), method=M(c["m"]), center=ctr)
            if not full:
                kw.update(theta_min=c["t0"] / 2 - 360 * c["turn"], theta_max=c["t1"] / 2 - 360 * c["turn"])
            me, e["exc"] = attempt(lambda: (pvg.Circle if full else pvg.Sector)(f(c["r"]), **kw))
        else:
            kw = dict(r_resolution=R(c["rres"]), r_method=M(c["rm"]), center=ctr)
            if c["inside"] == "rect":
                if c["sq"]:
                    call = lambda: pvg.SquareSector(f(c["dx"]), f(c["r"]), x_resolution=R(c["xres"]), x_method=M(c["xm"]), **kw)
                else:
                    call = lambda: pvg.RectangleSector(f(c["dx"]), f(c["dy"]), f(c["r"]), x_resolution=R(c["xres"]), x_method=M(c["xm"]),
                                                       y_resolution=R(c["yres"]), y_method=M(c["ym"]), **kw)
            elif c["sq"]:
                call = lambda: pvg.SectorSquare(f(c["r"]), f(c["dx"]), theta_resolution=R(c["xres"]), theta_method=M(c["xm"]), **kw)
            else:
                call = lambda: pvg.SectorRectangle(f(c["r"]), f(c["dx"]), f(c["dy"]), theta_resolution=R(c["xres"]), theta_method=M(c["xm"]), **kw)
            me, e["exc"] = attempt(call)
        if not e["exc"]:
            e["np"] = me.n_points
            e["hid"] = hid(me)
            if "vtkGhostType" in me.cell_data:
                me = me.copy()
                me.clear_cell_data()
            cl, _ = cells_of(me)
            p = scs(np.asarray(me.points, float) / p2)
            e["cells"] = [[p[i - 1] for i in x] for x in cl]
        return [e]


SUITE = S()
