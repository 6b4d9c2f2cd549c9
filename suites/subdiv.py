"""C01: relative positions of the subdivisions produced by every public entry point."""
from harness.util import *

ENTRIES = {}


def entry(name, method=True, kind="edge", tol=60, nmax=12):
    def w(f):
        ENTRIES[name] = dict(f=f, method=method, kind=kind, tol=tol, nmax=nmax)
        return f
    return w


def rel(v, a, b):
    import numpy as np
    return (np.asarray(v, float) - a) / (b - a)


@entry("rectangle.x")
def _(pvg, pv, np, r, m, g):
    me = pvg.Rectangle(g[0], g[1], x_resolution=r, x_method=m, y_resolution=2)
    assert all(np.allclose(me.x[:, j, 0], me.x[:, 0, 0]) for j in range(3))
    return rel(me.x[:, 0, 0], 0, g[0])


@entry("rectangle.y")
def _(pvg, pv, np, r, m, g):
    me = pvg.Rectangle(g[0], g[1], y_resolution=r, y_method=m, x_resolution=2)
    return rel(me.y[0, :, 0], 0, g[1])


@entry("square.x")
def _(pvg, pv, np, r, m, g):
    me = pvg.Square(g[0], resolution=r, method=m)
    return rel(me.x[:, 0, 0], 0, g[0])


@entry("square.y")
def _(pvg, pv, np, r, m, g):
    me = pvg.Square(g[0], resolution=r, method=m)
    return rel(me.y[0, :, 0], 0, g[0])


@entry("quad.x")
def _(pvg, pv, np, r, m, g):
    me = pvg.Quadrilateral([(0, 0), (g[0], 0), (g[0] + 1, g[1]), (0, g[1])], x_resolution=r, x_method=m)
    return rel(me.x[:, 1, 0], 0, g[0] + 1)


@entry("quad.y")
def _(pvg, pv, np, r, m, g):
    me = pvg.Quadrilateral([(0, 0), (g[0], 0), (g[0] + 1, g[1]), (0, g[1])], y_resolution=r, y_method=m)
    return rel(me.y[1, :, 0], 0, g[1])


def polar(me, np):
    x, y = me.x, me.y
    return np.hypot(x, y), np.unwrap(np.arctan2(y, x), axis=0)


@entry("annularsector.r")
def _(pvg, pv, np, r, m, g):
    me = pvg.AnnularSector(g[0], g[0] + g[1], 10.0, 100.0, r_resolution=r, r_method=m)
    return rel(polar(me, np)[0][0, :, 0], g[0], g[0] + g[1])


@entry("annularsector.theta")
def _(pvg, pv, np, r, m, g):
    me = pvg.AnnularSector(g[0], g[0] + g[1], 10.0, 100.0, theta_resolution=r, theta_method=m)
    return rel(np.rad2deg(polar(me, np)[1][:, 1, 0]), 10.0, 100.0)


@entry("annulus.r")
def _(pvg, pv, np, r, m, g):
    me = pvg.Annulus(g[0], g[0] + g[1], r_resolution=r, r_method=m, theta_resolution=8)
    return rel(polar(me, np)[0][2, :, 0], g[0], g[0] + g[1])


@entry("sector")
def _(pvg, pv, np, r, m, g):
    me = pvg.Sector(g[0], -20.0, 70.0, resolution=r, method=m)
    p = me.points[1:]
    return rel(np.rad2deg(np.arctan2(p[:, 1], p[:, 0])), -20.0, 70.0)


@entry("cylshellsector.z")
def _(pvg, pv, np, r, m, g):
    me = pvg.CylindricalShellSector(g[0], g[0] + 1, 0.0, 45.0, g[1], z_resolution=r, z_method=m)
    return rel(me.z[0, 0, :], -g[1] / 2, g[1] / 2)


@entry("cylshell.r")
def _(pvg, pv, np, r, m, g):
    me = pvg.CylindricalShell(g[0], g[0] + 1, g[1], r_resolution=r, r_method=m, theta_resolution=4)
    return rel(np.hypot(me.x[1, :, 0], me.y[1, :, 0]), g[0], g[0] + 1)


@entry("cylshell.z")
def _(pvg, pv, np, r, m, g):
    me = pvg.CylindricalShell(g[0], g[0] + 1, g[1], z_resolution=r, z_method=m, theta_resolution=4)
    return rel(me.z[1, 1, :], -g[1] / 2, g[1] / 2)


@entry("cylshellsector.theta")
def _(pvg, pv, np, r, m, g):
    me = pvg.CylindricalShellSector(g[0], g[0] + 1, 15.0, 60.0, g[1], theta_resolution=r, theta_method=m)
    return rel(np.rad2deg(np.arctan2(me.y[:, 1, 1], me.x[:, 1, 1])), 15.0, 60.0)


@entry("sectorrectangle.theta")
def _(pvg, pv, np, r, m, g):
    me = pvg.SectorRectangle(0.5, g[0], g[1], theta_resolution=r, theta_method=m)
    x = me.points[np.isclose(me.points[:, 1], g[1])][:, 0]
    return np.sort(np.unique(np.round(rel(x, g[0], 0.0), 7)))


@entry("sectorrectangle.r")
def _(pvg, pv, np, r, m, g):
    me = pvg.SectorRectangle(0.5, g[0], g[1], r_resolution=r, r_method=m)
    x = me.points[np.abs(me.points[:, 1]) < 1e-9][:, 0]
    return np.sort(np.unique(np.round(rel(x, 0.5, g[0]), 7)))


@entry("rectanglesector.x")
def _(pvg, pv, np, r, m, g):
    me = pvg.RectangleSector(g[0], g[1], 20.0, x_resolution=r, x_method=m)
    x = me.points[np.isclose(me.points[:, 1], g[1]) & (me.points[:, 0] <= g[0] + 1e-9)][:, 0]
    return np.sort(np.unique(np.round(rel(x, g[0], 0.0), 7)))


@entry("rectanglesector.r")
def _(pvg, pv, np, r, m, g):
    me = pvg.RectangleSector(g[0], g[1], 20.0, r_resolution=r, r_method=m)
    x = me.points[np.abs(me.points[:, 1]) < 1e-9][:, 0]
    return np.sort(np.unique(np.round(rel(x, g[0], 20.0), 7)))


@entry("squaresector.r")
def _(pvg, pv, np, r, m, g):
    me = pvg.SquareSector(g[0], 20.0, r_resolution=r, r_method=m)
    x = me.points[np.abs(me.points[:, 1]) < 1e-9][:, 0]
    return np.sort(np.unique(np.round(rel(x, g[0], 20.0), 7)))


@entry("squaresector.x")
def _(pvg, pv, np, r, m, g):
    me = pvg.SquareSector(g[0], 20.0, x_resolution=r, x_method=m)
    y = me.points[np.isclose(me.points[:, 0], g[0]) & (me.points[:, 1] <= g[0] + 1e-9)][:, 1]
    return np.sort(np.unique(np.round(rel(y, g[0], 0.0), 7)))


@entry("sectorsquare.r")
def _(pvg, pv, np, r, m, g):
    me = pvg.SectorSquare(0.5, g[0], r_resolution=r, r_method=m)
    x = me.points[np.abs(me.points[:, 0]) < 1e-9][:, 1]
    return np.sort(np.unique(np.round(rel(x, 0.5, g[0]), 7)))


@entry("structuredsurface")
def _(pvg, pv, np, r, m, g):
    me = pvg.StructuredSurface([(0, 0, 0), (1, 0, 0)], [(0, g[1], 0), (1, g[1], 0)], "xy", r, m)
    return rel(me.y[0, :, 0], 0, g[1])


@entry("volume.structured")
def _(pvg, pv, np, r, m, g):
    a = pvg.Rectangle(g[0], 1.0, 2, 1)
    me = pvg.Volume(a, a.translate((0, 0, g[1])), r, m)
    return rel(me.z[1, 1, :], 0, g[1])


@entry("volume.unstructured")
def _(pvg, pv, np, r, m, g):
    a = pvg.Rectangle(g[0], 1.0, 2, 1).cast_to_unstructured_grid()
    me = pvg.Volume(a, a.translate((0, 0, g[1])), r, m)
    return rel(np.sort(np.unique(np.round(me.points[:, 2], 9))), 0, g[1])


@entry("stack2d")
def _(pvg, pv, np, r, m, g):
    me = pvg.MeshStack2D([0.0, 1.0, 3.0]).add(1.0).add(g[1], r, m).add(1.0).generate_mesh()
    z = me.z[1, 0, :]
    return rel(z[z <= 1 + g[1] + 1e-6], 1.0, 1 + g[1])


@entry("stack3d")
def _(pvg, pv, np, r, m, g):
    me = pvg.MeshStack3D(pv.ImageData(dimensions=(3, 2, 1))).add(0.0).add(1.0).add(g[1], resolution=r, method=m).generate_mesh()
    z = me.z[1, 0, :]
    return rel(z[z >= 1 - 1e-6], 1.0, 1 + g[1])


@entry("stack3d.unstructured")
def _(pvg, pv, np, r, m, g):
    me = pvg.MeshStack3D(pvg.Circle(1.0, 6), bottom_up=False).add(0.0).add(g[1], resolution=r, method=m).generate_mesh()
    z = np.sort(np.unique(np.round(me.points[:, 2], 6)))[::-1]
    return rel(z, 0.0, -g[1])


@entry("extrude")
def _(pvg, pv, np, r, m, g):
    me = pvg.MeshExtrude(pv.ImageData(dimensions=(3, 2, 1))).add([0, 0, g[1]], r, m).generate_mesh()
    return rel(me.z[1, 0, :], 0.0, g[1])


@entry("extrude.unstructured")
def _(pvg, pv, np, r, m, g):
    me = pvg.MeshExtrude(pvg.Circle(1.0, 6)).add([0, 0, 1.0]).add([0, 0, g[1]], r, m).generate_mesh()
    z = np.sort(np.unique(np.round(me.points[:, 2], 6)))
    return rel(z[z >= 1 - 1e-6], 1.0, 1 + g[1])


@entry("voronoi.polyline", method=False, kind="mid", nmax=4, tol=300)
def _(pvg, pv, np, r, m, g):
    bg = pvg.Rectangle(16.0, 16.0, 4, 4)
    me = pvg.VoronoiMesh2D(bg).add_polyline([[4.0, 8.0, 0.0], [8.0, 8.0, 0.0], [12.0, 8.0, 0.0]], 1.0, resolution=r, group="L").generate_mesh()
    y = me["Y"][pvg.get_cell_group(me) == "L"]
    return rel(np.sort(np.unique(np.round(y, 6))), 7.5, 8.5)


def bad_res(rng):
    return dict(k="bad")


# entries whose positions are read off a structured axis, so that repeated positions, and positions outside [0, 1] or
# not reaching its ends, can be read back one by one
DIRECT = {"rectangle.x", "rectangle.y", "square.x", "square.y", "quad.x", "quad.y", "annularsector.r", "annularsector.theta", "annulus.r",
          "cylshellsector.z", "cylshell.r", "cylshell.z", "cylshellsector.theta", "structuredsurface", "volume.structured", "extrude"}


def odd_list(rng, name):
    lo = [0, 125000] if name.endswith(".r") else [-250000, -125000, 0, 125000]
    v = [rng.choice(lo), rng.choice([875000, 1000000, 1125000, 1250000])]
    v += [rng.choice([250000, 375000, 500000, 625000]) for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.5:
        v.append(rng.choice(v))
    rng.shuffle(v)
    return dict(k="list", v=v)


class S(Suite):
    trace = "Trace_Subdivide"

    def models(self, prop, tier):
        return [dict(module="MC_Subdivide", cfg="MC_Subdivide.cfg")]

    def cases(self, prop, rng, tier, beh):
        out = []
        per = 14 if tier == "quick" else 120
        for name, d in ENTRIES.items():
            for i in range(per):
                g = [rng.choice([1.0, 2.0, 3.0, 5.5, 8.0]), rng.choice([1.0, 2.0, 3.0, 5.5, 8.0])]
                if i == 0:
                    res, m = dict(k="int", n=rng.choice([0, -1, -3])), rng.choice(METHODS)
                elif i == 1 and d["method"]:
                    res, m = dict(k="int", n=rng.randint(1, 4)), rng.choice(["cubic", "log2", "LOG", "_r", "constant_r"])
                elif i == 2:
                    res, m = dict(k="bad"), rng.choice(METHODS)
                elif i in (3, 4, 5) and d["method"]:
                    res, m = dict(k="int", n=rng.randint(2, d["nmax"])), ["log", "log_r", "constant"][i - 3]
                elif name in DIRECT and (i in (7, 8) or i >= 14 and rng.random() < 0.2):
                    res, m = odd_list(rng, name), rng.choice(["", "", "log"])
                    if rng.random() < 0.3:
                        res["np"] = 1
                elif i == 6:
                    res, m = dict(k="none"), rng.choice(METHODS)
                else:
                    res = rand_res(rng, d["nmax"])
                    if res["k"] == "list" and rng.random() < 0.5:
                        res["np"] = 1
                    m = rand_method(rng, res)
                if not d["method"]:
                    m = ""
                out.append(dict(entry=name, res=res, m=m, g=g))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs
        d = ENTRIES[c["entry"]]
        r, exc = attempt(lambda: d["f"](pvg, pv, np, real_res(c["res"]), real_m(c["m"]), c["g"]))
        return [dict(ev="subdivide", entry=c["entry"], res=c["res"], m=c["m"], exc=exc, kind=d["kind"], tol=d["tol"],
                     pos=[] if exc else scs(r, 1000000))]


SUITE = S()
