"""C02: structured surfaces, bilinear patches, regular and curved lines."""
from harness.util import *

PLANES = ["xy", "yx", "xz", "zx", "yz", "zy"]
U = 1250  # one eighth at coordinate scale


def dyadic(res, m):
    if res["k"] == "list":
        return True
    return (m in ("", "constant")) and (res["k"] == "none" or res["n"] in (1, 2, 4, 8))


def collinear(o, u, v):
    x = [(u[c] - o[c]) // U for c in range(3)]
    y = [(v[c] - o[c]) // U for c in range(3)]
    return x[0] * y[1] == x[1] * y[0] and x[1] * y[2] == x[2] * y[1] and x[0] * y[2] == x[2] * y[0]


def exact(c):
    """degenerate strips must be decidable exactly in floating point: coincident points, or dyadic positions"""
    a, b = c["a"], c["b"]
    if dyadic(c["res"], c["m"]) or len(a) != len(b):
        return True
    for i in range(len(a) - 1):
        q = [a[i], a[i + 1], b[i + 1], b[i]]
        if all(collinear(q[x], q[y], q[z]) for x, y, z in ((0, 1, 2), (0, 2, 3), (0, 1, 3), (1, 2, 3))):
            if not ((a[i] == b[i] and a[i + 1] == b[i + 1]) or (a[i] == a[i + 1] and b[i] == b[i + 1])):
                return False
    return True


def rp(rng, r=6):
    return [rng.randint(-8 * r, 8 * r) * U for _ in range(3)]


def g_surface(rng):
    while True:
        n = rng.randint(2, 6)
        a = [rp(rng) for _ in range(n)]
        b = [list(p) if rng.random() < 0.25 else rp(rng) for p in a]
        if n > 2 and rng.random() < 0.25:
            k = rng.randrange(n - 1)
            a[k + 1], b[k + 1] = list(a[k]), list(b[k])
        res = rand_res(rng, 6)
        if res["k"] == "list" and rng.random() < 0.3:
            res["v"].append(rng.choice(res["v"]))
        m = rand_method(rng, res)
        form = rng.choice(["array", "mesh", "mesh", "mesh", "mixed"])
        if form == "mesh" and len({tuple(p) for p in a}) < n:
            form = "array"     # strip() cannot follow repeated points
        if form != "array" and len({tuple(p) for p in b}) < n:
            form = "mixed"
        if form == "mixed" and len({tuple(p) for p in a}) < n:
            form = "array"
        c = dict(t="surface", a=a, b=b, plane=rng.choice(PLANES), res=res, m=m, form=form, vec=rng.random() < 0.3)
        if exact(c):
            return c


def g_surface_default(rng):
    """lines left out: the sides y = 0 and y = 1 of the unit square"""
    c = dict(t="surface", a=[[0, 0, 0], [8 * U, 0, 0]], b=[[0, 8 * U, 0], [8 * U, 8 * U, 0]], plane="xy", res=rand_res(rng, 6), m="", form="array", vec=False,
             none=rng.choice(["a", "b", "ab"]))
    c["m"] = rand_method(rng, c["res"])
    return c


def g_surface_bad(rng):
    c = g_surface(rng)
    k = rng.randrange(3)
    if k == 0:
        c["plane"] = rng.choice(["xx", "XY", "z", "yw", ""])
    elif k == 1:
        c["b"] = c["b"] + [rp(rng)]
        c["form"] = "array"
    else:
        c["res"], c["m"] = dict(k="int", n=2), "exp"
    return c


def g_ring(rng):
    """closed polygon meshes as lines"""
    n = rng.randint(3, 6)
    pts = set()
    while len(pts) < n:
        pts.add(tuple(rp(rng, 4)))
    a = [list(p) for p in pts]
    rng.shuffle(a)
    b = [rp(rng, 4) for _ in range(n)]
    c = dict(t="surface", a=a + [a[0]], b=b + [b[0]], plane=rng.choice(PLANES), res=rand_res(rng, 4), m="", form="ring", vec=False)
    c["m"] = rand_method(rng, c["res"])
    return c if exact(c) else g_ring(rng)


def g_quad(rng):
    kind = rng.choice(["quad", "rect", "square", "default", "quad3"])
    cx = [[rng.randint(-40, 40) * U, rng.randint(-40, 40) * U, rng.randint(-20, 20) * U] for _ in range(4)]
    if kind != "quad3":
        for p in cx:
            p[2] = 0
    if kind in ("rect", "square"):
        dx, dy = rng.randint(1, 60) * U, rng.randint(1, 60) * U
        dx, dy = rng.choice([dx, dx, 8 * U]), rng.choice([dy, dy, 8 * U])      # also the default size
        dy = dx if kind == "square" else dy
        cx = [[0, 0, 0], [dx, 0, 0], [dx, dy, 0], [0, dy, 0]]
    elif kind == "default":
        cx = [[0, 0, 0], [8 * U, 0, 0], [8 * U, 8 * U, 0], [0, 8 * U, 0]]
    else:  # strictly convex quadrilateral in xy, so that no interior cell degenerates
        while True:
            cx = [[rng.randint(-40, 40) * U, rng.randint(-40, 40) * U, p[2]] for p in cx]
            s = []
            for i in range(4):
                o, u, v = cx[i], cx[(i + 1) % 4], cx[(i + 2) % 4]
                s.append((u[0] - o[0]) * (v[1] - u[1]) - (u[1] - o[1]) * (v[0] - u[0]))
            if min(s) > 0 or max(s) < 0:
                break
    xres, yres = rand_res(rng, 6), rand_res(rng, 6)
    for r in (xres, yres):
        if r["k"] == "list" and rng.random() < 0.2:
            r["v"].append(rng.choice(r["v"]))
    xm, ym = rand_method(rng, xres), rand_method(rng, yres)
    if kind == "square":
        yres, ym = xres, xm
    center = rng.choice([None, 2, 3])
    ctr = [rng.randint(-80, 80) * U, rng.randint(-80, 80) * U, rng.randint(-80, 80) * U if center == 3 else 0] if center else [0, 0, 0]
    return dict(t="quad", kind=kind, c=cx, xres=xres, yres=yres, xm=xm, ym=ym, center=ctr, cn=center or 0)


TRIPLES = [((1, 0, 0), 1), ((0, 1, 0), 1), ((0, 0, 1), 1), ((3, 4, 0), 5), ((4, 0, 3), 5), ((0, 3, 4), 5), ((1, 2, 2), 3), ((2, 3, 6), 7), ((2, 1, 2), 3)]


def g_regular(rng):
    n = rng.randint(1, 5)
    p = [rng.randint(-5, 5) for _ in range(3)]
    ip, il = [list(p)], []
    for _ in range(n):
        d, L = rng.choice(TRIPLES)
        f = rng.choice([1, 1, 2]) if L > 1 else rng.randint(1, 5)
        d = [x * rng.choice([1, -1]) * f for x in d]
        p = [a + b for a, b in zip(p, d)]
        ip.append(list(p))
        il.append(L * f)
    return dict(t="regular", off=rng.choice([0, 0, 0, 400000, 4000000]), ip=ip, il=il, n=rng.choice([0, rng.randint(1, 12), rng.randint(1, 12)]))


def g_curved(rng):
    n = rng.randint(1, 10)
    # turn in half degrees, multiple of 2n, below 180 degrees
    kmax = 358 // (2 * n)
    t = 2 * n * rng.randint(-kmax, kmax) if rng.random() < 0.85 else 0
    u, v = rng.sample([1, 2, 3], 2)
    dl = rng.randint(1, 40) * U
    return dict(t="curved", off=rng.choice([0, 0, 0, 400000, 4000000]), o=rp(rng), u=u, v=v, a=rng.randrange(0, 720), tt=t, n=n, dl=dl, mag=[rng.choice([1, 2, 0.5, 3]), rng.choice([1, 2, 0.25])], end=t != 0 or rng.random() < 0.5)


class S(Suite):
    trace = "Trace_Planar"

    def models(self, prop, tier):
        return [dict(module="MC_Planar", cfg="MC_Planar.cfg", name="surf")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 12
        out = []
        b = [x for x in beh["surf"] if exact(x)]
        for x in rng.sample(b, min(len(b), 250 * n)):
            form = rng.choice(["mesh", "array"])
            if len({tuple(p) for p in x["a"]}) < len(x["a"]) or len({tuple(p) for p in x["b"]}) < len(x["b"]):
                form = "array"
            out.append(dict(x, t="surface", form=form, vec=False))
        out += [g_surface(rng) for _ in range(220 * n)]
        out += [g_surface_default(rng) for _ in range(6 * n)]
        out += [g_surface_bad(rng) for _ in range(20 * n)]
        out += [g_ring(rng) for _ in range(25 * n)]
        out += [g_quad(rng) for _ in range(200 * n)]
        out += [g_regular(rng) for _ in range(80 * n)]
        out += [g_curved(rng) for _ in range(80 * n)]
        for _ in range(2 * n):      # long lines
            k = rng.randint(1003, 1100)
            out.append(dict(t="surface", a=[[i * U, rng.randint(-8, 0) * U, 0] for i in range(k)], b=[[i * U, rng.randint(1, 8) * U, 0] for i in range(k)],
                            plane=rng.choice(PLANES), res=dict(k="int", n=1), m="", form="mesh", vec=False))
        for x in out:
            if not x.get("off") and not x.get("none") and not (x["t"] == "quad" and x["kind"] == "default") and rng.random() < 0.3:
                x["p2"] = rng.choice([-24, -17, -10, 10, 17])
        out.append(dict(t="quad", key="far-quad", off=4000000, kind="quad", c=[[1250, 0, 0], [8750, 0, 0], [8750, 6250, 0], [1250, 6250, 0]], xres=dict(k="int", n=2), yres=dict(k="none"), xm="", ym="", center=[0, 0, 0], cn=0))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, sc, K, data_ints
        p2 = 2.0 ** c.get("p2", 0)      # the same input at another scale: results must be the same up to it
        f = lambda p: np.array(p, float) / K * p2

        def hid(me):
            return [int(x) == 32 for x in me.cell_data["vtkGhostType"]]
        if c["t"] == "surface":
            n = len(c["a"])

            def line(p, data):
                if c["form"] == "ring":
                    return pv.PolyData(f(p[:-1]), faces=[n - 1, *range(n - 1)])
                li = pv.lines_from_points(f(p))
                if data:
                    li.point_data["p"] = np.array(data[0])
                    li.cell_data["q"] = np.array(data[1])
                return li
            pda, cda = [], []
            if c["form"] == "array":
                a, b = f(c["a"]), f(c["b"])
            else:
                if c["form"] != "ring":
                    pda = [[10 + i, -i, 3 * i] for i in range(n)] if c["vec"] else [[10 + i] for i in range(n)]
                    cda = [[50 + i, 2 * i] for i in range(n - 1)] if c["vec"] else [[50 + i] for i in range(n - 1)]
                sq = (lambda d: [x[0] for x in d]) if not c["vec"] else (lambda d: d)
                a = line(c["a"], (sq(pda), sq(cda)) if pda else None)
                b = f(c["b"]) if c["form"] == "mixed" else line(c["b"], None)
            a, b = None if "a" in c.get("none", "") else a, None if "b" in c.get("none", "") else b
            me, exc = attempt(lambda: pvg.StructuredSurface(a, b, c["plane"], real_res(c["res"]), real_m(c["m"])))
            e = dict(ev="surface", a=c["a"], b=c["b"], plane=c["plane"], res=c["res"], m=c["m"], exc=exc, pda=pda, cda=cda,
                     dims=[], pts=[], hid=[], pd=[], cd=[])
            if not exc:
                e.update(dims=list(me.dimensions), pts=scs(np.asarray(me.points, float) / p2), hid=hid(me))
                if pda:
                    e.update(pd=data_ints(me.point_data["p"]), cd=data_ints(me.cell_data["q"]))
            return [e]
        if c["t"] == "quad":
            ctr = f(c["center"])[: c["cn"]].tolist() if c["cn"] else None
            kw = dict(x_resolution=real_res(c["xres"]), x_method=real_m(c["xm"]), y_resolution=real_res(c["yres"]), y_method=real_m(c["ym"]), center=ctr)
            cx = f(c["c"]) + [c.get("off", 0), c.get("off", 0), 0]
            k = c["kind"]
            call = {"quad": lambda: pvg.Quadrilateral(cx[:, :2], **kw), "quad3": lambda: pvg.Quadrilateral(cx, **kw),
                    "default": lambda: pvg.Quadrilateral(**kw),
                    "rect": lambda: pvg.Rectangle(float(cx[2][0]), float(cx[2][1]), **kw),
                    "square": lambda: pvg.Square(float(cx[2][0]), resolution=kw["x_resolution"], method=kw["x_method"], center=ctr)}[k]
            me, exc = attempt(call)
            e = dict(ev="quad", c=c["c"], xres=c["xres"], xm=c["xm"], yres=c["yres"], ym=c["ym"], center=c["center"], exc=exc, dims=[], pts=[], hid=[])
            if not exc:
                e.update(dims=list(me.dimensions), pts=scs((np.asarray(me.points, float) - [c.get("off", 0), c.get("off", 0), 0]) / p2), hid=hid(me))
            return [e]

        def lines(me):
            return [len(x) for x in pv.core.cell._get_irregular_cells(me.GetLines())]
        if c["t"] == "regular":
            ip = np.array(c["ip"], float) * p2 + c["off"]
            me, exc = attempt(lambda: pvg.RegularLine(ip, c["n"]) if c["n"] else pvg.RegularLine(ip))
            e = dict(ev="regular", ip=c["ip"], il=c["il"], n=c["n"] or len(ip), exc=exc, pts=[], lines=[])
            if not exc:
                e.update(pts=scs((np.asarray(me.points, float) - c["off"]) / p2), lines=lines(me))
            return [e]
        if c["t"] == "curved":
            def d(h, mag):
                v = [0.0, 0.0, 0.0]
                v[c["u"] - 1], v[c["v"] - 1] = mag * np.cos(np.deg2rad(h / 2)), mag * np.sin(np.deg2rad(h / 2))
                return v
            s = d(c["a"], c["mag"][0])
            en = d(c["a"] + c["tt"], c["mag"][1]) if c["end"] else None
            me, exc = attempt(lambda: pvg.CurvedLine(f(c["o"]) + c["off"], c["dl"] / K * p2 * c["n"], s, en, c["n"]))
            e = dict(ev="curved", o=c["o"], u=c["u"], v=c["v"], a=c["a"] + 720, t=c["tt"], n=c["n"], dl=c["dl"], exc=exc, pts=[], lines=[])
            if not exc:
                e.update(pts=scs((np.asarray(me.points, float) - c["off"]) / p2), lines=lines(me))
            return [e]


SUITE = S()
