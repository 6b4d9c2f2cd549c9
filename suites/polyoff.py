"""C21: offset of polygons, quadratic cells."""
import math
from harness.util import *
from suites.meshes import *

H = 1000


def star(rng, m=10):
    """simple lattice polygon around a centre"""
    while True:
        k = rng.randint(3, 8)
        by = {}
        for _ in range(k):
            v = [rng.randint(-m, m), rng.randint(-m, m)]
            if v != [0, 0]:
                g = math.gcd(*v)
                by[(v[0] // g, v[1] // g)] = v
        a = sorted(by.values(), key=lambda v: math.atan2(v[1], v[0]))
        if len(a) >= 3 and all(a[i][0] * a[(i + 1) % len(a)][1] - a[i][1] * a[(i + 1) % len(a)][0] > 0 for i in range(len(a))):
            o = [rng.randint(-20, 20), rng.randint(-20, 20)]
            p = [[v[0] + o[0], v[1] + o[1]] for v in a]
            if rng.random() < 0.2:                # a corner within an edge
                i = rng.randrange(len(p))
                q = p[(i + 1) % len(p)]
                if (p[i][0] + q[0]) % 2 == 0 and (p[i][1] + q[1]) % 2 == 0:
                    p.insert(i + 1, [(p[i][0] + q[0]) // 2, (p[i][1] + q[1]) // 2])
            return p[::-1] if rng.random() < 0.5 else p


def goff(rng):
    return dict(ev="off", polys=[star(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))], ax=rng.choice([1, 2, 3]), h=rng.choice([0, 3, -7, 12]), dn=rng.choice([0, 1, 4, 9, 16, -1, -4, -9]),
                bad=rng.choice(["nonplanar", "noface", "line"]) if rng.random() < 0.1 else "", form=rng.choice(["poly", "array", "list"]), off=rng.choice([0, 0, 100000, 4000000]))


class S(Suite):
    trace = "Trace_Polygon"

    def models(self, prop, tier):
        return [dict(module="MC_Polygon", cfg="MC_Polygon.cfg", name="poly")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        B = beh["poly"]
        out = [dict(ev="off", polys=[x["p"]], ax=x["ax"], h=rng.choice([0, 5]), dn=8 * x["d"], bad="", form="poly", off=0) for x in rng.sample(B, min(len(B), 200 * n))]
        out += [goff(rng) for _ in range(300 * n)]
        for _ in range(150 * n):
            m = m2d(rng, lines=rng.random() < 0.2, empty=rng.random() < 0.2) if rng.random() < 0.8 else mstruct(rng, nd=2, form=rng.choice(["struct", "rect"]))
            if rng.random() < 0.7 and m["cells"]:
                for c in m["cells"]:
                    if len(c["ids"]) not in (3, 4):
                        c["type"], c["ids"] = TRI, c["ids"][:3] if len(c["ids"]) > 3 else [1, 2, 3]
                    c["type"] = c["type"] if c["type"] in (TRI, QUAD) else (TRI if len(c["ids"]) == 3 else QUAD)
            m["hid"], m["flag"] = [False for _ in m["hid"]], False
            m["off"] = rng.choice([0, 0, 100])
            out.append(dict(ev="quad", m=m))
        for x in out:
            if x["ev"] == "off" and not x["off"] and rng.random() < 0.25:
                x["p2"] = rng.choice([-14, -7, 7, 14])
        rescale(rng, [x["m"] for x in out if x["ev"] == "quad"])
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, cells_of
        if c["ev"] == "quad":
            me = make(c["m"])
            r, exc = attempt(lambda: pvg.quadraticize(me))
            return [dict(ev="quad", m=project(me, c["m"].get("p2", 0)), exc=exc, out=dict(pts=[], cells=[]) if exc else project(r, c["m"].get("p2", 0)))]
        ax, off, p2 = c["ax"] - 1, c["off"], 2.0 ** c.get("p2", 0)
        pl = [i for i in range(3) if i != ax]
        pts, faces = [], []
        for p in c["polys"]:
            faces += [len(p), *range(len(pts), len(pts) + len(p))]
            for v in p:
                q = [0, 0, 0]
                q[pl[0]], q[pl[1]], q[ax] = v[0], v[1], c["h"]
                pts.append(q)
        P = np.array(pts, float) * (H / 10000 * p2) + off
        if c["bad"] == "nonplanar":
            P[0, ax] += 1.0
        form = c["form"] if len(c["polys"]) == 1 else "poly"
        me = pv.PolyData(P, faces=faces) if form == "poly" or c["bad"] not in ("", "nonplanar") else P if form == "array" else P.tolist()
        if c["bad"] == "noface":
            me = pv.PolyData(P)
        if c["bad"] == "line":
            me = pv.PolyData(P, lines=faces)
        bad = c["bad"] if not (c["bad"] == "nonplanar" and c["dn"] == 0) else ""
        if c["bad"] and not bad:
            return [dict(ev="off", polys=[], ax=1, h=0, dn=0, bad="", exc="", out=[], out2=[])]
        r, exc = attempt(lambda: pvg.offset_polygon(me, c["dn"] / 8 * H / 10000 * p2))
        e = dict(ev="off", polys=c["polys"], ax=c["ax"], h=c["h"], dn=c["dn"], bad=bad, exc=exc, out=[], out2=[])
        if not exc:
            Q = scs((np.asarray(r.points, float) - off) / p2)
            e["out"] = [[Q[i - 1] for i in x] for x in cells_of(r)[0]]
            e["out2"] = [[[v[pl[0]], v[pl[1]]] for v in x] for x in e["out"]]
        return [e]


SUITE = S()
