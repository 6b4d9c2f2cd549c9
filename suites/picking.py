"""C25: interactive selection, driven through a stand-in for the plotter (there is no display)."""
from harness.util import *
from suites.meshes import *
from suites.polyoff import star

AX = {"xy": (0, 1, 2), "xz": (0, 2, 1), "yz": (1, 2, 0)}
VIEWS = ["xy", "xz", "yz", "-xy", "-xz", "-yz"]


class S(Suite):
    trace = "Trace_Picking"

    def models(self, prop, tier):
        return [dict(module="MC_Picking", cfg="MC_Picking.cfg" if tier == "quick" else "MC_Picking7.cfg", name="pick")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        view = lambda: rng.choice(VIEWS) if rng.random() < 0.93 else rng.choice(["ab", "-q", "x", "xyz"])
        out = []
        for x in beh["pick"]:
            out.append(dict(ev="pick", picker=rng.choice(["", "", "cell", "point", "hardware", "volume"]), h=x["h"], n=4, pref=rng.choice(["cell", "point"]), view=rng.choice(["", view()]), par=rng.random() < 0.5, own=rng.random() < 0.5))
        for _ in range(60 * n):
            k = rng.randint(1, 12)
            out.append(dict(ev="pick", picker=rng.choice(["", "", "cell", "point", "hardware", "volume"]), h=[rng.randrange(k) for _ in range(rng.randint(0, 25))], n=k, pref=rng.choice(["cell", "point"]), view=rng.choice(["", view()]), par=rng.random() < 0.5, own=rng.random() < 0.5))
        for _ in range(200 * n):
            m = mstruct(rng) if rng.random() < 0.6 else m2d(rng) if rng.random() < 0.6 else m3d(rng)
            m["off"] = rng.choice([0, 0, 0, 4000000])
            p = star(rng, 30)
            vw = view()
            if rng.random() < 0.7:               # around a point of the mesh
                a, q = AX.get(vw.lstrip("-"), (0, 1, 2)), rng.choice(m["pts"])
                c = [sum(v[i] for v in p) // len(p) for i in (0, 1)]
                p = [[v[i] - c[i] + q[a[i]] // U for i in (0, 1)] for v in p]
            out.append(dict(ev="lasso", m=m, poly=p, depth=[rng.randint(-20, 20) for _ in p], view=vw, pref=rng.choice(["cell", "point"]), withpoly=rng.random() < 0.5, own=rng.random() < 0.5))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, scs, ints

        REAL = pv.Plotter

        class Stub:
            """has what a plotter has, records what matters, draws nothing"""
            def __init__(self, drive):
                self.drive, self.meshes, self.opened, self.cb, self.n = drive, {}, 0, None, 0
                self.theme = type("T", (), {})()
                self.added, self.views, self.seen = [], [], ""

            def __getattr__(self, name):
                if not hasattr(REAL, name):
                    raise AttributeError(name)
                return lambda *a, **k: None

            def add_mesh(self, mesh, *a, **k):
                self.n += 1
                act = ("actor", self.n)
                self.added.append(mesh)
                self.meshes[act] = mesh
                return act

            def remove_actor(self, actor, *a, **k):
                for x in actor if isinstance(actor, list) else [actor]:
                    self.meshes.pop(x, None)

            def view_xy(self, negative=False, **k):
                self.views.append("-xy" if negative else "xy")

            def view_xz(self, negative=False, **k):
                self.views.append("-xz" if negative else "xz")

            def view_yz(self, negative=False, **k):
                self.views.append("-yz" if negative else "yz")

            def _take(self, *a, **k):
                self.cb = k.get("callback") or next((x for x in a if callable(x)), None)
            track_click_position = enable_element_picking = _take

            def show(self, *a, **k):
                self.opened += 1
                self.seen = self.views[-1] if self.views else ""
                self.drive(self)

        if c["ev"] == "pick":
            me = pv.PolyData(np.array([[i, 0, 0] for i in range(c["n"])], float)) if c["pref"] == "point" else pv.ImageData(dimensions=(2, c["n"] + 1, 1))
            out = [dict(ev="begin")]
            ids = lambda p: [int((x.cell_data["vtkOriginalCellIds"] if c["pref"] == "cell" else x.point_data["vtkOriginalPointIds"])[0]) for x in p.meshes.values() if x is not me]

            def drive(p):
                for i in c["h"]:
                    if c["pref"] == "cell":
                        s = me.extract_cells(i)
                        s.cell_data["vtkOriginalCellIds"] = np.array([i])
                    else:
                        s = me.extract_points([i])
                        s.point_data["vtkOriginalPointIds"] = np.array([i])
                    p.cb(s)
                    out.append(dict(ev="pick", id=i, hi=ids(p)))
            st = Stub(drive)
            pv_Plotter = pv.Plotter
            kw = dict(view=c["view"]) if c["view"] else {}
            if c["picker"]:
                kw["picker"] = c["picker"]
            if c["own"]:
                kw["plotter"] = st
            else:
                pv.Plotter = lambda *a, **k: st
            try:
                r, exc = attempt(lambda: pvg.interactive_selection(me, preference=c["pref"], parallel_projection=c["par"], **kw))
            finally:
                pv.Plotter = pv_Plotter
            out.append(dict(ev="result", view=c["view"], exc=exc, ids=[] if exc else ints(r), isint=exc != "" or np.asarray(r).dtype.kind in "iu", shown=sum(x is me for x in st.added), opened=st.opened, seen=st.seen))
            return out
        me = make(c["m"])
        off = c["m"].get("off", 0)
        ax = AX.get(c["view"].lstrip("-"), (0, 1, 2))
        cl = []
        for v, d in zip(c["poly"], c["depth"]):
            q = [0, 0, 0]
            q[ax[0]], q[ax[1]], q[ax[2]] = v[0], v[1], d
            cl.append(q)

        def drive(p):
            for q in cl:
                p.cb(tuple(x / 8 + off for x in q))
        st = Stub(drive)
        pv_Plotter = pv.Plotter
        kw = dict(plotter=st) if c["own"] else {}
        if not c["own"]:
            pv.Plotter = lambda *a, **k: st
        try:
            r, exc = attempt(lambda: pvg.interactive_lasso_selection(me, view=c["view"], preference=c["pref"], return_polygon=c["withpoly"], **kw))
        finally:
            pv.Plotter = pv_Plotter
        e = dict(ev="lasso", view=c["view"], exc=exc, clicks=[[x * 24 for x in q] for q in cl], ids=[], poly=[], withpoly=c["withpoly"], shown=sum(x is me for x in st.added), opened=st.opened, seen=st.seen,
                 at=scs(np.asarray(pvg.get_cell_centers(me) if c["pref"] == "cell" else me.points, float) - off, 192))
        if not exc:
            ids, poly = r if c["withpoly"] else (r, None)
            e["ids"] = ints(ids)
            if poly is not None:
                e["poly"] = scs(np.array(poly.exterior.coords)[:-1] - off, 192)
        return [e]


SUITE = S()
