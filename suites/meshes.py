"""Random meshes shared by the suites on cells: description (JSON), construction, projection."""
from suites.volume import patch, axes, perm, PIXEL

U = 1250
EMPTY, VERTEX, LINE, PLINE, TRI, POLY, QUAD, TET, VOXEL, HEX, WEDGE, PYR, PHED = 0, 1, 3, 4, 5, 7, 9, 10, 11, 12, 13, 14, 42
CUBE_FACES = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3]]


def cell(t, ids, faces=()):
    return dict(type=t, ids=list(ids), faces=[list(f) for f in faces])


def hide(rng, m, p=0.3):
    n = len(m["cells"])
    m["hid"] = [rng.random() < 0.3 for _ in range(n)] if rng.random() < p else [False] * n
    m["flag"] = any(m["hid"]) or rng.random() < 0.1      # the array is present
    return m


def m2d(rng, lines=True, empty=True, planar=True):
    ax = rng.choice([1, 2, 3])
    x, y, cells, types = patch(rng)
    z0 = rng.randint(-40, 40) * U
    pts = [perm(ax, [a, b, z0]) for b in y for a in x]
    C = [cell(t, c) for t, c in zip(types, cells)]
    if rng.random() < 0.5 and len(C) > 2:
        C = [c for c in C if rng.random() < 0.8] or C[:1]
    if not planar and rng.random() < 0.3:        # a fin: one edge owned by three cells
        c = rng.choice(C)["ids"]
        pts.append([v + (8 * U if k == ax - 1 else 0) for k, v in enumerate(pts[c[0] - 1])])
        C.append(cell(TRI, [c[0], c[1], len(pts)]))
    form = "unstr"
    if lines and rng.random() < 0.2:
        n = len(pts)
        C.append(cell(LINE, rng.sample(range(1, n + 1), 2)))
        C.append(cell(PLINE, rng.sample(range(1, n + 1), min(n, 3))))
    if empty and rng.random() < 0.15:
        C.insert(rng.randint(0, len(C)), cell(EMPTY, []))
    m = dict(form=form, pts=pts, cells=C, dims=[])
    if rng.random() < 0.25 and all(c["type"] in (TRI, QUAD, POLY) for c in C):
        m["form"] = "poly"
        for c in C:
            c["type"] = {3: TRI, 4: QUAD}.get(len(c["ids"]), POLY)
    return hide(rng, m)


def m1d(rng):
    n = rng.randint(2, 6)
    pts = [[rng.randint(-40, 40) * U for _ in range(3)] for _ in range(n)]
    C = []
    for _ in range(rng.randint(1, 4)):
        C.append(cell(LINE, rng.sample(range(1, n + 1), 2)) if n < 3 or rng.random() < 0.5 else cell(PLINE, rng.sample(range(1, n + 1), rng.randint(3, n))))
    return hide(rng, dict(form="unstr", pts=pts, cells=C, dims=[]))


def m3d(rng, mixed=None, empty=True):
    d = [rng.randint(1, 3) for _ in range(3)]
    X = [axes(rng, v + 1, 12) for v in d]
    n = [v + 1 for v in d]
    pid = lambda i, j, k: i + n[0] * (j + n[1] * k) + 1
    pts = [[X[0][i], X[1][j], X[2][k]] for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
    kinds = ["hex", "voxel", "wedge", "tet", "pyr", "phed", "phed"]
    only = rng.choice(kinds) if (mixed is None and rng.random() < 0.3) else None
    C = []
    for k in range(d[2]):
        for j in range(d[1]):
            for i in range(d[0]):
                if rng.random() < 0.12 and sum(d) > 3:
                    continue
                c = [pid(i, j, k), pid(i + 1, j, k), pid(i + 1, j + 1, k), pid(i, j + 1, k), pid(i, j, k + 1), pid(i + 1, j, k + 1), pid(i + 1, j + 1, k + 1), pid(i, j + 1, k + 1)]
                t = only or rng.choice(kinds)
                g = lambda ids: [c[v] for v in ids]
                if t == "hex":
                    C.append(cell(HEX, c))
                elif t == "voxel":
                    C.append(cell(VOXEL, g([0, 1, 3, 2, 4, 5, 7, 6])))
                elif t == "wedge":
                    C += [cell(WEDGE, g([0, 1, 3, 4, 5, 7])), cell(WEDGE, g([1, 2, 3, 5, 6, 7]))]
                elif t == "tet":
                    C += [cell(TET, g(q)) for q in ([0, 1, 3, 4], [1, 2, 3, 6], [1, 4, 5, 6], [3, 4, 6, 7], [1, 3, 4, 6])]
                elif t == "pyr":
                    C += [cell(PYR, g(q)) for q in ([0, 1, 2, 3, 6], [0, 4, 5, 1, 6], [0, 3, 7, 4, 6])]
                else:
                    F = [g(f) for f in CUBE_FACES]
                    if rng.random() < 0.2:
                        F = [f[::-1] for f in F]
                    if rng.random() < 0.3:      # cut one corner into a tetrahedron-like polyhedron
                        F = [g(f) for f in ([0, 2, 1], [0, 1, 5, 4], [1, 2, 5], [0, 4, 2], [2, 4, 5])]
                    rng.shuffle(F)
                    C.append(cell(PHED, [], F))
    if not C:
        C = [cell(HEX, [pid(0, 0, 0), pid(1, 0, 0), pid(1, 1, 0), pid(0, 1, 0), pid(0, 0, 1), pid(1, 0, 1), pid(1, 1, 1), pid(0, 1, 1)])]
    rng.shuffle(C)
    if empty and rng.random() < 0.15:
        C.insert(rng.randint(0, len(C)), cell(EMPTY, []))
    return hide(rng, dict(form="unstr", pts=pts, cells=C, dims=[]))


def mconcave(rng, m=None):
    """a prism over an L-shaped polygon (a polyhedron that is not star-shaped from most of its corners), appended to a mesh"""
    a, b, c, d = [rng.randint(1, 6) * U for _ in range(4)]
    h = rng.randint(1, 8) * U
    o = [rng.randint(-40, 40) * U for _ in range(3)]
    poly = [[0, 0], [a + b, 0], [a + b, c], [a, c], [a, c + d], [0, c + d]]
    if rng.random() < 0.5:
        poly = [[x, -y] for x, y in poly][::-1]
    k = rng.randrange(6)
    poly = poly[k:] + poly[:k]
    m = m or dict(form="unstr", pts=[], cells=[], dims=[], hid=[], flag=False)
    n = len(m["pts"])
    m["pts"] += [perm(rng.choice([3]), [o[0] + x, o[1] + y, o[2] + z]) for z in (0, h) for x, y in poly]
    F = [[1, 6, 5, 4, 3, 2], [7, 8, 9, 10, 11, 12]] + [[i + 1, (i + 1) % 6 + 1, (i + 1) % 6 + 7, i + 7] for i in range(6)]
    if rng.random() < 0.3:
        F = [f[::-1] for f in F]
    F = [f[j:] + f[:j] for f in F for j in [rng.randrange(len(f))]]
    rng.shuffle(F)
    i = rng.randint(0, len(m["cells"]))
    m["cells"].insert(i, cell(PHED, [], [[v + n for v in f] for f in F]))
    m["hid"].insert(i, False)
    return m


def mstruct(rng, hid=True, form=None, nd=None):
    nd = nd or rng.choice([2, 2, 3])
    d = [rng.randint(2, 4) for _ in range(3)]
    if nd == 2:
        d[rng.randint(0, 2)] = 1
    X = [axes(rng, v, 12) for v in d]
    form = form or rng.choice(["struct", "struct", "image", "rect"])
    if form == "image":
        X = [[x[0] + i * (x[1] - x[0] if len(x) > 1 else U) for i in range(len(x))] for x in X]
    pts = [[X[0][i], X[1][j], X[2][k]] for k in range(d[2]) for j in range(d[1]) for i in range(d[0])]
    if form == "struct" and rng.random() < 0.3:     # pinched: neighbouring points coincide
        a = [c for c in range(3) if d[c] > 1][0]
        st = [1, d[0], d[0] * d[1]][a]
        for _ in range(2):
            i = rng.randrange(len(pts) - st)
            if pts[i][:a] + pts[i][a + 1:] == pts[i + st][:a] + pts[i + st][a + 1:]:
                pts[i + st] = list(pts[i])
    m = dict(form=form, pts=pts, dims=d, cells=[])
    m["cells"] = [None] * (max(1, d[0] - 1) * max(1, d[1] - 1) * max(1, d[2] - 1))
    hide(rng, m, 0.5 if hid else 0.0)
    m["cells"] = []
    return m


def make(m):
    import numpy as np, pyvista as pv
    from harness.proj import K
    p = np.array(m["pts"], float) / K * 2.0 ** m.get("p2", 0) + m.get("off", 0)
    if m["form"] == "image":
        d = m["dims"]
        sp = [(p[:, i].max() - p[:, i].min()) / (d[i] - 1) if d[i] > 1 else 1.0 for i in range(3)]
        me = pv.ImageData(dimensions=d, spacing=sp, origin=p.min(axis=0))
    elif m["form"] == "rect":
        me = pv.RectilinearGrid(*[np.unique(p[:, i]) for i in range(3)])
    elif m["form"] == "struct":
        me = pv.StructuredGrid()
        me.points = p
        me.dimensions = m["dims"]
    elif m["form"] == "poly":
        me = pv.PolyData(p, faces=np.concatenate([[len(c["ids"]), *[v - 1 for v in c["ids"]]] for c in m["cells"]]))
    else:
        flat = []
        for c in m["cells"]:
            if c["type"] == PHED:
                f = [len(c["faces"])]
                for x in c["faces"]:
                    f += [len(x), *[v - 1 for v in x]]
                flat += [len(f), *f]
            else:
                flat += [len(c["ids"]), *[v - 1 for v in c["ids"]]]
        me = pv.UnstructuredGrid(np.array(flat), np.array([c["type"] for c in m["cells"]], np.uint8), p)
    if m["flag"]:
        me.cell_data["vtkGhostType"] = np.array([32 if h else 0 for h in m["hid"]], dtype=np.uint8)
    return me


def rescale(rng, ms, p=0.2):
    """some of the meshes at another scale"""
    for m in ms:
        if m and not m.get("off") and rng.random() < p:
            m["p2"] = rng.choice([-14, -7, 7, 14])


def project(me, p2=0):
    """points, cells (with faces for polyhedra) and hidden flags of any mesh, read through VTK"""
    import numpy as np
    from harness.proj import scs, cells_of, faces_of
    hid = [bool(int(x) & 32) for x in me.cell_data["vtkGhostType"]] if "vtkGhostType" in me.cell_data else [False] * me.n_cells
    m2 = me.copy()
    m2.cell_data.pop("vtkGhostType", None)
    cl, ty = cells_of(m2)
    return dict(pts=scs(np.asarray(me.points, float) / 2.0 ** p2), cells=[dict(type=t, ids=c, faces=faces_of(m2, i) if t == PHED else []) for i, (c, t) in enumerate(zip(cl, ty))], hid=hid)
