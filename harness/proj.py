"""Projection of real objects to the abstract values of the specification (integers, sequences, strings)."""
import math
import numpy as np
import pyvista as pv

K = 10000          # coordinate scale
NAN = 2000000000   # not-a-number marker
BIG = 1999999999


def sc(x, k=K):
    x = float(x)
    if math.isnan(x):
        return NAN
    v = x * k
    if abs(v) > BIG:
        return BIG if v > 0 else -BIG
    return int(math.floor(v + 0.5))


def scs(a, k=K):
    a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return sc(a, k)
    return [scs(v, k) for v in a]


def attempt(fn):
    """(result, "") or (None, exception type name)."""
    try:
        return fn(), ""
    except Exception as e:
        return None, type(e).__name__


def ints(a):
    return [int(x) for x in np.asarray(a).ravel()]


def cells_of(mesh):
    """Point ids (1-based) of each cell, in VTK order, plus celltypes."""
    u = mesh if isinstance(mesh, pv.UnstructuredGrid) else None
    n = mesh.n_cells
    out, types = [], []
    for i in range(n):
        c = mesh.GetCell(i)
        ids = c.GetPointIds()
        out.append([ids.GetId(j) + 1 for j in range(ids.GetNumberOfIds())])
        types.append(int(c.GetCellType()))
    return out, types


def faces_of(mesh, i):
    c = mesh.GetCell(i)
    out = []
    for f in range(c.GetNumberOfFaces()):
        ids = c.GetFace(f).GetPointIds()
        out.append([ids.GetId(j) + 1 for j in range(ids.GetNumberOfIds())])
    return out


def data_ints(arr):
    """A data array as a sequence of sequences of integers (components)."""
    a = np.asarray(arr)
    if a.ndim == 1:
        a = a[:, None]
    return [[int(round(float(x))) for x in row] for row in a]


def names(mesh):
    import pvgridder as pvg
    g = pvg.get_cell_group(mesh)
    return [] if g is None else [str(x) for x in g]
