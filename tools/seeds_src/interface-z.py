PROP = 'C11'; FILE = 'utils/_misc.py'
EDITS = [('and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0])', 'and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0])')]
NEEDS = 'two structured grids joined along the second axis whose common face differs in z only'
BREAKS = 'grids that do not meet are joined instead of being refused'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
x, y, z = np.meshgrid([0.0, 1.0, 2.0], [0.0, 1.0], [0.0, 1.0, 2.0], indexing="ij")
a = pv.StructuredGrid(x, y, z)
b = pv.StructuredGrid(x, y + 1.0, np.where(z == 1.0, 1.5, z))
try:
    m = pvg.merge([a, b], axis=1)
except ValueError:
    pass
else:
    raise AssertionError("joined although the faces differ")
'''
