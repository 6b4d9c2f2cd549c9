PROP = 'C16'; FILE = 'utils/_misc.py'
EDITS = [('    if not mask.all():\n        mesh = extract_cells(mesh, mask)', '    if not mask.all() and mask.any():\n        mesh = extract_cells(mesh, mask)')]
NEEDS = 'a dimension no cell has'
BREAKS = 'asking for cells of a dimension the mesh does not have returns all of its cells'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.ImageData(dimensions=(3, 3, 1)).cast_to_unstructured_grid()
try:
    n = pvg.extract_cells_by_dimension(m, ndim=3, method="upper").n_cells
except Exception:
    n = 0
assert n == 0, n
'''
