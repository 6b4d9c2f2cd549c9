PROP = 'C15'; FILE = 'utils/_properties.py'
EDITS = [('return _dimension_map[mesh.celltypes].max()', 'return _dimension_map[np.unique(mesh.celltypes)[-1]]')]
NEEDS = 'an unstructured grid mixing cell types whose numbers do not grow with the dimension'
BREAKS = 'the dimension is that of the type with the largest number, not the largest dimension'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
pts = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [2, 0, 0.0]], dtype=float)
m = pv.UnstructuredGrid([4, 0, 1, 2, 3, 3, 0, 4, 1], [pv.CellType.TETRA, pv.CellType.QUADRATIC_EDGE], pts)
assert pvg.get_dimension(m) == 3, pvg.get_dimension(m)
'''
