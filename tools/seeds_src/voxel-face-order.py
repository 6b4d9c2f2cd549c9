PROP = "C14"; FILE = "utils/_misc.py"
EDITS = [("                [3, 2, 6, 7],\n", "                [3, 2, 7, 6],\n")]
NEEDS = "a mesh with voxel cells (image data or rectilinear grid) in 3-D"
BREAKS = "one face of every voxel is listed as a self-crossing quad; being of zero area it vanishes with its owners, so neighbours in that direction are lost"
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.ImageData(dimensions=(2, 3, 2)).cast_to_unstructured_grid()
g = pvg.extract_cell_geometry(m)
a = g.compute_cell_sizes()["Area"]
assert np.allclose(a, 1.0) and g.n_cells == 11, (g.n_cells, a)
'''
