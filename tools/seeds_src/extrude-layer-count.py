PROP = 'C07'; FILE = 'core/extrude.py'
EDITS = [('n_layers += nsub', 'n_layers = nsub * (i + 1)')]
NEEDS = 'items with different numbers of layers, a coarse one before finer ones'
BREAKS = 'layer numbers jump: they are computed as if all items had the resolution of the latest one'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
base = pv.StructuredGrid(*np.meshgrid([0.0, 1.0, 2.0], [0.0, 1.0], [0.0], indexing="ij"))
m = pvg.MeshExtrude(base).add([0.0, 0.0, 1.0], resolution=1).add([0.0, 0.0, 1.0], resolution=3).add([0.0, 0.0, 1.0], resolution=2).generate_mesh()
z = m.cell_centers().points[:, 2]
rank = np.searchsorted(np.unique(z.round(6)), z.round(6))
assert np.array_equal(m["LayerId"], rank), (m["LayerId"], rank)
'''
