PROP = 'C09'; FILE = 'core/extrude.py'
EDITS = [('mesh.rotate_vector(vector, angle, mesh.center)', 'mesh.rotate_vector(vector, angle, self.mesh.center)')]
NEEDS = 'a rotated item after an item with a vector of another direction'
BREAKS = 'the section turns about an axis through the base mesh instead of its own centre'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
base = pv.StructuredGrid(*np.meshgrid([-1.0, 1.0], [-1.0, 1.0], [0.0], indexing="ij"))
m = pvg.MeshExtrude(base).add([4.0, 0.0, 1.0]).add([0.0, 0.0, 1.0], angle=90.0).generate_mesh()
top = m.points[np.isclose(m.points[:, 2], 2.0)]
assert np.allclose(top.mean(axis=0), [4.0, 0.0, 2.0]), top
'''
