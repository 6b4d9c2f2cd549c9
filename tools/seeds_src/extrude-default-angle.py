PROP = "C09"; FILE = "core/extrude.py"
EDITS = [("angle = angle if angle is not None else self.angle", "angle = angle or self.angle")]
NEEDS = "a default angle on the builder together with an item whose explicit angle is 0"
BREAKS = "an item that asks for no rotation (angle=0) is rotated by the builder's default angle"
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
base = pv.StructuredGrid(*np.meshgrid([0.0, 1.0, 3.0], [0.0, 2.0], [0.0], indexing="ij"))
m = pvg.MeshExtrude(base, angle=30.0).add([0.0, 0.0, 1.0], angle=0.0).generate_mesh()
top = m.points[np.isclose(m.points[:, 2], 1.0)][:, :2]
assert np.allclose(sorted(map(tuple, top)), sorted(map(tuple, base.points[:, :2]))), top
'''
