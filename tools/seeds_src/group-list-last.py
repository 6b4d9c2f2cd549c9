PROP = "C08"; FILE = "core/_base.py"
EDITS = [("                        mask |= (\n", "                        mask = (\n")]
NEEDS = "a group mapping whose value is a list of at least two names, the first of which has cells"
BREAKS = "only the last name of a list of base groups is replaced; cells of the other named groups keep their base group"
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
base = pvg.MeshMerge()
for i, g in enumerate("abc"):
    base.add(pv.StructuredGrid(*np.meshgrid([i, i + 1.0], [0.0, 1.0], [0.0], indexing="ij")), group=g)
base = base.generate_mesh()
m = pvg.MeshStack3D(base).add(0.0).add(1.0, group={"other": ["a", "c"]}).generate_mesh()
names = pvg.get_cell_group(m)
x = m.cell_centers().points[:, 0]
assert sorted(zip(x.astype(int), names)) == [(0, "other"), (1, "b"), (2, "other")], sorted(zip(x, names))
'''
