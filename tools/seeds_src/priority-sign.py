PROP = 'C13'; FILE = 'core/voronoi.py'
EDITS = [('sorted(self.items, key=lambda item: abs(item.priority))', 'sorted(self.items, key=lambda item: item.priority)')]
NEEDS = 'items of negative priority together with items of smaller magnitude'
BREAKS = 'items are no longer ranked by the magnitude of their priority'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
base = pv.StructuredGrid(*np.meshgrid(np.arange(7.0), np.arange(7.0), [0.0], indexing="ij"))
v = pvg.VoronoiMesh2D(base, default_group="base")
v.add_circle(2.0, resolution=8, center=[3.0, 3.0], priority=1, group="weak")
v.add_circle(2.0, resolution=8, center=[3.5, 3.0], priority=-3, group="strong")
m = v.generate_mesh()
names = list(pvg.get_cell_group(m))
w = pvg.VoronoiMesh2D(base, default_group="base")
w.add_circle(2.0, resolution=8, center=[3.0, 3.0], priority=1, group="weak")
w.add_circle(2.0, resolution=8, center=[3.5, 3.0], priority=3, group="strong")
other = list(pvg.get_cell_group(w.generate_mesh()))
assert names.count("strong") == other.count("strong") and names.count("weak") == other.count("weak"), (names, other)
'''
