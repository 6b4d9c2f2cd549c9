PROP = 'C18'; FILE = 'utils/_misc.py'
EDITS = [('polygons[v].append(edges[k])', 'polygons[v].insert(1, edges[k]) if len(polygons[v]) < 3 else None')]
NEEDS = 'a region with at least three holes, with_holes=True'
BREAKS = 'boundaries of holes after the second one are lost'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.ImageData(dimensions=(10, 4, 1)).cast_to_unstructured_grid()
m = pvg.extract_cells(m, [i for i in range(m.n_cells) if i not in (10, 13, 16)])
r = pvg.extract_boundary_polygons(m, fill=False, with_holes=True)
assert len(r) == 1 and len(r[0]) == 4, [len(x) for x in r]
'''
