PROP = 'C23'; FILE = 'utils/_misc.py'
EDITS = [('            if ignore_points_after_exit:\n                break', '            if ignore_points_after_exit and lid > 1:\n                break')]
NEEDS = 'a line leaving the mesh within its first two segments, with ignore_points_after_exit'
BREAKS = 'points after the exit are kept although they were to be ignored'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.ImageData(dimensions=(4, 4, 4)).cast_to_unstructured_grid()
line = pv.MultipleLines([[-1.0, 1.3, 1.4], [5.0, 1.6, 1.7], [6.0, 8.0, 1.0]])
r = pvg.intersect_polyline(m, line, ignore_points_after_exit=True)
assert r.points[:, 0].max() <= 3.0 + 1.0e-6, r.points
'''
