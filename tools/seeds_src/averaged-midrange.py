PROP = 'C20'; FILE = 'utils/_misc.py'
EDITS = [('new_points[group[0]] = points[group].mean(axis=0)', 'new_points[group[0]] = 0.5 * (points[group].min(axis=0) + points[group].max(axis=0))')]
NEEDS = 'a cluster of three or more close points that are not evenly spread'
BREAKS = 'the representative is the middle of the bounding box, not the mean of the cluster'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pvg.average_points(pv.PolyData([[0.0, 0.0, 0.0], [0.1, 0.0, 0.0], [0.4, 0.0, 0.0], [5.0, 0.0, 0.0]]), tolerance=0.35)
assert np.allclose(sorted(m.points[:, 0]), [0.5 / 3.0, 5.0]), m.points
'''
