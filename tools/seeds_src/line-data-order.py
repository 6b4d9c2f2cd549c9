PROP = 'C19'; FILE = 'utils/_misc.py'
EDITS = [('line.point_data[k] = v[line_ids]', 'line.point_data[k] = v[np.sort(line_ids)]')]
NEEDS = 'a line with point data whose points are not stored in the order of the line'
BREAKS = 'values are attached to the points in storage order instead of the order of the line'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.PolyData(np.array([[0.0, 0, 0], [1.0, 0, 0], [2.0, 0, 0]]), lines=[3, 2, 0, 1])
m.point_data["x"] = m.points[:, 0]
for l in pvg.split_lines(m):
    assert np.allclose(l.point_data["x"], l.points[:, 0]), l.point_data["x"]
'''
