PROP = 'C04'; FILE = 'core/geometric_objects.py'
EDITS = [('holes = [to_points(hole) for hole in holes] if holes is not None else []', 'holes = [to_points(hole) for hole in holes[:2]] if holes is not None else []')]
NEEDS = 'a polygon with three holes or more'
BREAKS = 'holes after the second one are ignored and filled with cells'
DEMO = '''
import numpy as np, pvgridder as pvg
sq = lambda x, y, r: [[x - r, y - r], [x + r, y - r], [x + r, y + r], [x - r, y + r]]
m = pvg.Polygon(shell=sq(4.0, 4.0, 4.0), holes=[sq(2.0, 2.0, 0.5), sq(6.0, 2.0, 0.5), sq(4.0, 6.0, 0.5)])
assert abs(m.compute_cell_sizes()["Area"].sum() - 61.0) < 1.0e-6, m.compute_cell_sizes()["Area"].sum()
'''
