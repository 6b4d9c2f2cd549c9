PROP = 'C21'; FILE = 'utils/_misc.py'
EDITS = [('dist = distance / (0.5 * (1.0 + (vn * vp).sum(axis=1))) ** 0.5', 'dist = distance / np.maximum(0.5 * (1.0 + (vn * vp).sum(axis=1)), 0.15) ** 0.5')]
NEEDS = 'a polygon with a corner sharper than about 45 degrees'
BREAKS = 'sharp corners are not moved far enough, so the sides next to them are not parallel any more'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
p = np.array([[0.0, 0.0, 0.0], [8.0, 1.0, 0.0], [0.0, 2.0, 0.0]])
q = pvg.offset_polygon(p, 0.125).points
for i in range(3):
    a, b = p[i], p[(i + 1) % 3]
    n = np.array([-(b - a)[1], (b - a)[0], 0.0]); n /= np.linalg.norm(n)
    for c in (q[i], q[(i + 1) % 3]):
        assert abs(abs((c - a) @ n) - 0.125) < 1.0e-5, (i, (c - a) @ n)
'''
