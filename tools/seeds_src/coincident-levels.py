PROP = 'C01'; FILE = 'core/_helpers.py'
EDITS = [('return np.sort(perc)', 'return np.unique(perc)')]
NEEDS = 'a resolution list with a repeated position'
BREAKS = 'repeated positions are dropped, so the number of subdivisions is not the one asked for'
DEMO = '''
import numpy as np, pvgridder as pvg
m = pvg.Rectangle(dx=1.0, dy=1.0, x_resolution=[0.0, 0.5, 0.5, 1.0], y_resolution=1)
assert m.n_points == 8, m.points
'''
