PROP = 'C02'; FILE = 'core/_helpers.py'
EDITS = [('[np.abs(areas) == 0.0] = 32', '[np.abs(areas) < 1.0e-8] = 32')]
NEEDS = 'a surface whose cells have an area below 1e-8'
BREAKS = 'cells of small but positive area are flagged as hidden as if they were degenerate'
DEMO = '''
import numpy as np, pvgridder as pvg
m = pvg.Rectangle(dx=1.0e-4, dy=1.0e-4, x_resolution=4, y_resolution=4)
g = m.cell_data.get("vtkGhostType", np.zeros(m.n_cells))
assert m.n_cells == 16 and not np.any(g), g
'''
