PROP = "C06"; FILE = "core/_base.py"
EDITS = [("                    arg = abs(arg)\n                    arg *= 1.0 if self.bottom_up else -1.0\n", "                    if not self.bottom_up:\n                        arg = -arg\n")]
NEEDS = "a scalar item given as a negative height (documented: abs(arg) in the direction of bottom_up)"
BREAKS = "negative scalar heights move the interface against the stacking direction"
DEMO = '''
import numpy as np, pvgridder as pvg
m = pvg.MeshStack2D([0.0, 1.0, 2.0], axis=2).add(0.0).add(-2.0).generate_mesh()
z = np.unique(m.points[:, 2].round(9))
assert z.tolist() == [0.0, 2.0], z
m = pvg.MeshStack2D([0.0, 1.0, 2.0], axis=2, bottom_up=False).add(0.0).add(-2.0).generate_mesh()
z = np.unique(m.points[:, 2].round(9))
assert z.tolist() == [-2.0, 0.0], z
'''
