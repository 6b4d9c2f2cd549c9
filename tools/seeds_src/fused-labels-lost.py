PROP = 'C17'; FILE = 'utils/_misc.py'
EDITS = [('    fused_mesh.user_dict.update(mesh.user_dict)\n', '')]
NEEDS = 'a mesh with labels (user_dict)'
BREAKS = 'the fused mesh has lost the labels of its groups'
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.ImageData(dimensions=(4, 2, 1)).cast_to_unstructured_grid()
m.cell_data["CellGroup"] = [0, 1, 1]
m.user_dict["CellGroup"] = {"a": 0, "b": 1}
f = pvg.fuse_cells(m, [1, 2])
assert sorted(pvg.get_cell_group(f)) == ["a", "b"], f.user_dict
'''
