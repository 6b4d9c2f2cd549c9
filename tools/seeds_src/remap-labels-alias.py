PROP = 'C22'; FILE = 'utils/_misc.py'
EDITS = [('        data_labels = dict(mesh.user_dict[key])', '        data_labels = mesh.user_dict[key]')]
NEEDS = 'a labelled array remapped into a new mesh (inplace=False), the caller keeping the old one'
BREAKS = "the labels of the caller's mesh are changed along"
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.ImageData(dimensions=(4, 2, 1)).cast_to_unstructured_grid()
m.cell_data["g"] = [0, 1, 2]
m.user_dict["g"] = {"a": 0, "b": 1, "c": 2}
r = pvg.remap_categorical_data(m, "g", {"a": 7})
assert dict(m.user_dict["g"]) == {"a": 0, "b": 1, "c": 2}, m.user_dict
assert dict(r.user_dict["g"]) == {"b": 1, "c": 2, "a": 7}, r.user_dict
'''
