PROP = 'C24'; FILE = 'utils/_properties.py'
EDITS = [('    if ghost_cells is not None:\n        mesh.cell_data["vtkGhostType"] = ghost_cells\n\n    return centers', '    if ghost_cells is not None and ghost_cells.any():\n        mesh.cell_data["vtkGhostType"] = ghost_cells\n\n    return centers')]
NEEDS = 'a mesh carrying a vtkGhostType array without any flag set'
BREAKS = "asking for the cell centres removes the array from the caller's mesh"
DEMO = '''
import numpy as np, pyvista as pv, pvgridder as pvg
m = pv.ImageData(dimensions=(3, 3, 1)).cast_to_unstructured_grid()
m.cell_data["vtkGhostType"] = np.zeros(m.n_cells, dtype=np.uint8)
pvg.get_cell_centers(m)
assert "vtkGhostType" in m.cell_data, m.cell_data.keys()
'''
