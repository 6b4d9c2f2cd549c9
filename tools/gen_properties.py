"""Writes properties.jsonl (kept as code so that long texts stay readable)."""
import json, pathlib
P=[]
def p(id,title,statement,over,q,why,files,state,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
G='pvgridder/core/geometric_objects.py'; H='pvgridder/core/_helpers.py'; B='pvgridder/core/_base.py'
S='pvgridder/core/stack.py'; E='pvgridder/core/extrude.py'; MM='pvgridder/core/merge.py'; V='pvgridder/core/voronoi.py'
U='pvgridder/utils/_misc.py'; PR='pvgridder/utils/_properties.py'; CO='pvgridder/utils/_connectivity.py'; I='pvgridder/utils/_interactive.py'

p('C01','Subdivision law: where resolution and method put the subdivisions',
  "Every generator and builder that takes a number of subdivisions n puts them at the relative positions i/n ('constant' or no method), log10(1+9i/n) ('log_r', large to small) or their mirror image 1-log10(10-9i/n) ('log', small to large) of the interval, i = 0..n, n below 1 or omitted meaning one subdivision. A one-dimensional list of relative positions is used exactly as given, in increasing order. An unknown method name and a multi-dimensional list are refused with ValueError.",
  ['inputs','configurations'],'every resolution (omitted, any integer, any list of positions), every method, in every public generator or builder argument that accepts them',
  'The tests call each generator with one or two resolutions and check cell counts; the law ranges over all counts, methods, lists and all ~15 entry points that must share it.',
  [H,G,B,E,V],[('relative positions','increasing sequence of fractions of the interval',H)],
  [('resolution_to_perc',H),('generate_line_from_two_points',H),('generate_arc',H)],['points of the returned meshes'])
p('C02','Planar surfaces and lines: points, data and hidden cells are where asked',
  "A structured surface between two lines, in each of the six plane orientations, has at (line index i, subdivision j) exactly the point a_i + p_j (b_i - a_i) with the point data of a_i, gives every cell the cell data of its segment of the first line, and marks hidden exactly the cells of zero area. Quadrilaterals, rectangles and squares are the bilinear grid of their corners shifted by the requested center. A regular line has resolution+1 points at equal arc length along the given polyline, and a curved line makes resolution equal steps whose direction turns uniformly from the start to the end direction over the requested total length.",
  ['inputs','configurations'],'every pair of equally long lines (meshes or coordinates, with data), plane orientation, resolution and method; every corner set, size and center; every polyline, direction pair, length and resolution',
  'Tests check total area/length sums for a few fixed shapes; a transposed orientation, permuted data or misplaced interior point keeps those sums.',
  [G,H],[('structured surface','points, cell data and hidden flag by (i, j)',H)],
  [('generate_surface_from_two_lines',H),('StructuredSurface, Quadrilateral, Rectangle, Square',G),('RegularLine, CurvedLine',G)],['points, dimensions, point/cell data of the returned mesh'])
p('C03','Circular and mixed circular/rectangular objects have the requested geometry',
  "Annular sectors, annuli, sectors, circles and cylindrical shells have their points at the requested radii, angles and heights (subdivided by the subdivision law, angles from theta_min to theta_max, heights centred on the center) shifted by the center, with one cell per (radius, angle, height) interval. Rectangle/square-minus-sector and sector-minus-rectangle/square objects join the quarter arc [0,45] to the vertical side and [45,90] to the horizontal side of the rectangle, subdivided along and across by the requested resolutions and methods. Radii that describe no such object (negative or non-increasing radii, a sector not strictly inside or outside its rectangle) are refused with ValueError.",
  ['inputs','configurations'],'all radii, angle ranges, heights, sizes, resolutions, methods per direction, and centers (2 or 3 coordinates)',
  'Tests check one area or volume per object with default-like arguments; they never look at where interior points are nor combine methods, resolutions and centers.',
  [G,H],[('polar grid','points by (radius, angle, height) index',G)],
  [('AnnularSector, Annulus, Sector, Circle',G),('CylindricalShell, CylindricalShellSector',G),('RectangleSector, SectorRectangle, SquareSector, SectorSquare',G),('generate_arc, translate',H)],['points, cells and hidden flags of the returned mesh'])
p('C04','Polygon meshes tile exactly the shell minus the holes',
  "A polygon meshed with triangles or quads is a conforming tiling of the region inside the shell and outside the holes: cells have positive area and do not overlap, every interior edge is shared by exactly two cells, every boundary edge lies on the shell or on a hole, and the cell areas add up to the area of the region. Without meshing, the result is the one polygon of the shell points, and holes are then refused with ValueError, as are unknown cell types and, when meshing, unknown engines. The same holds for both geometry engines, and for shells and holes given as coordinates, closed or open, or as meshes, in whichever plane coordinate z they lie.",
  ['inputs','configurations'],'every simple shell, set of disjoint holes, cell type, cell size, algorithm and engine',
  'Tests compare one total area for one shell with one hole per option; overlap, missing cells compensating elsewhere and non-conforming edges stay invisible.',
  [G],[('tiling','cells and their edge-sharing structure',G)],[('Polygon',G)],['points, cells and cell types of the returned mesh'])
p('C05','Volume extrusion keeps cell types, orientation, data and collapsed cells',
  "The volume between two matching surfaces has, for every surface cell and every subdivision interval, one cell of the matching volumetric type (quads and pixels give hexahedra, triangles give wedges, polygons give closed polyhedra with outward faces) whose bottom and top are the interpolated surface cell. It repeats the point and cell data of the first surface for every subdivision, and marks hidden exactly the cells of zero thickness. Surfaces that do not match (type, size, cell types, dimension) are refused with ValueError.",
  ['inputs','configurations'],'every pair of matching 2-D surfaces (structured in each orientation, unstructured, mixed cell types, polygons convex or not, either direction), resolution and method, with scalar and vector data',
  'Tests sum volumes of a few lattice extrusions; cell identity, data placement, face orientation and collapse flags of individual cells are not looked at.',
  [H,G],[('extruded mesh','cells keyed by (surface cell, interval)',H)],[('generate_volume_from_two_surfaces, repeat_structured_data',H),('Volume',G)],['points, connectivity, faces, cell types and data of the returned mesh'])
p('C06','Stacked layers: interface elevations obey priority, thickness and direction',
  "In a stacked mesh every item's interface is its requested elevation (constant offset from the previous item, function, interpolated dataset, plane) except where consecutive interfaces would cross or come closer than the item's minimum thickness; there the one with the lower priority moves (the earlier one on equal priority) to exactly the minimum thickness. Layers never invert along the stacking axis in the stacking direction, and layers of zero thickness are present but hidden. The layer between two interfaces is subdivided by its item's resolution and method.",
  ['inputs','histories','configurations'],'every sequence of items, base mesh (line, structured, unstructured), axis, stacking direction, priorities, thicknesses, elevations (crossing or not), resolutions and methods',
  'Tests use a handful of stacks with one crossing and check total sizes; the law is about all histories of additions and every column of points.',
  [B,S],[('interfaces','elevation of every base point for every item',B),('items','resolution, method, priority, thickness, group per item',B)],
  [('MeshStackBase.add, _interpolate, _generate_mesh',B),('MeshStack2D, MeshStack3D.add_plane',S)],['points and hidden flags of the generated mesh'])
p('C07','Column, layer and item ids identify the cell each generated cell comes from',
  "In every mesh generated by stacking or extrusion, each cell's column id is the id of the base cell below it, its layer id is its rank from the first interface (0 upwards, contiguous over items) and its item id is the item that produced it. Each (column, layer) pair occurs exactly once and the geometry and base-mesh cell data of that cell are those of that base cell and layer. Cells of transition layers carry column id -1 and one common layer id.",
  ['inputs','histories','configurations'],'every base mesh kind and orientation, stacking axis, sequence of items and resolutions',
  'Tests check array presence and lengths; which cell carries which id depends on orientation, axis, and mesh kind.',
  [B,E,S],[('ColumnId, LayerId, StackItem, ExtrudeItem','provenance of a cell',B)],[('MeshStackBase._generate_mesh',B),('MeshExtrude.generate_mesh',E),('merge',U)],['cell data of the generated mesh, keyed by geometry'])
p('C08','Group law: every generated cell gets the group its rules select',
  "A generated cell belongs to the last group rule of its item that selects its base cell (all cells, mask, indices, function, base-group name or list of names, each negated by a tilde on the name or on the key), else to its base cell's own group unless that group is ignored, else to the item's or builder's default group. The group table maps exactly the names in use to distinct numbers 0..k-1, and the group name read back for every cell is the one the rules give. Selectors that are neither masks, indices, names nor functions are refused with ValueError.",
  ['inputs','histories','configurations'],'every base grouping, ignore list, default name, per-item rule (all selector kinds, negations, overlapping rules, several items) in every builder',
  'Tests exercise a few selector kinds on one item and one numbering; collisions between old and new numbering need particular rule sequences.',
  [B,E,S,MM,V],[('groups','name to number table of the generated mesh',B)],[('MeshBase._initialize_group_array, _clean, _get_group_number',B)],['group names read back from the generated mesh'])
p('C09','Extrusion applies translation, scaling and rotation item after item',
  "Each interface of an extruded mesh is the previous interface translated by the item's vector, then scaled by the item's factor about its own bounding-box center, then rotated by the item's angle about the vector through that center, omitted factors and angles taking the builder's defaults. The layer between two interfaces is the volume extrusion between them with the item's resolution and method. The base mesh must be two-dimensional, the vector must have three components, and at least one item is needed, otherwise ValueError.",
  ['inputs','histories','configurations'],'every 2-D base mesh, sequence of vectors, scales, angles, defaults, resolutions and methods',
  'Tests run a single parameter set and check the cell count and ids; order and pivot of the transformations are not settled by them.',
  [E],[('interfaces','points of every item',E)],[('MeshExtrude.add, generate_mesh',E)],['points and cells of the generated mesh'])
p('C10','Mesh merger: keeps every cell once, joins coincident points, keeps groups',
  "The merged mesh has exactly the cells of all added meshes, each once with its geometry, hidden flag, values of the cell-data arrays common to all meshes, and its group (its own group unless ignored or missing, else the group given when it was added, else the default). Points closer than the tolerance are shared and no two points of the result coincide. Generating again gives the same mesh, and at least one mesh must have been added (ValueError otherwise).",
  ['inputs','histories','configurations'],'every sequence of added meshes of any kind (structured, unstructured, images, polydata), group arguments and ignore lists, and repeated generation',
  'Tests merge two or three fixed meshes once; identity of cells and groups over all histories is not covered.',
  [MM,B],[('items','added meshes and their default groups',MM)],[('MeshMerge.add, generate_mesh',MM),('MeshBase._clean',B)],['cells as coordinate sequences and group names of the generated mesh'])
p('C11','Structured merge concatenates grids along the axis; mismatches are refused',
  "Merging structured grids along an axis gives the grid whose points and cells are those of the inputs in order along that axis with each common interface once, and keeps every cell-data array common to all inputs on the cells it belongs to. Grids whose interfaces do not match, or a missing axis, are refused with ValueError. Merging when one mesh is unstructured keeps every cell of every input once with its data, sharing coincident points only when asked, and a single mesh is returned as is.",
  ['inputs','configurations'],'every list of two or more grids, each axis, scalar and vector data arrays, merging or not of points',
  'Tests merge two grids per axis and check counts; data placement on all axes and chains of grids are not checked.',
  [U],[('grid','points and cell data by structured index',U)],[('merge',U)],['points, dimensions, cell data of the returned mesh'])
p('C12','Voronoi mesh is the clipped Voronoi tessellation of its generators',
  "Wherever the parts of the background domain (holes excluded) closer to one generator than to any other are simple polygons, the cells of a generated Voronoi mesh are those parts: no vertex is farther from the generator of its cell than from another one, the cells tile the domain (no overlap, no gap, areas adding up to the domain area), there is one cell per active generator, and it carries that generator's coordinates in X, Y and Z. Cells are oriented counter-clockwise or clockwise as requested (fused cells aside). This holds with the background mesh's cells or points as generators, for each discarded axis, wherever the mesh is placed and also if generators are collinear on the border of the domain.",
  ['inputs','configurations'],'every background domain (convex or not, with holes), generator set, axis, data preference and orientation',
  'Tests generate a few meshes and check the cell count and total area; nearest-generator membership and orientation of each cell are not checked.',
  [V],[('tessellation','cells with their generator',V)],[('VoronoiMesh2D.generate_mesh, _generate_voronoi_tesselation, _compute_signed_area',V)],['cells, X/Y/Z generator arrays of the returned mesh'])
p('C13','Voronoi generators: priorities, domain filtering and constrained shapes',
  "The active generators of a Voronoi mesh are the background ones and the centers of every added cell inside the domain, except those inside a kept cell (one whose own center is in the domain) of an added mesh handled later in order of absolute priority (ties: order of addition) with higher or equal (strictly higher if its priority is negative) absolute priority. Added items outside the domain contribute nothing, and each active generator keeps its group (its item's, else the default group). A circle and a polyline add the cells of their sectors, respectively of their strip of the given width, padding and subdivisions, bordered by a ring, respectively end and side cells, of constraints in the default group. If the shape and its constraints are complete, in the domain and closer to its rim than every other generator, a circle's group covers exactly the regular polygon of the requested radius and resolution (a single fused cell if plain), and a straight polyline's group exactly its strip.",
  ['inputs','histories','configurations'],'every sequence of added points, meshes, circles and polylines, with any priorities, groups, positions (inside, outside, straddling) and discarded axis',
  'Tests add one circle or line in one background; orderings of overlapping items with priorities are not enumerated.',
  [V],[('generators','ordered points with active flag, group and priority',V)],[('VoronoiMesh2D.add, add_circle, add_polyline, generate_mesh',V)],['generator coordinates and groups of the returned mesh'])
p('C14','Cell geometry and neighbourhood: shared faces and edges exactly once',
  "The extracted cell geometry of a mesh lists every face (edge in 2-D) of its visible cells exactly once, with exactly the ids of the cells that own it, padded with -1. Two cells are neighbours if and only if they share such a face or edge, the neighbourhood is symmetric, and the neighbour lists and the connectivity mesh have one entry, respectively one line between the given (or computed) centers, per pair of neighbours and face or edge they share. Hidden and empty cells own nothing when ghost cells are removed, and zero-size faces are then dropped.",
  ['inputs','configurations'],'every 1-D/2-D/3-D mesh of supported cell types including single cells, mixed types, polyhedra, non-manifold faces, hidden, empty and collapsed cells, with ghost removal on and off',
  'Tests check the number of faces on a few grids; owners of each face on irregular meshes are not.',
  [U,CO],[('face table','vertex set to owner cells',U)],[('extract_cell_geometry, _celltype_to_faces',U),('get_neighborhood, get_connectivity',CO)],['faces/lines with owner ids, neighbour lists, connectivity lines'])
p('C15','Cell connectivity, centers and dimension describe the mesh faithfully',
  "The cell connectivity returns for every cell, in order, its point ids (its list of faces for polyhedra), and its flattened form rebuilds the same mesh. Cell centers are the centers of all cells, hidden ones included, not-a-number for empty ones, with polyhedra at the center of the box, the average of their points or the true centroid as requested. The dimension of a mesh is the highest dimension of its cells, or the number of structured directions with more than one point.",
  ['inputs','configurations'],'every mesh kind and mix of cell types, with or without hidden and empty cells, every center method',
  'Tests cover a few example meshes; mixtures with empty/hidden cells and all methods are combinatorial.',
  [PR],[('cells','type and point ids of each cell',PR)],[('get_cell_connectivity, get_cell_centers, get_dimension',PR)],['return values'])
p('C16','Cell extraction selects exactly the requested cells with their data',
  "Extracting cells by indices or mask, or their complement, returns exactly those cells with their geometry, type, cell and point data, original ids and hidden flags, whether or not they are hidden. Extraction by dimension returns exactly the cells of dimension at most ('lower') or at least ('upper') the given one, empty cells being kept only on request. The input mesh is unchanged (up to the original-id arrays pyvista's own extraction leaves on it), and an unknown method is refused with ValueError.",
  ['inputs','configurations'],'every mesh, selection (indices in any order, duplicates, masks, inverted), hidden flags, dimension, method',
  'Tests select a couple of index sets on one grid.',
  [U],[('selection','set of cell ids',U)],[('extract_cells, extract_cells_by_dimension',U)],['cells and data of the returned mesh, keyed by original id'])
p('C17','Fusing cells replaces each set by its union and leaves the rest alone',
  "Fusing sets of connected 2-D cells replaces each set by one polygon covering exactly its union, in place of and with the data of the first cell of the set, and every other cell is kept with its geometry, data and order. Total area and the mesh's category tables are preserved, and hidden or unused leftovers do not appear. Sets that are not fully connected, or have holes, are refused with ValueError and 3-D ones with NotImplementedError.",
  ['inputs','configurations'],'every 2-D mesh (structured, triangles, polygons), and family of disjoint cell sets given by indices or masks',
  'Tests fuse one or two sets and check counts.',
  [U],[('partition','cells of the input by cell of the output',U)],[('fuse_cells',U)],['cells and data of the returned mesh'])
p('C18','Boundary polygons are exactly the boundary loops, holes with their shell',
  "The boundary polylines of a surface mesh, taken together, contain every edge owned by exactly one cell once and no other edge, each loop being closed and meeting itself nowhere. With hole grouping (loops touching no other loop), every loop lying inside another is grouped after the shell that encloses it, in whichever coordinate plane the mesh lies. A filled polygon covers the region of its loops, and a mesh without boundary gives no polygons.",
  ['inputs','configurations'],'every planar surface mesh, with several components and holes, in each coordinate plane, every option combination',
  'Tests look at the number of polygons for a few shapes in the xy plane.',
  [U],[('boundary loops','cycles of boundary edges',U)],[('extract_boundary_polygons',U)],['returned polylines and polygons'])
p('C19','Splitting and merging lines is lossless and order preserving',
  "Splitting a polydata yields one mesh per line cell, in order, with its points, point data and cell data, as single segments or as one polyline as requested. Merging lines yields all of them in the order given with common point and cell data kept on the right points and cells, sharing coincident points. Merging the split lines gives back the same segments.",
  ['inputs','histories','configurations'],'every set of lines and polylines (open, closed, sharing points), scalar, vector and string data, both output forms',
  'Tests cover one or two lists of lines, checking counts.',
  [U],[('line list','ordered point sequences with data',U)],[('split_lines, merge_lines',U)],['returned meshes'])
p('C20','Line and point reduction keep the shape within tolerance',
  "Decimating polylines keeps both end points and a subsequence of the original points, removes no point farther than the tolerance from the straight line through the kept points before and after it, and keeps every point the recursive farthest-point rule keeps. Averaging points replaces each group of points chained by distances within the tolerance by one point at their mean and leaves others alone, dropping faces that collapse to fewer than three points and recording the original id of the kept ones. Reconstructing a line returns each given point exactly once, starting from the requested point, closed if asked, and is never longer than in the input order, nor than with any one stretch of it reversed.",
  ['inputs','configurations'],'every polyline, point set, polygon mesh and tolerance',
  'Tests use one curve with a known count.',
  [U],[('kept points','subsequence or partition of the input points',U)],[('decimate_rdp, average_points, reconstruct_line',U)],['returned meshes'])
p('C21','Polygon offset and quadratic conversion are geometrically exact',
  "Offsetting a polygon moves every edge parallel to itself by the given distance, outward if positive and inward if negative whatever its orientation and coordinate plane, keeping the polygon in its own plane and the number and order of vertices; a zero distance returns a copy, and non-planar or missing polygons are refused with ValueError. Converting a mesh of triangles and quads to quadratic cells keeps corner points and cell order and adds to every cell the midpoint of each of its edges in edge order, other cell types being refused.",
  ['inputs','configurations'],'every simple planar polygon (convex or not, either orientation, each plane at any height), distance; every triangle/quad mesh',
  'Tests offset one polygon in the z=0 plane and count points.',
  [U],[('edges','ordered vertices of each polygon',U)],[('offset_polygon, quadraticize',U)],['points and cells of the returned mesh'])
p('C22','Category remapping changes exactly the mapped values and keeps labels true',
  "Remapping categorical data gives every cell or point whose old value (or old label) is mapped its new value and leaves all others unchanged, simultaneously for all entries (swaps included). Every label that still has cells or points keeps naming exactly its own ones and labels without any disappear, so that reading names back gives the same name per cell as before. Unknown labels, non-integer data or an unknown association are refused with ValueError, and the input is modified only if asked.",
  ['inputs','histories','configurations'],'every data array, label table, mapping keyed by labels or values (partial, swapping, to fresh values), cell or point data, in place or not',
  'Tests remap one table once.',
  [U,PR],[('labels','name to value table',U)],[('remap_categorical_data',U),('get_cell_group',PR)],['data arrays and label tables, group names'])
p('C23','Ray casting and polyline intersection follow the line through the mesh',
  "Ray casting returns exactly the faces (edges in 2-D) crossed by the segment (in 3-D those whose normal is within the largest angle asked for), each with its owner cells and the point where it is crossed. Intersecting a polyline with a mesh returns it as a chain of straight pieces from its first to its last point, cut exactly where the polyline enters or leaves a cell: there is one piece per stay in a cell, it names that cell, pieces outside the mesh run along the vertices of the polyline and name cell -1, and every piece names the line segment on which it ends and carries that segment's data. The options to ignore points before entry or after exit drop exactly the pieces outside.",
  ['inputs','configurations'],'every mesh (2-D and 3-D grids, triangles) and polyline in general position relative to it, with and without the ignore options',
  'Tests run one line through one mesh and check counts or total length.',
  [U],[('crossings','ordered points along the line with cell ids',U)],[('ray_cast, intersect_polyline',U)],['points and cell data of the returned polyline'])
p('C24','Operations do not alter their inputs and can be repeated',
  "No public function or builder call changes the meshes, arrays or lists passed to it (unless called in place), nor previously returned meshes, whatever sequence of calls is made; data, hidden flags, group tables and points included. Generating a mesh from the same builder again, or repeating a call with the same arguments, gives the same result. Adding further items after generating gives the mesh of the full item list. A builder takes base meshes, item meshes and point arrays as they are when given to it: neither changing them afterwards nor changing a generated mesh affects meshes generated later.",
  ['histories','inputs','configurations'],'every sequence of calls on shared meshes and builders',
  'Tests call each function once on a fresh mesh and never compare the inputs afterwards.',
  [B,S,E,MM,V,U,PR,CO,H,G],[('workspace','contents of all live meshes, arrays and builders',B)],[('defensive copies in constructors, add and generate_mesh; restoring of hidden flags',B)],['fingerprints of every live object before and after every call'])
p('C25','Interactive selection returns exactly what the user picked or enclosed',
  "After any sequence of picks the element selection returns the ids picked an odd number of times, in the order of their last activation, and highlights exactly those. The lasso selection returns exactly the ids of the cells (by center, hidden ones included) or points whose projection in the chosen view lies inside the drawn polygon, and that polygon if asked. Both show the mesh once, in the requested view, and refuse an unknown view with ValueError.",
  ['schedules','histories','inputs'],'every sequence of picks or clicks, mesh, view (also reversed) and preference',
  'Tests cannot drive the graphical callbacks; there is no test of the selection state machine.',
  [I],[('actors','currently highlighted ids',I)],[('interactive_selection, interactive_lasso_selection',I)],['return values and calls received by the plotter'])
pathlib.Path(__file__).resolve().parent.parent.joinpath('properties.jsonl').write_text('\n'.join(json.dumps(x) for x in P)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
