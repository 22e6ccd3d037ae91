"""Writes properties.jsonl (kept as a script only so that the statements are easy to edit)."""
import json
import os

P = []


def prop(id_, title, statement, over, qtext, why, files, mechanism, observe_at=None, state=None):
    assert len(title) <= 80, (id_, len(title))
    d = {'id': id_, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe_at:
        d['anchors']['observe_at'] = [observe_at]
    P.append(d)


G = 'crysgsu/gsu/grid.py'

prop('P01', 'Loading a grid file reproduces exactly the surface written in it',
     'After a grid file is loaded, the grid has the title, zones (same names, same order), faces (same order, same '
     'three points in the same order, same values of every face variable, bit for bit) that the file states, and '
     'nothing left over from whatever the grid object held before. Points whose coordinates agree to 10 decimal '
     'digits become one node shared by all zones when merging is on; when merging is off every node line of the '
     'file becomes its own node.',
     ['inputs', 'histories'],
     'every well-formed grid file (any number of zones, any variable set, any surface where no edge has more than two '
     'faces, any node order inside zones), loaded into a fresh or a previously used grid object, with and without merging',
     'The suite loads a handful of sample grids and never compares the result with the file by an independent reading; '
     'merging across zones and reuse of a grid object are not exercised.',
     [G, 'crysgsu/gsu/node.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/zone.py'],
     [('grid loader', G + ' Grid.load'), ('node merging', G + ' Grid.add_node, Grid.find_near_node'),
      ('rounded coordinates', 'crysgsu/gsu/node.py Node.__init__')],
     'fields of the grid after loading: Name, Zones, Nodes, Faces, Data')

prop('P02', 'A loaded grid is one consistent node-edge-face-zone incidence structure',
     'After loading, links between nodes, edges, faces and zones are mutual and complete: every face has three distinct '
     'nodes and the three edges that join them, every edge joins two distinct nodes, is unique for that pair and lists '
     'exactly its one or two faces, identifiers of nodes, edges and faces are 0..n-1 each once. Every face belongs to '
     'exactly one zone, and the node and edge lists of a zone are exactly, without repetition, what its faces use.',
     ['inputs', 'histories'],
     'every well-formed grid file over every surface topology with at most two faces per edge: closed, open, with holes, '
     'disconnected, non-orientable, touching in a node, any zoning, loaded repeatedly into the same object',
     'The suite counts objects on two sample grids; a missing back link or a duplicated edge shows only on particular '
     'topologies and only to a later operation.',
     [G, 'crysgsu/gsu/node.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/zone.py'],
     [('edge creation and linking', G + ' Grid.complex_link_face_node_node_edge'),
      ('zone linking', G + ' Grid.link_nodes_and_edges_to_zones')],
     'Nodes/Edges/Faces/Zones lists and their cross references',
     [('Grid.Nodes, Grid.Edges, Grid.Faces, Grid.Zones', 'the incidence structure', G)])

prop('P03', 'Storing and reloading a grid loses nothing and is a fixed point',
     'A grid that is stored and loaded again has the same title, zones, faces, coordinates and face values, each '
     'floating point number bit for bit, and storing what was reloaded produces the same bytes. Stored files are well '
     'formed for any reader of the format: counts match the lists, and connectivity indices are 1-based inside their zone.',
     ['inputs', 'histories'],
     'every grid reachable by loading and re-zoning, with arbitrary finite coordinates and values including denormal, '
     'huge, negative zero and values needing 17 digits',
     'The suite stores the sample grids and does not compare contents; precision loss depends on the particular values.',
     [G, 'crysgsu/gsu/zone.py'],
     [('writer', G + ' Grid.store'), ('value formatting', 'crysgsu/gsu/zone.py get_*_slice_str')],
     'bytes of the stored file, fields after reload')

prop('P04', 'Malformed and non-manifold grid files are rejected, not loaded',
     'Loading fails with an error when the file is not a valid surface grid: unknown line, wrong packing, zone type or '
     'variable location, missing count lines, fewer values or connectivity lines than announced, a node index out of '
     'range, a face without exactly three nodes, or an edge shared by three or more faces. Files that satisfy the '
     'format load without error.',
     ['inputs', 'fault_sequences'],
     'every single fault of those kinds injected at any place of any well-formed grid file, including truncation of the '
     'file at any line',
     'No test feeds a damaged file; whether a fault is noticed depends on where it falls.',
     [G],
     [('head validation', G + ' Grid.load'), ('face count per edge', G + ' Grid.link_edge_face')],
     'exception raised by load')

prop('P05', 'Every decomposition is a partition of the faces with the promised sizes',
     'After mono, random, linear, hierarchical or breadth-first (Farhat) decomposition every face is in exactly one zone, '
     'zone node and edge lists match their faces, and nodes, edges, faces and face data are otherwise unchanged. Linear '
     'and breadth-first decomposition give the requested number of zones with sizes differing by at most one (linear '
     'zones are runs of consecutive faces), random gives the requested number of zones, and hierarchical with L levels '
     'gives at most 2^(L-1) non-empty new zones, which is reached whenever every zone can be split, none of them '
     'mixing faces of different ancestors. Faces moved between zones by hand are in the zone they were put to last and only there.',
     ['inputs', 'configurations', 'histories'],
     'all five methods, any zone count (also larger than the number of faces) or level count, any surface, in any sequence '
     'of decompositions applied to the same grid',
     'The suite only runs the methods on sample grids without looking at the result; loss or duplication of faces shows on '
     'particular counts, ties and sequences.',
     [G, 'crysgsu/gsu/zone.py', 'crysgsu/gsu/face.py'],
     [('decompositions', G + ' Grid.decompose_mono/random/linear/hierarchical/farhat'),
      ('zone splitting', G + ' Grid.split_zone'), ('post processing', G + ' Grid.post_decompose')],
     'Zones and their lists after each call')

prop('P06', 'Fixed zones survive decomposition untouched',
     'When zones are named as fixed in a hierarchical or breadth-first decomposition, each of them exists afterwards under '
     'the same name with exactly the same faces, no other face is added to it, and all other faces are distributed over '
     'the new zones with the promised counts and balance. A later decomposition without fixed zones, or with other ones, '
     'redistributes them normally.',
     ['inputs', 'configurations', 'histories'],
     'every subset of zones fixed, both methods, all counts and levels, repeated decompositions with different fixed sets',
     'No test fixes a zone except one sample configuration; leaks need particular orders of fixed and free faces.',
     [G],
     [('fixed marks', G + ' Grid.decompose_hierarchical, decompose_farhat, unlink_faces_from_zones')],
     'face sets of zones before and after')

prop('P07', 'Domain files together describe the whole grid, each face exactly once',
     'Storing for MPI writes one file per zone, named base_rank_timestamp, whose header counts match its contents; over '
     'all files every face appears exactly once under its global identifier with the same oriented points and the same '
     'values of the fixed variable list (zero where the grid has no such variable). Inside each file local node, edge '
     'and face-edge tables are mutually consistent: each edge once, each face referring to the edges joining its nodes.',
     ['inputs', 'configurations'],
     'every grid and every decomposition of it, including zones that are empty, disconnected, or touch only in a node',
     'The suite stores one sample and reads nothing back; there is no reader of these files in the repository.',
     [G, 'crysgsu/gsu/zone.py'],
     [('domain writer', G + ' Grid.store_mpi')],
     'text of the domain files')

prop('P08', 'Borders between domain files are symmetric and match edge by edge',
     'For any two domains, the border list that each holds for the other has the same length, and its i-th entry is the '
     'same geometric edge in both files; those entries are exactly the edges having one face in each of the two zones. '
     'A domain lists borders only with domains it shares edges with, and its cross-edge count is the total over its borders.',
     ['inputs', 'configurations'],
     'every grid and decomposition, any numbers of neighbours and any numbering of nodes, edges and zones',
     'Exchange pairs values by position, so an order mismatch silently swaps values between faces and no test compares two '
     'domain files.',
     [G, 'crysgsu/gsu/zones_adjacency_matrix.py', 'crysgsu/gsu/edge.py'],
     [('border lists', G + ' Grid.store_mpi'), ('neighbour test', 'crysgsu/gsu/edge.py Edge.is_connect_zones')],
     'MPI-BORDERS sections of all files of one split')

prop('P09', 'The split tool turns a grid file into a correct set of domain files',
     'Splitting a grid file with strategy h<n> or n<n>, optional fixed zones and a recovery factor produces the promised '
     'number of domains (2^n plus fixed zones when every zone can be split, or exactly n in total), preserving every face, '
     'value and fixed zone, names the files by the grid base name, five-digit rank and the timestamp of the grid name '
     '(zeros when it has none), and gives every face a recovery factor: its own if the grid has one, otherwise the given '
     'value. Wrong file names, unknown zones or strategies, zero domains and too many fixed zones are errors, and the '
     'input file is never changed. The command line takes exactly one kind of output.',
     ['inputs', 'configurations', 'histories'],
     'any grid, strategy, fixed zone set, JSON configuration, file name with or without timestamp, output as domain files '
     'or as one grid file, existing or new output directory',
     'No test runs the tool; naming, defaults and fixed zones interact.',
     ['crysgsu/split.py', 'crysgsu/utils.py', G],
     [('split', 'crysgsu/split.py split'), ('configuration', 'crysgsu/split.py extract_*_from_json')],
     'files in the output directory, returned grid, errors')

prop('P10', 'The merge tool reassembles calculation results for the right faces and times',
     'Merging a directory of result files with the original grid writes exactly one grid per timestamp, in which every '
     'face carries the values stated for its global identifier at that timestamp (or its values in the grid when none are '
     'stated), whatever the number of domain files, their listing order and the presence of foreign files. Balance tables of all domains are added column by column '
     'while time is kept, into one table, and inputs are left unchanged.',
     ['inputs', 'configurations', 'histories', 'schedules'],
     'any split of the faces over result files, any set of timestamps, any directory listing order, extra files of other '
     'grids and kinds, one or many rows in the tables',
     'No test runs the tool; errors show only with several timestamps, particular listing orders or single-row tables.',
     ['crysgsu/merge.py', 'crysgsu/utils.py', G],
     [('merge', 'crysgsu/merge.py merge'), ('calc data reader', G + ' Grid.load_faces_calc_data'),
      ('grouping', 'crysgsu/utils.py group_txt_files_by_timestamps')],
     'files written to the destination directory')

prop('P11', 'Any sequence of atomic mesh transformations keeps the grid consistent',
     'After any sequence of dividing faces, swapping the longest edge of a face, splitting inner or border edges with one '
     'or two points, and collapsing edges, on a place where the operation is topologically admissible, all incidence '
     'links, unique edges, dense identifiers and zone lists are still consistent, and the numbers of nodes, edges and '
     'faces change exactly as the operation says, so the Euler characteristic stays the same. An operation that does not '
     'apply to an edge because of its number of faces says so and changes nothing, the grid can be stored and reloaded '
     'after every step, and a node added with merging at the place of a node of the grid is that node (and a new one where no '
     'node is any more).',
     ['histories', 'inputs'],
     'random admissible sequences of the six operations on surfaces of all topologies and zonings, including places on '
     'zone borders',
     'The suite applies each operation once to a single-zone grid and checks only identifiers; errors accumulate over '
     'sequences and at zone borders.',
     [G, 'crysgsu/gsu/node.py'],
     [('transformations', G + ' divide_face, collapse_face, cut_edge, collapse_edge, cut_single_edge, cut_edge_with_two_nodes'),
      ('removal', G + ' del_face, del_edge, del_node; crysgsu/gsu/node.py replacing_node')],
     'the incidence structure after every step')

prop('P12', 'Atomic transformations place geometry, data, zones and orientation correctly',
     'Splitting a face or an edge with points on it covers exactly the same area as before, each piece lying in the face it '
     'came from and keeping its data, zone and orientation (direction of normal), and leaves every other face '
     'untouched. Swapping an edge replaces two faces by the two other triangles of the same four nodes with the same '
     'orientation and the data of one of the two; collapsing an edge moves the merged node to the middle of the edge and '
     'keeps data, zone and orientation of all surviving faces.',
     ['histories', 'inputs'],
     'every admissible place in random sequences of operations on oriented surfaces with distinct data in every face',
     'The suite never looks at coordinates, data or orientation after a transformation.',
     [G, 'crysgsu/gsu/node.py'],
     [('transformations', G + ' divide_face, collapse_face, cut_edge, collapse_edge, cut_single_edge, cut_edge_with_two_nodes')],
     'oriented faces with data before and after each operation')

prop('P13', 'Zone adjacency statistics equal a direct count over the edges',
     'The zone adjacency matrix is symmetric, its diagonal counts inner edges, its other cells count edges between two '
     'zones and its last column counts border edges, so that all statistics derived from it (edges totals and percents, '
     'cross-edge and neighbour counts of a zone, longest border) equal what is counted directly from the faces, and every '
     'edge is counted once. Edge predicates (border, inner, cross, outer, connecting two zones) agree with it.',
     ['inputs', 'configurations'],
     'all surfaces and zonings, including empty zones, single zones and zones touching only in a node',
     'Tests do not check any number of the matrix.',
     ['crysgsu/gsu/zones_adjacency_matrix.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/zone.py', G],
     [('matrix', 'crysgsu/gsu/zones_adjacency_matrix.py ZonesAdjacencyMatrix'),
      ('predicates', 'crysgsu/gsu/edge.py is_border/is_cross/is_inner/is_outer/is_connect_zones')],
     'matrix cells and statistics')

prop('P14', 'Breadth-first face paths visit every wanted face once, layer by layer',
     'A breadth-first path from a face visits exactly the faces satisfying the predicate, each once; inside every '
     'connected component faces come in order of non-decreasing distance (through shared edges, inside the wanted faces) '
     'from the first face of that component, and components are not interleaved. A start face that does not satisfy the '
     'predicate is not included, and breadth-first decomposition therefore gives connected zones whenever the remaining '
     'free part around the start is large enough.',
     ['inputs', 'histories'],
     'all surfaces (also disconnected), all start faces and predicates, repeated calls',
     'Tests only run it inside one decomposition.',
     [G],
     [('bfs', G + ' Grid.bfs_path, bfs_path_connectivity_component')],
     'returned list of faces')

prop('P15', 'Segment-triangle intersection agrees with exact arithmetic at every scale',
     'For a segment not parallel to the triangle plane, intersection with a triangle is reported exactly when the two '
     'really meet, a mere touch of an end, a side or a vertex included (up to rounding at the rim), and the reported single point lies on both; this holds for triangles and '
     'segments of any practical size, from tenths of a millimetre to kilometres, at any position and orientation and for '
     'both directions of the segment. A segment lying in the plane of the triangle is reported to meet it exactly when it does, '
     'also when it runs along a side or touches only a vertex.',
     ['inputs'],
     'all non-degenerate triangles and segments, including ones through vertices and edges, end points on the plane, and '
     'tiny or huge sizes; coplanar pairs at unit scale',
     'Tests check a dozen hand-made unit-sized cases.',
     ['crysgsu/geom/triangle.py', 'crysgsu/geom/segment.py', 'crysgsu/geom/vect.py'],
     [('intersection', 'crysgsu/geom/triangle.py Triangle.intersection_with_segment')],
     'returned list of points')

prop('P16', 'Spatial search answers the same as checking every triangle',
     'Searching a triangle cloud for a segment returns a triangle that really meets the segment, the first one along '
     'it, whenever any triangle of the set does, and nothing otherwise; searching two clouds for common points returns exactly the pairs that meet '
     'when every pair is checked, with the same points. A bounding box contains all points it was built from, its point '
     'and overlap tests are exact for closed boxes, and building a cloud loses and duplicates no triangle.',
     ['inputs'],
     'any set of triangles (including identical, coplanar, axis-aligned, nested, equal centroids), any segments and pairs '
     'of sets',
     'Only one test builds clouds, from one sample.',
     ['crysgsu/geom/triangles_cloud.py', 'crysgsu/geom/box.py', 'crysgsu/geom/triangle.py'],
     [('cloud', 'crysgsu/geom/triangles_cloud.py TrianglesCloud'), ('box', 'crysgsu/geom/box.py Box')],
     'returned triangles compared with brute force')

prop('P17', 'Triangle-triangle intersection and point location are right and symmetric',
     'Two triangles in general position are reported to intersect exactly when they share a point, the reported points lie '
     'on both triangles and are pairwise distinct, and swapping the triangles or renumbering their corners changes nothing. '
     'A point is classified against a triangle as outside, at a vertex, on an edge or inside, as exact arithmetic does. Triangles lie in one plane, and points on a segment, exactly when they do.',
     ['inputs'],
     'all unit-scale pairs in general position, pairs sharing vertices or edges, points exactly at vertices, edges and '
     'inside, and points clearly outside in and off the plane',
     'Tests use a few fixed triangles.',
     ['crysgsu/geom/triangle.py', 'crysgsu/geom/vect.py'],
     [('triangle pair', 'crysgsu/geom/triangle.py intersection_with_triangle'),
      ('point location', 'crysgsu/geom/triangle.py point_in_triangle')],
     'returned points and codes')

prop('P18', 'Geometric measures equal their definitions',
     'Vector arithmetic, products, lengths, distances, angles, triangle area, unit normal (right-hand rule), centroid, '
     'shortest side and largest-angle test, tetrahedron volume and the volume swept by a displaced triangle equal their '
     'mathematical definitions evaluated exactly, never change their operands, and are invariant or covariant under '
     'permutation of corners, translation, rotation and scaling as the definitions are. The prizmatoid coefficients give '
     'the exact swept volume as a cubic in the height. Vectors are ordered by X, then Y, then Z, with coordinates closer '
     'than 1e-10 taken as equal, and of two vectors never each is less than the other.',
     ['inputs'],
     'random and extreme arguments over many scales and relabelings',
     'Tests check two vector sums.',
     ['crysgsu/geom/vect.py', 'crysgsu/geom/triangle.py', 'crysgsu/geom/utils.py'],
     [('vector', 'crysgsu/geom/vect.py Vect'), ('measures', 'crysgsu/geom/triangle.py area, normal_orth, centroid, min_side'),
      ('volumes', 'crysgsu/geom/utils.py')],
     'returned values compared with exact rational arithmetic')

prop('P19', 'A droplet flight ends with the right verdict and an honest trajectory',
     'A flight starts at the given point and each next point is the previous one moved by the current velocity over the '
     'time step, while velocity changes by drag towards the velocity of the nearest air data point. It stops with '
     'exactly one verdict: surface hit (the returned face is the first one the last segment meets and no earlier segment meets any face), out '
     'of space (last point is the first outside the air box), standstill, or too long (as many steps as the limit allows), so '
     'a flight never has more than the limit plus one points.',
     ['inputs', 'histories'],
     'any air field, start, velocity, droplet diameter, time step, step limit and surface',
     'No test runs a flight.',
     ['crysgsu/drops.py', 'crysgsu/geom/trajectory.py', 'crysgsu/geom/triangles_cloud.py'],
     [('flight', 'crysgsu/drops.py Space.fly, fly_step, find_nearest, inside')],
     'verdict, face and trajectory of each flight')

prop('P20', 'The drops tool adds secondary impingement only where droplets land',
     'The output grid has the surface of the input grid without the stall variables, with temperature, water and ice '
     'heights zeroed and all other values kept; the secondary impingement of a face changes only when a droplet from a '
     'face whose stall exceeds the threshold lands on it, to the stall of such a source (of any one of them, when there are several) divided by the '
     'area of the hit face. Exactly the faces above the threshold launch a droplet, from the distance above the centroid along the '
     'normal, and their trajectories are written in face order; the input files stay unchanged.',
     ['inputs', 'configurations'],
     'any surface with any stall field, any air field and parameters',
     'No test runs the tool.',
     ['crysgsu/drops.py', G, 'crysgsu/geom/trajectory.py'],
     [('drops', 'crysgsu/drops.py drops'), ('air reader', 'crysgsu/drops.py read_vel_field_from_file'),
      ('check point conversion', G + ' convert_grid_stall_to_check_point, clean_t_hw_hi')],
     'output grid and trajectories file')

prop('P21', 'Remeshing changes only node positions and clears ice heights',
     'Growing ice on a grid keeps its zones, faces, connectivity and every face value except the ice height, which is zero '
     'in every face afterwards; coordinates stay finite, and nodes none of whose faces has ice and which are not affected '
     'by smoothing do not move. With zero ice everywhere no node moves at all, and with ice every moved node moves to the '
     'outer side.',
     ['inputs', 'configurations', 'histories'],
     'any oriented surface and ice field, all option combinations including smoothing of normals and heights, any step '
     'limits, with and without volume redistribution, and repeated remeshing of the same grid',
     'No test runs the remesher.',
     ['crysgsu/remeshing.py', 'crysgsu/remesh.py'],
     [('remesher', 'crysgsu/remeshing.py TongRemesher.__call__, remesh_step, move_nodes')],
     'grid before and after remeshing')

prop('P22', 'Remeshing grows the requested ice volume',
     'The volume enclosed between old and new surface equals the sum over faces of area times ice height: exactly (to '
     'rounding) for constant ice on a flat plate, and on smooth closed surfaces with smoothly varying ice to within what '
     'faceting explains (a small multiple of the mean deviation between face and node normals), for any number of steps, '
     'whether or not the undelivered volume is redistributed over later steps.',
     ['inputs', 'configurations'],
     'flat plates, spheres, ellipsoids and tori of size 0.1 and more, any resolution and position; any ice height small '
     'against curvature; any number of steps, redistribution on and off, height smoothing on and off',
     'No test measures volume; a wrong share per step still gives a plausible surface.',
     ['crysgsu/remeshing.py', 'crysgsu/geom/utils.py'],
     [('ice chunks', 'crysgsu/remeshing.py calc_ice_chunks, define_ice_shifts, move_nodes'),
      ('volume formulas', 'crysgsu/geom/utils.py prizmatoid_volume_coefs, displaced_triangle_volume')],
     'coordinates before and after')

prop('P23', 'Remeshing does not depend on position, orientation, numbering or zoning',
     'Remeshing a rotated and shifted grid gives the rotated and shifted result, remeshing a scaled grid with scaled ice '
     'heights gives the scaled result, and renumbering nodes or faces or redistributing faces over zones changes the result '
     'only by rounding. Running the same remesh twice gives identical results, and a symmetric body with symmetric ice '
     'stays symmetric.',
     ['inputs', 'configurations'],
     'rigid motions, scale factors, permutations of nodes, faces and corners, and zonings, under all smoothing options',
     'No test runs the remesher, let alone twice.',
     ['crysgsu/remeshing.py', 'crysgsu/geom/vect.py', 'crysgsu/geom/triangle.py'],
     [('remesher', 'crysgsu/remeshing.py TongRemesher')],
     'coordinates of pairs of runs')

prop('P24', 'Remesher step count and options honour the configuration',
     'Options present in the JSON configuration replace the defaults and absent ones keep them. The number of growth steps '
     'lies between the configured minimum and maximum, inconsistent limits are an error, and it is large enough that in '
     'all but the configured ignorable part of the faces ice per step stays below the configured fraction of the shortest '
     'side, unless the maximum forbids it; the pseudo-2D mode keeps every column of nodes aligned with its span '
     'coordinates unchanged and refuses grids that are not extruded.',
     ['inputs', 'configurations'],
     'all option sets, ice fields and grids; extruded grids of any number of layers',
     'No test reads a configuration; the pseudo-2D mode is never run.',
     ['crysgsu/remeshing.py'],
     [('options', 'crysgsu/remeshing.py try_to_read_options'), ('steps', 'crysgsu/remeshing.py calculate_nsteps'),
      ('pseudo 2d', 'crysgsu/remeshing.py clusterize_nodes_for_pseudo_2d_oz, correct_coords_for_pseudo_2d_oz')],
     'step count, options and coordinates')

prop('P25', 'Null-space smoothing keeps shape features and fixed borders',
     'Null-space smoothing moves nodes only inside the common null space of the adjacent faces: nodes inside a flat region '
     'stay in its plane, nodes on a straight crease stay on the crease line, corner nodes and, when borders are fixed, '
     'border nodes do not move. In one iteration a node covers the configured share of the way to the mean centroid of '
     'its adjacent faces, as far as the null space allows. It never changes connectivity or data, zero iterations change nothing, and a regular flat '
     'grid stays as it is. Intermediate grids stored on request are the grids after every iteration.',
     ['inputs', 'configurations'],
     'flat, folded and box-shaped surfaces with irregular nodes in any orientation, any number of iterations and strength',
     'No test runs smoothing.',
     ['crysgsu/smoothing.py', 'crysgsu/remeshing.py'],
     [('null space smoothing', 'crysgsu/smoothing.py NullSpaceSmoothing.smoothing')],
     'coordinates before and after')

prop('P26', 'Transfer of values between grids takes the nearest face',
     'Interpolation from one grid to another gives each target face the temperature and water height of a source face whose '
     'centroid is nearest to its own, and the tool that copies the collection coefficient from another grid does the same '
     'for that value. Everything else in the target, and the whole source, stays unchanged, and transfer to the same grid '
     'is the identity.',
     ['inputs'],
     'any pair of grids, of any size, scale, position and zoning',
     'No test runs either tool.',
     ['crysgsu/convert/interpolate.py', 'crysgsu/convert/lazurit_add_beta_from_ansys.py'],
     [('interpolation', 'crysgsu/convert/interpolate.py face_centered_interpolation'),
      ('beta transfer', 'crysgsu/convert/lazurit_add_beta_from_ansys.py main')],
     'face values of the target')

prop('P27', 'Conversion from Lazurit keeps every block, node and cell value',
     'Converting a directory of block pairs gives one zone per block, named after it, with every quad cell cut into two '
     'triangles that tile it with the same orientation, both carrying the cell values (shear stress with the opposite '
     'sign; cells and nodes of a block go with the first index fastest), and block sides that coincide become shared nodes. Mismatched or incomplete file pairs are errors.',
     ['inputs', 'configurations'],
     'any number of blocks of any size, values broken over lines in any way',
     'No test runs the converter.',
     ['crysgsu/convert/lazurit_to_crystal.py', G],
     [('converter', 'crysgsu/convert/lazurit_to_crystal.py main')],
     'output grid file')

prop('P28', 'Conversion from ANSYS computes heat transfer and averages nodes to faces',
     'Converting a triple of solver files keeps exactly the chosen zones and gives each face the mean over its nodes of the '
     'heat transfer coefficient and recovery factor (computed from flux, surface and adiabatic temperatures and free '
     'stream parameters), the collection coefficient and shear stress, to the precision of the output. Each quad becomes '
     'two triangles tiling it, a repeated-corner quad becomes one, faces are turned over when reversed normals are asked '
     'for, and only then.',
     ['inputs', 'configurations'],
     'any zones chosen from any number of zones, quads and degenerate quads, any parameters and normal option, variables '
     'in the order the solver writes them',
     'No test runs the converter.',
     ['crysgsu/convert/ansys_to_crystal.py', 'crysgsu/convert/gsu_converter.py', G],
     [('phases', 'crysgsu/convert/ansys_to_crystal.py filter_zones ... data_from_nodes_to_faces'),
      ('node data', 'crysgsu/convert/gsu_converter.py Grid')],
     'output grid file')

prop('P29', 'File name and timestamp handling is consistent across the tools',
     'A name with a 12-digit timestamp suffix is separated into base and timestamp and joined back to the same name; a name '
     'without one is its own base with timestamp of zeros. Domain and result file names are recognised exactly when they '
     'have the grid base name, rank, timestamp and kind in place, names produced by the tools are recognised with the same '
     'parts, grouping by timestamp is a partition that keeps every file once, and flattening nested lists keeps every item '
     'in order.',
     ['inputs'],
     'all base names (ASCII, with digits, underscores, dots, timestamps inside), ranks and timestamps',
     'Tests check a few names.',
     ['crysgsu/utils.py'],
     [('names', 'crysgsu/utils.py')],
     'returned parts')

prop('P30', 'The native update is memory safe and updates exactly the given arrays',
     'Calling the native routine from Python adds 1, 2 and 3 to every element of its three arrays in place, touches no '
     'other memory whatever the lengths of the arrays (also zero or unequal), and gives the same result for any number of '
     'threads. Arrays of wrong type or shape are refused without change.',
     ['inputs', 'schedules'],
     'all array lengths including empty and unequal, separate writable arrays, contiguous and not, wrong types, any number of '
     'threads',
     'No test calls it; an out-of-bounds write of a few elements is usually silent.',
     ['crysgsu/cpp/src/swim.cpp', 'crysgsu/cpp/src/swim.i'],
     [('native code', 'crysgsu/cpp/src/swim.cpp hi')],
     'array contents; sanitizer reports')

prop('P31', 'Halo exchange delivers every neighbour value under any message timing',
     'After exchanging a variable, each face on the other side of a domain border holds on this process the value its owner '
     'process had, for every border edge, and no own face is changed. This is so for every number of processes, every '
     'order of message delivery and progress of processes, and for several variables exchanged one after another through '
     'the same buffers.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of send, delivery and receive over any decomposition and sequence of variables; messages are taken '
     'from the sender buffer at any moment allowed by the message passing standard',
     'No test runs it; a premature reuse of a buffer shows only for large messages and unlucky timing.',
     ['crysgsu/crys.py', 'crysgsu/gsu/zone.py'],
     [('exchange', 'crysgsu/crys.py exchange, start_exchanges, put_to_superbuffer, get_from_superbuffer'),
      ('borders', 'crysgsu/crys.py get_mpi_borders')],
     'face data on every process; log of message events')

prop('P32', 'Gathered ice heights reach the faces they were computed for',
     'When ice heights computed by the processes are gathered for remeshing, every face of the whole grid receives the '
     'height computed for it by the process owning its zone, for any zone sizes, and the result stored is the remeshed '
     'whole grid.',
     ['inputs', 'configurations', 'schedules'],
     'any number of processes and any, in particular unequal, zone sizes',
     'No test runs it; with equal zone sizes mistakes cancel.',
     ['crysgsu/crys.py', 'crysgsu/remeshing.py'],
     [('gathering', 'crysgsu/crys.py remesh')],
     'ice heights given to the remesher; stored grid')

prop('P33', 'Physical property laws reproduce their tables',
     'A tabulated linear law returns the table value at every table point, lies on the straight line between neighbouring '
     'points, and stays between their values; a constant law is constant; a fitted law reproduces data generated by its own '
     'formula. All published tables are usable: equal numbers of points, strictly increasing argument, positive values and '
     'physically right trends, in agreement with known values of the substances.',
     ['inputs'],
     'all tables and all arguments within their range, scalars and arrays, random tables',
     'No test evaluates a law.',
     ['crysgsu/phys/laws.py'],
     [('laws', 'crysgsu/phys/laws.py LinearLaw, FuncLaw, ConstLaw')],
     'returned values')

prop('P34', 'Explosion moves zones rigidly and exported results keep the right faces',
     'Exploding a grid loaded without merging moves every zone rigidly away from the mean point by the given fraction of '
     'its offset and changes nothing else; factor zero changes nothing. Exported face results (a demonstration that adds '
     'a random part below one to each value) list every face once under its identifier, and loading results back gives each face exactly the values listed for it, whatever the order of '
     'lines, leaving all other faces unchanged.',
     ['inputs', 'histories'],
     'any multi-zone grid, any factor; any subset of faces, order of lines and variable list in result files',
     'The suite runs these on a sample without looking at values.',
     [G, 'crysgsu/gsu/face.py'],
     [('explosion', G + ' Grid.move_from_mean_point'),
      ('results', G + ' Grid.store_faces_calc_data, load_faces_calc_data')],
     'coordinates and face data')

prop('P35', 'Reporting and exporting never change a grid and report true numbers',
     'Printing information with any options, storing a grid, storing it for MPI, and computing lists, statistics or borders '
     'leave the grid exactly as it was, and can be repeated with identical output. The printed numbers of objects, faces '
     'per zone and edges statistics are the true ones, and marking border nodes marks exactly the nodes of border edges.',
     ['inputs', 'histories'],
     'all grids and zonings, in any sequence of such calls',
     'No test compares the grid before and after, and printing of information is never run.',
     [G, 'crysgsu/gsu/zone.py', 'crysgsu/gsu/zones_adjacency_matrix.py'],
     [('printing', G + ' Grid.print_info'), ('marking', G + ' Grid.mark_all_fixed_nodes'),
      ('arrays', 'crysgsu/gsu/zone.py *_np_array, connectivity_list_faces_nodes, get_variable')],
     'snapshots of the grid before and after; printed text')

prop('P36', 'The remesh tool remeshes every given grid on its own and writes nothing else',
     'Run on a directory, the remesh tool writes for every grid file in it exactly the grid that it writes for that file alone '
     'under the same configuration (its name without the results mark _r_), which is also what the library gives, into the output '
     'directory and nowhere else. Other files of both directories and the inputs stay as they are; a missing configuration, a '
     'missing grid or a malformed grid is an error.',
     ['inputs', 'histories'],
     'any number of grids of any surfaces in any listing order, with foreign files, any configuration, verbosity and way of '
     'naming input and output places',
     'No test runs the remesh tool.',
     ['crysgsu/remesh.py', 'crysgsu/remeshing.py'],
     [('tool', 'crysgsu/remesh.py __main__'), ('remesher', 'crysgsu/remeshing.py TongRemesher.__call__')],
     'bytes of all files of input and output directories')

prop('P37', 'A calculation over the tool chain does not depend on the decomposition',
     'When a grid is split, every domain is calculated from its own domain file with exchange of values over the stated borders, '
     'and the results are merged, every face of the merged grid has the value that the same calculation gives on the undivided '
     'grid, whatever strategy, number of domains and fixed zones were chosen. Remeshing of the merged grids then gives the same '
     'surfaces as well.',
     ['inputs', 'histories'],
     'any surface and zoning, any split strategy and fixed zones, any number of calculation steps and result timestamps',
     'No test connects two tools, so an agreement between what one writes and another reads is never exercised.',
     ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py', G],
     [('domain files', G + ' Grid.store_mpi'), ('results', G + ' Grid.load_faces_calc_data'), ('merging', 'crysgsu/merge.py merge')],
     'merged grid files against the calculation on the undivided mesh')

prop('P38', 'Every tool is a function of its inputs',
     'Running a tool again on the same inputs writes the same files with the same bytes (reports of elapsed time aside, sums of '
     'balance tables up to rounding), in any process: whatever the hash seed, the working directory, the names of directories on '
     'the way to the files, the order in which directories are listed, and the runs made before in the same process.',
     ['inputs', 'histories', 'configurations'],
     'every tool (split except random decompositions, merge, remesh, drops, the converters and transfer tools) on the workloads of '
     'the other properties, valid and invalid',
     'Tests run once, in one process with a fixed hash seed, on fixed paths.',
     ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py', 'crysgsu/drops.py', 'crysgsu/convert', G],
     [('tools', 'crysgsu/*.py __main__, crysgsu/convert/*.py __main__')],
     'all files under the directory of a run')

prop('P39', 'The grid of the converter keeps its lists and numbers through every operation',
     'Importing a grid file gives its zones, nodes and faces with the stated coordinates and values. Replacing a node puts the new '
     'node everywhere in the zone where the old one was, deleting extra nodes removes exactly the unused ones, restoring '
     'identifiers numbers nodes in order, a copy of a node is equal and independent, averaging gives each face the mean over its '
     'nodes, and nothing else changes. Export states exactly the lists and numbers held, to the six digits it writes.',
     ['inputs', 'histories'],
     'any surface and zoning, any sequence of these operations',
     'No test touches the converter classes.',
     ['crysgsu/convert/gsu_converter.py'],
     [('operations', 'crysgsu/convert/gsu_converter.py Zone, Grid, Node')],
     'lists and numbers of the object, and the exported file')

prop('P40', 'Ice grows by the documented scheme with the configured coefficients',
     'For any grid, ice and configuration with a given number of steps, every node ends where the documented scheme of growth puts '
     'it: node directions are normalized sums of face normals, smoothed between faces and nodes with the weights given by the '
     'coefficients s and k for the configured number of passes; heights over faces give the ice volume of the step up to the '
     'second order, and are smoothed over inner edges with the coefficients alfa and beta; a node moves along its direction by the '
     'mean height of its faces; the volume not delivered is given to the later steps when redistribution is on, and the rest of '
     'ice follows the areas of faces through null-space smoothing. This holds as well when the same grid object is grown again with '
     'other ice and other options.',
     ['inputs', 'configurations', 'histories'],
     'all consistently oriented surfaces, ice fields and option combinations for which the scheme itself is stable',
     'The tests only run the remesher on one file and look at no coordinate.',
     ['crysgsu/remeshing.py', 'crysgsu/smoothing.py', 'crysgsu/geom/utils.py'],
     [('growth step', 'crysgsu/remeshing.py TongRemesher.remesh_step and the methods it calls')],
     'coordinates of all nodes after a growth')

prop('P41', 'Operations of every kind can follow each other on one grid object',
     'A grid object that has gone through any history of loading, atomic transformations, decompositions, moves of faces between '
     'zones, growth of ice, changes of values and loading of results gives for every next operation what is promised for a freshly '
     'loaded grid: decompositions keep their promises about sizes and fixed zones, domain files, borders, statistics, breadth-first '
     'paths and marks of border nodes are right, exported face results come back to the faces with their identifiers (also when the '
     'order of faces in the list is not that of identifiers), ice grows by the scheme, and the stored file states the object and '
     'loads as it, into a new object or into the used one alike.',
     ['inputs', 'histories'],
     'histories of up to 16 operations of all kinds on surfaces of all families; operations are applied where they are admissible',
     'The tests apply each operation to a freshly loaded grid.',
     ['crysgsu/gsu', 'crysgsu/remeshing.py', 'crysgsu/smoothing.py'],
     [('operations', 'crysgsu/gsu/grid.py Grid, crysgsu/gsu/zone.py, crysgsu/gsu/face.py, crysgsu/remeshing.py')],
     'the whole grid object and all files written, after every operation')

prop('P42', 'Tools write only their outputs; a failure is told and mended by a new run',
     'A run of a tool opens for writing, creates, renames or removes nothing but the outputs which its arguments name (the file or '
     'directory of results, the trajectories beside the result of drops, the phase files and the result beside the base name of the '
     'Ansys converter, the table of balances above the directory of merged grids), and starts no other program; every other file '
     'keeps its bytes. This holds when the run fails or is killed, too. When an output can not be written to its end, wherever the '
     'failure is (no space, limit of file size, another thing in its place), the run ends with an error and never with success. After '
     'a failed or killed run the same command, once the cause is gone, writes the same files as if nothing had happened, also in '
     'the same process; so do the functions of the library which write files. Two runs with different outputs, also in one directory, '
     'may go on at the same time.',
     ['inputs', 'crash_points', 'fault_sequences', 'schedules'],
     'every tool on the workloads of the other properties; store, store_mpi, store_faces_calc_data, Export, split and merge called as '
     'functions; a failure or kill at any byte of any output',
     'No test makes a write fail or kills a run; whether an error of the system is lost depends on the byte at which it comes.',
     ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py', 'crysgsu/drops.py', 'crysgsu/convert', 'crysgsu/gsu/grid.py'],
     [('writers', 'crysgsu/gsu/grid.py store/store_mpi/store_faces_calc_data, crysgsu/drops.py drops, crysgsu/merge.py merge, '
                  'crysgsu/split.py split, crysgsu/remesh.py, crysgsu/convert')],
     'files opened and changed by a run, its exit status, files left after it and after the next one')

prop('P43', 'Zones of decompositions are halves with the shortest border, or grown in layers',
     'A hierarchical decomposition halves every zone of the level above at the median of one of the given sign functions (by default '
     'the coordinates of centres of faces): all faces of one half are before all faces of the other one, the cut is at the median, and '
     'no other given function has a median cut with fewer edges between the halves. A zone stays whole only if no function can cut it. '
     'A breadth-first (Farhat) decomposition grows every zone in layers over common edges of faces which are still free: a zone is made '
     'of whole connected free regions and of at most one part of a region, which is the set of faces nearest to one of its faces; '
     'after a zone that ends inside a region the next one starts beside it. This holds for the split tool as well, and around '
     'fixed zones.',
     ['inputs', 'configurations'],
     'any surface, any set of sign functions, levels and numbers of zones, any fixed zones, repeated decompositions of one grid',
     'The suite never looks at the zones; a cut in a longer place still is a partition with right sizes.',
     ['crysgsu/gsu/grid.py', 'crysgsu/split.py'],
     [('halving', 'crysgsu/gsu/grid.py Grid.decompose_hierarchical, split_zone, split_zone_metric'),
      ('growth', 'crysgsu/gsu/grid.py Grid.decompose_farhat, bfs_path, bfs_path_connectivity_component')],
     'face sets of zones after every level')

prop('P44', 'Objects of different users of the library do not touch each other',
     'What an operation on a grid, a cloud of triangles, an air field, a converter or a remesher does, returns and prints depends on '
     'that object and the arguments only. Any number of users in one process, each with own objects, get exactly what each of them '
     'gets alone in a fresh process, also when their grids were loaded from one file: when they take turns, when an operation of one '
     'of them is done in the middle of an operation of another one, and when they run in threads at the same time. (Operations that '
     'draw random numbers by design are not meant.)',
     ['schedules', 'histories', 'inputs'],
     'every interleaving of operations of two to four users at operations and at calls of functions, operations of all kinds, any '
     'surfaces',
     'Tests use one object at a time and end; state kept in a class, a module or a default argument is right until the second user comes.',
     ['crysgsu/gsu', 'crysgsu/geom', 'crysgsu/drops.py', 'crysgsu/remeshing.py', 'crysgsu/smoothing.py', 'crysgsu/convert'],
     [('state of objects', 'crysgsu/gsu/grid.py Grid.__init__/clear, crysgsu/geom, crysgsu/drops.py Space, crysgsu/remeshing.py '
                           'TongRemesher')],
     'results, printed text, written files and the whole state of every object after every operation')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
