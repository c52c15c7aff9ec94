"""Texts of the properties and of the manifest (tools/gen.py writes properties.jsonl and MANIFEST.json from here)."""

PY = 'symbolic execution of the real Python functions, Z3 decides every branch and assertion'
NOTE = ('Every path of the harness over the real functions is explored inside the stated bounds and each assertion is '
        'discharged by Z3 for all values on the path; floats are modelled as exact reals (formatting and rounding to decimals '
        'are modelled), and a counterexample counts only after it has failed again on the unpatched code. ')

P = []
NOT_APPLICABLE = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), note='', tech=PY, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech,
                  note=NOTE + note, tech=tech, observe=list(observe)))


def na(id, title, statement, text, why, files, mech, reason, over=('inputs',)):
    prop(id, title, statement, text, why, files, mech, over)
    NOT_APPLICABLE.append((id, reason))


GRID = 'crysgsu/gsu/grid.py'
prop('P01', 'Loading a stored grid gives the same grid back',
     'Storing any loaded grid to a file and loading that file again yields the same title, the same variables, and zones with the same names, '
     'the same faces in order with the same corner positions in order and the same face data. Storing the reloaded grid writes the same file.',
     'every mesh, distribution of faces over zones, coordinate and data value, title and zone name',
     'tests round-trip two sample files and compare them as text; corner cases of sharing nodes between zones, of values and of names are not reached',
     [GRID, 'crysgsu/gsu/zone.py'], [('store / load of the text format', GRID)], note='Title and names without quotes.')
prop('P02', 'A loaded grid has consistent incidence, a non-surface is refused',
     'After loading, every face has three nodes and the three edges that join them, every edge has one or two faces, every link between nodes, edges, faces '
     'and zones holds in both directions, and ids are consecutive from zero. A file in which three or more faces share an edge is refused.',
     'every connectivity list over a few points, any order of corners and zones',
     'tests only load well-formed sample files and never look at the links',
     [GRID, 'crysgsu/gsu/edge.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/node.py'],
     [('link_node_edge, link_face_edge, complex_link_face_node_node_edge, add_edge', GRID)])
prop('P03', 'Nodes merge exactly when they agree to ten decimals',
     'While a grid is loaded, two nodes of the file become one node if and only if their coordinates rounded to ten decimals are equal, and the node keeps the '
     'coordinates read first. With merging switched off no nodes are merged. A node added to the grid after an edit merges by the same rule with the nodes as they are then.',
     'all coordinates around the cells of the rounding grid',
     'sample files never hold nearly equal coordinates',
     [GRID, 'crysgsu/gsu/node.py'], [('RoundedCoords, find_near_node, add_node', GRID)],
     note='Coordinates within 1e-11 of a rounding boundary are outside.')
prop('P04', 'A decomposition is a partition of the same faces',
     'After any decomposition (mono, random, linear, hierarchical, Farhat, also repeated) every face is in exactly one zone, each zone lists exactly the nodes and '
     'edges of its faces, zones have distinct names and consecutive ids, and the count of zones is the requested one where it is a parameter. '
     'Nodes, edges, faces, ids and data are unchanged, and the title too unless a new one is given.',
     'every mesh, previous zones, counts, levels, random draws and sequence of methods',
     'tests only call the methods on one mesh without looking at the zones',
     [GRID], [('decompose_*, split_zone, zone.add_face, link_nodes_and_edges_to_zones', GRID)], over=('inputs', 'histories'))
prop('P05', 'Linear and Farhat zones are balanced',
     'Linear decomposition cuts the list of faces into consecutive runs whose sizes differ by at most one. Farhat decomposition puts every face into a zone, '
     'and gives every zone its share of the faces, connected while the mesh allows it.',
     'every mesh and every count of zones, also larger than the count of faces',
     'tests call them for one mesh and count and do not look at the sizes',
     [GRID], [('decompose_linear, decompose_farhat', GRID)])
prop('P06', 'Fixed zones keep exactly their faces',
     'When some zones are named as fixed, decomposition (hierarchical, Farhat) leaves each of them with exactly the faces and data it had, and distributes exactly '
     'the remaining faces over the other zones.',
     'every mesh, initial zones, subset of fixed zones, count or levels',
     'no test fixes zones on a mesh whose result is then inspected',
     [GRID], [('fixed_zones of decompose_hierarchical / decompose_farhat', GRID)])
prop('P07', 'Hierarchical decomposition halves zones at the median of the best axis',
     'Every level splits each zone of at least two faces at its median along one axis, so that the sizes of the halves differ by at most one and no face on the lower side is '
     'above a face on the upper side; the axis is one with the smallest count of edges cut. A zone that cannot be split is kept as it is.',
     'every mesh, positions of centres, axes and levels up to three',
     'tests do not inspect the zones of the hierarchical method at all',
     [GRID], [('decompose_hierarchical, split_zone, split_zone_metric', GRID)])
prop('P08', 'Breadth-first walks visit exactly the reachable admissible faces',
     'A breadth-first path from a face visits exactly the faces that satisfy the predicate and are reachable from it through such faces, each once, in an order of non-decreasing distance. '
     'The largest component found is a largest one.',
     'every mesh, predicate, start face and earlier state of marks',
     'no test covers it',
     [GRID], [('bfs_path, bfs_path_connectivity_component', GRID)])
ZAM = 'crysgsu/gsu/zones_adjacency_matrix.py'
prop('P09', 'Adjacency matrix counts each edge once by its zones',
     'The zones adjacency matrix counts every edge exactly once: by the pair of zones on its sides, by its zone if both sides are in it, or as border if it has one face. '
     'Statistics, cross-border counts and edge classes derived from it agree with the mesh.',
     'every mesh and distribution of faces over zones', 'tests never look at the matrix',
     [ZAM, 'crysgsu/gsu/edge.py', 'crysgsu/gsu/zone.py', GRID], [('ZonesAdjacencyMatrix, Edge.is_border/is_cross/is_inner', ZAM)])
prop('P10', 'Files of the processes cover the grid and agree on borders',
     'The files written for the processes of a parallel run list every face of the grid in exactly one file with its own coordinates, corners, edges and data. '
     'For each pair of processes both files list the same count of shared edges, in the same order, as the same geometric edges.',
     'every mesh, distribution over zones and data', 'the test only writes the files of one decomposition and compares nothing',
     [GRID, ZAM], [('store_mpi, set_zones_ids', GRID)])
CRYS = 'crysgsu/crys.py'
prop('P11', 'Ghost faces receive the neighbour value after every exchange',
     'After every exchange of a value between processes, each face across a border of a process holds the value its owner computed, own faces keep their own values and no other face changes. '
     'It holds for successive exchanges however late a message buffer is read.',
     'zone distributions, data, order of the processes, time at which each send buffer is read',
     'no test runs the parallel part',
     [CRYS], [('get_mpi_borders, exchange', CRYS)], over=('inputs', 'schedules'), note='MPI is simulated. ')
prop('P12', 'Ice heights of all processes reach their own faces before remeshing',
     'When a parallel run remeshes, the heights gathered from all processes are stored to exactly the faces each process owns, whatever the sizes of the zones, and the grid is remeshed and stored once.',
     'zone distributions over processes, heights, order of the processes',
     'no test runs the parallel part',
     [CRYS], [('remesh: gather, Gatherv', CRYS)], over=('inputs', 'schedules'), note='MPI is simulated; the remesher is a recorder. ')

MERGE, SPLIT, UT = 'crysgsu/merge.py', 'crysgsu/split.py', 'crysgsu/utils.py'
prop('P13', 'Calculated data reach the faces of their ids',
     'Loading calculated data from a text file gives each face exactly the values of the row that holds its global id, whatever the order of the rows and of the faces in the list; '
     'faces without a row keep their data. Cleaning T, Hw, Hi zeroes exactly these, and dropping stall data removes exactly those variables.',
     'files with any subset of the ids in any order, values, grids whose list of faces is not in the order of ids',
     'the test loads one file for one grid and looks at no value',
     [GRID, 'crysgsu/gsu/face.py'], [('load_faces_calc_data, store_faces_calc_data, clean_t_hw_hi, convert_grid_stall_to_check_point', GRID)])
prop('P14', 'Merged results hold the values of every process for every time stamp',
     'Merging writes one grid file per time stamp found; in it every face has the values that the files of the processes with this time stamp give for its id, on the mesh of the grid. '
     'The csv files of the processes are summed column by column, the time is kept. Files of other grids or with wrong names are not used.',
     'which process owns which faces, values, order of the directory listing, count of processes, stamps and csv files',
     'no test runs merge',
     [MERGE, UT, GRID], [('merge, mimp summing', MERGE), ('group_txt_files_by_timestamps', UT)])
prop('P15', 'Split makes the files of the requested count of processes',
     'Splitting by a strategy (Farhat n<count>, hierarchical h<levels>) with fixed zones partitions the faces into the requested zones, leaves fixed zones as they are, keeps the data, adds RecoveryFactor with the given value '
     'only where the grid has none, and writes one file per zone with its number and the time stamp of the grid in the name. Unknown fixed zones and counts that leave no zone to split into are refused. '
     'Parameters come from the json file, with defaults for absent ones.',
     'strategies and counts, fixed zones, zones, data and recovery factor, names with and without a time stamp, keys of the json file',
     'tests do not call split',
     [SPLIT, GRID], [('split, extract_*_from_json', SPLIT)])
prop('P16', 'Names of the files are composed and taken apart consistently',
     'A name made of a stem, a number of five digits, a time stamp of twelve digits and an extension is taken apart into exactly these, is accepted as a file of that stem and kind, and no other name is accepted: '
     'another stem, another extension or a non-digit in the number or the stamp. A name has a time stamp exactly when it ends in an underscore and twelve digits. Files are grouped by equal time stamps.',
     'stems, digits, extensions, misplaced characters', 'tests try a few names',
     [UT], [('dummy_split_filename, is_filename_correct_crys_*_file, get_filename_and_timestamp_pair, group_txt_files_by_timestamps', UT)],
     note='Strings are sequences of symbolic character codes.')
G = 'crysgsu/geom/'
prop('P17', 'Vector operations obey their algebra',
     'Sums, differences, multiples and negation of vectors act on each coordinate; dot and cross products, squared length, length, distance and normalisation are those of Euclidean space; '
     'no operation changes its operands, in-place ones aside; indices address the coordinates; the middle of two points is half of their sum.',
     'all vectors and factors', 'tests check a few values (and one of them fails)',
     [G + 'vect.py'], [('Vect', G + 'vect.py')])
prop('P18', 'Vectors have a strict lexicographic order with tolerance',
     'Comparison of vectors is lexicographic by X, Y, Z, where coordinates closer than 1e-10 count as equal: exactly one of a < b, b < a, a == b holds, the relation is transitive, '
     'and sorting a list of vectors gives a permutation in non-decreasing order.',
     'all pairs and triples of vectors', 'tests compare none of the border cases',
     [G + 'vect.py'], [('Vect.__lt__, __eq__ ...', G + 'vect.py')])
prop('P19', 'Boxes bound their points and never hide an intersection',
     'The box of points or triangles has exactly the least and greatest coordinates. A point is inside exactly when it is within the bounds. '
     'The tests of a box against a segment and of two boxes never deny an intersection that exists, and two boxes are reported to meet exactly when they have a common point.',
     'all points, segments and boxes', 'no test covers boxes',
     [G + 'box.py'], [('Box', G + 'box.py')])
prop('P20', 'A segment meets a triangle exactly in the point they share',
     'For a segment that is not in the plane of the triangle, the intersection is the one point where the segment goes through the triangle, and it is empty if it does not. A segment parallel to the plane has none.',
     'all segments for several triangles, and all corners for a segment', 'tests try a few pairs',
     [G + 'triangle.py'], [('Triangle.intersection_with_segment', G + 'triangle.py')], note='Cases within 1e-3 of the rim are outside.')
prop('P21', 'Triangles that cross are found to intersect, in common points only',
     'Two triangles with a common inner point are found to intersect, whichever is asked; all returned points are common to both and sorted without repetition; a triangle does not intersect itself. '
     'For a segment in the plane of a triangle the returned two points are the ends of their common part.',
     'all relative positions of several pairs, all positions of segments', 'tests try a few pairs',
     [G + 'triangle.py'], [('Triangle.intersection_with_triangle, intersection_with_segment', G + 'triangle.py')], note='Touching at the rim is outside.')
prop('P22', 'A cloud of triangles answers as a search through all of them',
     'A cloud finds a triangle met by a segment exactly when one of its triangles is met, and the one it returns is. Two clouds report exactly the pairs of triangles that intersect, with their points. '
     'The subclouds of a cloud hold each triangle exactly once.',
     'positions of triangles, segments and clouds', 'no test compares the tree with a full search',
     [G + 'triangles_cloud.py', G + 'box.py', G + 'triangle.py'], [('TrianglesCloud', G + 'triangles_cloud.py')])
prop('P23', 'The place of a point in a triangle is told apart',
     'A point of the plane of a triangle is classified as corner, side, inner or outside point; a point off the plane is told to be off the plane and outside.',
     'all points of the plane and above it', 'tests try a few points',
     [G + 'triangle.py'], [('point_in_triangle, point_in_one_plane', G + 'triangle.py')], note='Points nearer than 1e-3 to a side but not on it are outside.')
prop('P24', 'Volumes of tetrahedra, prisms and layers are exact',
     'The volume of a tetrahedron does not depend on the order of its corners and equals the geometric one; a triangle moved by a vector sweeps the volume of the prism; the coefficients of the volume of a layer of ice '
     'over a face with given nodal normals are those of the exact cubic polynomial in the height.',
     'all corners, shifts, normals', 'no test covers it',
     [G + 'utils.py'], [('tetrahedron_volume, displaced_triangle_volume, prizmatoid_volume_coefs', G + 'utils.py')])

EDITS = [('divide_face, collapse_face, cut_edge, cut_single_edge, cut_edge_with_two_nodes, collapse_edge', GRID), ('replace_node, link_*, unlink_*, delete_*, reset_ids', GRID)]
EW = 'meshes, faces or edges edited, sequences of edits, zones of the faces, data'
ET = 'tests make single edits of one mesh and compare at most the counts'
prop('P25', 'A local edit leaves a well-formed mesh of the intended shape',
     'After dividing a face, flipping the longest edge of a face, cutting an edge (inner, of the border, with two nodes) or collapsing an edge, and after any sequence of these, the mesh is well-formed: '
     'faces, edges, nodes and zones are linked in both directions, each edge has one or two faces and no two edges join the same nodes. The new faces join the new nodes with the sides of the replaced faces, '
     'a flip replaces the edge by the other diagonal, a collapse puts the remaining node to the middle of the edge, and all other faces and nodes stay as they are.',
     EW, ET, [GRID], EDITS, over=('inputs', 'histories'))
prop('P26', 'A local edit keeps ids dense and changes counts as intended',
     'After each local edit the ids of nodes, edges and faces are consecutive from zero, those that were there before keep their id as long as it is within the range, and the counts of nodes, edges and faces change '
     'exactly by those of the edit (the count of components and holes does not change).',
     EW, ET, [GRID], EDITS, over=('inputs', 'histories'))
prop('P27', 'A local edit hands down the data and the zone of the face',
     'New faces of a local edit have the data and the zone of the face they replace (after a flip the data of the asked face and the zones of the pair); data of each face are its own, not shared with other faces; '
     'all other faces keep data and zone. Storing and loading the edited grid gives the same faces, zones and data.',
     EW, ET, [GRID, 'crysgsu/gsu/face.py', 'crysgsu/gsu/zone.py'], EDITS, over=('inputs', 'histories'))
prop('P28', 'An impossible edit is refused and changes nothing',
     'A flip of an edge that has one face or whose other diagonal already is an edge, a cut of an edge with the wrong count of faces, and a collapse that would make the mesh not manifold return False and leave the grid '
     'exactly as it was; every possible edit is done and returns True.',
     EW, ET, [GRID], EDITS, over=('inputs', 'histories'))
prop('P29', 'A local edit keeps the orientation of the surface',
     'If the faces around every edge pass it in opposite directions before a local edit, they do after it, and the new faces pass the sides of the replaced ones in the same direction: normals keep looking to the same side.',
     EW, ET, [GRID], EDITS, over=('inputs', 'histories'))

DROPS = 'crysgsu/drops.py'
prop('P30', 'The flight of a drop ends the way it is reported',
     'A drop flies step by step, in each step by the air of the nearest air point. The result says O when the drop is out of the box of the air, C with the face when a step is the first to go through a triangle, '
     'S when a step leaves it where it is, and N when the trajectory has reached the greatest count of steps; no triangle is passed without being reported. '
     'The trajectory holds the start and the end of each step, in order.',
     'start positions and velocities, air, triangles in the way, limit of steps', 'no test runs the drops part',
     [DROPS, G + 'triangles_cloud.py', G + 'trajectory.py'], [('Space.fly, fly_step, find_nearest', DROPS)], over=('inputs', 'histories'))
prop('P31', 'A step of a drop obeys the law of drag',
     'In a step the drop moves by its velocity times the time step, and its velocity changes by the drag force of the air on a ball over its mass times the time step, with the drag coefficients for low and high Reynolds numbers; '
     'the acceleration points to the velocity of the air. '
     'A drop that moves together with the air keeps its velocity.',
     'positions, velocities, diameters, time steps', 'no test runs the drops part',
     [DROPS], [('Space.fly_step', DROPS)])
prop('P32', 'Drops are carried from the faces that shed them to those they meet',
     'Running the drops on a grid starts one drop over the middle of each face whose stall value is above the threshold, with its velocity and diameter; the face a drop ends on gets the stall value over its area as MImp2, the other '
     'faces keep it. In the grid written T, Hw and Hi are zero, the stall variables are gone, other data and the mesh are kept, and there is one trajectory for each drop, from the place it starts from through the places after each step to the last one.',
     'stall values, thresholds, velocities, distances and time steps', 'no test runs the drops part',
     [DROPS], [('drops, read_drops, Space', DROPS)])
prop('P33', 'The air is read as stored and the nearest point is found',
     'Reading a file of air gives the points of all zones of air with coordinates and velocities in the order of the file, and skips the other zones. The box of the space holds exactly these points, and the point found for a place is the nearest of all.',
     'zones of the file, counts, coordinates and velocities', 'no test runs the drops part',
     [DROPS], [('read_vel_field_from_file, find_nearest, inside', DROPS)])
RM, REM, SM = 'crysgsu/remeshing.py', 'crysgsu/remesh.py', 'crysgsu/smoothing.py'
prop('P34', 'The count of remeshing steps serves the faces and keeps its limits',
     'The count of steps is within the given least and greatest count (an inverted pair is refused). Unless that is impossible within the greatest count, no more faces than the part allowed to be ignored need more steps (height over '
     'the shortest side and the factor); otherwise the greatest count is used.',
     'heights, limits, parts to ignore, factors', 'no test runs the remesher',
     [RM], [('calculate_nsteps', RM)], over=('inputs',))
RT = 'no test runs the remesher'
prop('P35', 'Heights of ice hold the wanted volumes',
     'Given volumes of ice for the faces and directions of growth for the nodes, each face gets the height at which the layer along the directions of its nodes holds exactly its volume; when a converging layer cannot hold it '
     'up to the height where it stops growing, the volume over the area of the face is used. Heights scale with the sizes of the faces. Zero volume gives zero height. The shift of a node is the mean height of its faces along its direction.',
     'volumes and directions of growth', RT, [RM, G + 'utils.py'], [('define_ice_shifts, prizmatoid_volume_coefs', RM)])
prop('P36', 'Directions of growth are unit normals, smoothed towards each other',
     'Initial directions of growth of faces and nodes are the unit normal and the normalised sum of the unit normals around a node. Each step of smoothing replaces the direction of a face by the mean of those of its nodes and then that of a node by the mean of those of its faces, with the given weights; '
     'no steps leave them as they are and on a flat surface smoothing changes nothing.',
     'positions, weights and counts of steps', RT, [RM], [('init_ice_dirs, normals_smoothing', RM)])
prop('P37', 'Smoothing of heights loses no ice and only flows down',
     'Smoothing of heights keeps the total volume of ice, never makes a volume negative, moves ice over an edge only from the higher face to the lower one and no more than the given part allows, and leaves uniform heights alone. No steps change nothing.',
     'volumes of all faces, coefficients, steps', RT, [RM], [('heights_smoothing', RM)], over=('inputs', 'histories'))
prop('P38', 'Growing the ice moves the surface by the ice and nothing else',
     'Remeshing a grid moves every node along its direction of growth by the heights of ice of its faces, so that the accreted volume equals the volume of ice given on input unless it is reported as rest, whichever way the rest of a step is handled; without ice nothing moves. '
     'The set of faces, their order, corners, zones and other data are kept and Hi of the grown grid is zero. The script writes each grid with `_r_` turned to `_` in the given directory.',
     'heights, counts of steps, kinds of smoothing', RT, [RM, REM], [('TongRemesher.__call__, remesh.py', RM)], over=('inputs', 'histories'))
prop('P39', 'Options of the remesher take effect one by one',
     'Each option in the JSON file sets exactly its own parameter of the remesher to the given value; options that are absent keep their documented default, unknown ones are ignored, and no file means all defaults.',
     'values of every option', 'no test reads options', [RM], [('TongRemesher.__init__', RM)])
prop('P40', 'Smoothing in the null space moves only free nodes and keeps flat surfaces flat',
     'Marking fixes exactly the nodes of the border (and those asked for); applying shifts moves each free node by its shift and no fixed one. Null space smoothing keeps the mesh, moves each free node by the given part of the way to the mean of the centres of its faces within the directions in which the surface is flat (so a flat part in any plane stays in it) and leaves corners; no iterations change nothing.',
     'shifts, strength, thresholds, positions', RT, [SM, GRID], [('NullSpaceSmoothing, mark_all_fixed_nodes, apply_shifts', SM)])
prop('P41', 'A pseudo two-dimensional grid grows column by column',
     'With the pseudo-2d option every node of a column along Z moves to the place of the middle node of the column in the plane, and all nodes of a column but the middle one keep their Z, whichever the order of the nodes in the file; grids that do not consist of equal columns are refused and left as they were; without the option columns are not joined.',
     'heights of ice, shapes of strips, orders of nodes', RT, [RM], [('pseudo_2d_oz', RM)])
CNV, ANS, LAZ, INT, LBA = ['crysgsu/convert/%s.py' % x for x in ('gsu_converter', 'ansys_to_crystal', 'lazurit_to_crystal', 'interpolate', 'lazurit_add_beta_from_ansys')]
CT = 'no test runs the converters'
prop('P42', 'Quadrangles with data in nodes become triangles with data in faces',
     'Each quadrangle of an Ansys surface becomes the two triangles of one of its diagonals, or one triangle when two of its corners are joined; triangles cover it exactly and keep or, if asked, reverse its orientation. '
     'Data of a triangle are the means of those of its nodes, under the names of the crystal format, in the same zone; unreadable coordinates are zeros.',
     'coordinates and data of all nodes, joined corners', CT, [CNV], [('GSUConverter: load, ConvertDataFromNodesToFaces, Export', CNV)])
prop('P43', 'Only the zones and variables asked for are kept',
     'Filtering the zones of an Ansys file keeps exactly the zones whose full names are asked for, in their order, with all their lines; filtering of variables keeps exactly the wanted columns of each node and the elements as they are, under matching names.',
     'names, subsets and orders of zones and variables', CT, [ANS], [('filter_zones, filter_variables', ANS)])
prop('P44', 'Heat transfer and recovery follow from the three Ansys solutions',
     'Merging the three solutions puts the values of the same node side by side; the heat transfer coefficient is the heat flux over the difference of the temperatures and the recovery factor follows from adiabatic, air and velocity head temperatures; '
     'other columns are kept. The whole script gives for each triangle the means of these of its nodes.',
     'values in all nodes of the three files', CT, [ANS, CNV], [('merge_fensap_drop3d_adiabatic, calculate_HTC/RecoveryFactor, main', ANS)])
prop('P45', 'Lazurit blocks become zones of triangles with the data of their cells',
     'Each pair of grid and solution files of a Lazurit directory becomes one zone whose triangles cover the block: two triangles for each cell, in the order of cells, both with the data of that cell (the shear stresses with the opposite sign). '
     'A directory with missing, unpaired or wrong files is refused.',
     'data of all cells, sizes of blocks, breaks of lines', CT, [LAZ], [('lazurit_to_crystal', LAZ)])
prop('P46', 'Interpolation carries the data of the nearest face',
     'Interpolating one grid onto another gives each face the value of the face of the source whose centre is nearest to its own, for exactly the interpolated variables; other data, the mesh and the source grid are kept.',
     'positions of targets, data of all faces', CT, [INT, LBA], [('interpolate, lazurit_add_beta', INT)])
prop('P47', 'The native kernel adds to its arrays and touches nothing else',
     'The native function hi(n1, a1, n2, a2, n3, a3) adds 1, 2 and 3 to every element of its first, second and third array, whatever the sizes of the arrays (which may differ), and never reads or writes outside of them.',
     'all sizes and all IEEE doubles', 'no test calls the native code', ['crysgsu/cpp/src/swim.cpp'], [('hi', 'crysgsu/cpp/src/swim.cpp')],
     tech='symbolic execution of the LLVM IR of the real function, bounds and values decided by Z3', note='The IR is compiled from the current source by clang on each run; counterexamples are replayed on the real function under the address sanitizer.')
prop('P48', 'Zones move away from the middle as whole pieces',
     'Moving the zones of a grid (without common nodes) away from its mean point shifts all nodes of a zone by the same vector, the given multiple (0.1 by default) of the way from the mean of all nodes to the mean of the nodes of the zone; '
     'faces, zones and data are kept and a single zone stays where it is.',
     'positions, coefficient, zones', 'the test compares nothing', [GRID], [('move_from_mean_point', GRID)])
prop('P49', 'Arrays of a zone list its nodes and faces in order',
     'The arrays of coordinates, of the twelve variables, of connectivity and of a single variable of a zone have one row for each node or face of the zone, in order, with exactly its values (zeros for the variables the grid does not carry). '
     'Of an edge on the border of two zones each zone sees its own face as real and the other one as ghost; counts agree.',
     'data, distributions of faces over zones', 'no test covers it', ['crysgsu/gsu/zone.py', GRID, 'crysgsu/gsu/face.py'], [('coords_np_array, variables_np_array, connectivity_list_faces_nodes, get_real_face', 'crysgsu/gsu/zone.py')])
prop('P50', 'Measures of triangles and vectors are exact',
     'The shortest side, the area, the centroid, the unit normal, the quality (sum of squared sides over the root of the area) and the cosine of an angle equal the geometric ones; all corners are reported smaller than a limit exactly when they are; '
     'triangles are in one plane exactly when all corners are, and equal exactly when their corners are the same in any order; a point is on a segment exactly when it lies between its ends; rounding changes a coordinate by at most half a unit of the last digit.',
     'corners, limits, points', 'no test covers it', [G + 'triangle.py', G + 'vect.py'], [('min_side, is_good, all_corners_smaller, in_one_plane, __eq__', G + 'triangle.py'), ('point_on_vector, angle_cos, round_vect', G + 'vect.py')])
prop('P51', 'The converter grid keeps its faces while spare nodes are removed',
     'Importing a crystal file into the grid of the converter gives its zones, nodes, faces and data; removing spare nodes removes exactly the nodes no face uses and keeps all faces; after renumbering, the exported file holds the same faces with the same corners and data. '
     'Replacing a node replaces it in the list of nodes and in every face and nowhere else.',
     'spare nodes, data, replaced nodes', CT, [CNV], [('Import, DeleteExtraNodes, ReplaceNode, RestoreNodesIndices, Export', CNV)])
LAWS = 'crysgsu/phys/laws.py'
prop('P52', 'Laws of the materials follow their tables',
     'A linear law takes the tabulated values at the tabulated temperatures and lies on the straight line between neighbours elsewhere; a fitted law is its polynomial at the least-squares coefficients (no others come nearer to the table); a constant law is the constant. '
     'The tables of the module are sorted, keep to the ranges of their quantities and change with temperature the way they should.',
     'any temperature of a table, any other coefficients', 'no test covers it', [LAWS], [('LinearLaw, FuncLaw, ConstLaw', LAWS)])
prop('P54', 'Command lines pass each option to its parameter',
     'drops, split and merge called from a command line do what their functions do with the values of the options: each option, long or short, before or after the files, reaches its own parameter; an absent one takes its documented default '
     '(distance 1e-4, step 1e-5, threshold 1e-6, 200 steps; strategy n1, no fixed zones, recovery factor 1, or those of the JSON file; the strategy of the command line wins). split without a destination or with two of them is refused before anything is written.',
     'values of the options, files', 'tests call the functions, not the scripts', ['crysgsu/drops.py', 'crysgsu/split.py', 'crysgsu/merge.py'], [('__main__', 'crysgsu/split.py')])
na('P53', 'Refining splits triangles where they intersect',
   'Refining a grid puts a node into each inner point in which another triangle touches a triangle, and cuts the edge on whose inner point one lies; all other triangles are kept.',
   'all grids', 'no test runs it', ['crysgsu/refine.py'], [('refine_grid', 'crysgsu/refine.py')],
   'refine.py cannot be imported at this commit (it imports gsu.gsu, which does not exist) and all cases but those of a single point are empty branches marked TODO, so there is no executable code to encode')
