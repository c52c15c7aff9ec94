"""How each property is decided: what the harness does with the real code and what the result is compared with."""
O = {
'P01': 'The harness writes a file of its own (independent writer, symbolic coordinates, data, names of symbolic characters, distribution of faces over zones chosen by the solver), loads, stores, loads and stores; faces are compared by corner coordinates and data, the files as text.',
'P02': 'Connectivity lists are symbolic (each corner of each face is an integer variable); after load the links are observed by object identity; three faces at an edge must raise.',
'P03': 'Coordinates are symbolic around the cells of the rounding grid; round() is an exact integer-valued function; merged iff rounded coordinates agree.',
'P04': 'Zones, counts, levels, random draws are variables; after each (sequence of) decomposition the partition, links and ids are observed and data compared.',
'P05': 'Sizes of zones against the balanced shares; connectedness of Farhat zones by an own search over the mesh.',
'P06': 'A symbolic subset of zones is fixed; their faces and the rest are compared with those before.',
'P07': 'Coordinates of centres are symbolic; halves against the median along each axis and the least cut of edges, computed by an own definition.',
'P08': 'The predicate is a vector of symbolic booleans, marks of faces are symbolic; the visited list against an own breadth-first search.',
'P09': 'The matrix against a direct count over the edges of the mesh for all zone distributions.',
'P10': 'Files of all processes are parsed by an own reader; faces, nodes, borders and the neighbour relation are compared with the mesh, also pairwise between files.',
'P11': 'crys.py runs on simulated MPI ranks (each rank is a coroutine of the harness; the order of ranks and the moment a send buffer is read are solver choices).',
'P12': 'As P11; the remesher is a recorder; heights that arrive are compared face by face.',
'P13': 'Rows of the text file in any order for any subset of ids; values symbolic.',
'P14': 'Directory listings, owners of faces and values are variables; results are loaded and compared; csv sums exactly.',
'P15': 'The script entry of split runs; files written are read by an own reader.',
'P16': 'Names are strings of symbolic characters, executed through the real string and regex operations (string model in symx/symstr.py).',
'P17': 'Algebraic identities over symbolic coordinates.', 'P18': 'Order axioms over symbolic coordinates with the tolerance written as in the statement.',
'P19': 'Definition of the box over symbolic points; for segments and boxes a symbolic witness point (parametrised) must never be denied.',
'P20': 'Parametrised by the solution: the shared point is o + s*u + t*v with symbolic s, t; its position decides the expected answer.',
'P21': 'Parametrised by a common inner point (symbolic); returned points are tested for membership in both triangles.',
'P22': 'The answer of the tree against the answer of all pairs computed by the same primitive, which P20/P21 decide.',
'P23': 'Barycentric coordinates are the variables.', 'P24': 'Determinant formulas and exact integration, compared as polynomials.',
'P25': 'Every edit on every face/edge of a set of meshes, symbolic zones and data, symbolic places of new nodes, sequences of 2-3 edits chosen by the solver; the mesh is observed by object identity.',
'P26': 'As P25, for ids and counts.', 'P27': 'As P25, for data and zones, including a store/load round trip.', 'P28': 'As P25, for impossible edits: the full state before and after.', 'P29': 'As P25, for orientation of faces around edges.',
'P30': 'A symbolic flight (steps are given by a recorder of the real step or the real step itself); the result is derived from the positions by the statement.',
'P31': 'The law of drag written out; tolerance for the published coefficients; the sign of the acceleration.', 'P32': 'The script part of drops runs on a grid and a file of air; each result is followed to its face.', 'P33': 'Files with symbolic numbers and zones of both kinds.',
'P34': 'Counting the faces that need more steps, by definition.', 'P35': 'Parametrised by the height: the volume is computed from it, the code must find it again.',
'P36': 'Own formulas of the mean normals and of the weights.', 'P37': 'Own formula of the flow for one step; conservation, sign and limits for several.',
'P38': 'The whole remesher (and the script) on grids whose growth is known: flat parts, single faces, no ice.', 'P39': 'Each key alone, all but it, all, none, unknown.',
'P40': 'Own formula of the smoothing step; the eigenvectors come from a numeric library at concrete normals.', 'P41': 'Columns are known from the construction of the strip.',
'P42': 'Quadrangles as data, the triangles must be those of one diagonal in the same direction; means of nodes exactly.', 'P43': 'Own filtering of the lines of the same file.',
'P44': 'Formulas of the coefficients; the whole script on three files.', 'P45': 'Blocks known by construction, data by cell.', 'P46': 'Nearest centre by comparing all distances (solver decides the order).',
'P47': 'LLVM IR of the function, sizes as bit-vectors, elements as IEEE doubles; each access against the bounds of its array.',
'P48': 'Own formula of the shift of each zone.', 'P49': 'Rows against the faces and nodes of the zone.', 'P50': 'Geometry of a triangle in its own plane; angles through the law of cosines (arccos is kept as its cosine).',
'P51': 'Own writer of the file; spare nodes at solver-chosen places.', 'P52': 'Own piecewise-linear interpolation; least squares: no other coefficients are better (convex quadratic over symbolic coefficients).',
'P54': 'The script part run on an argument vector against the function called with the values this vector stands for; files compared word by word, numbers by the solver.',
}
