"""
Mesh descriptions, an independent writer of the grid file format, and observers of a loaded grid.
Pure python: used by the symbolic and by the concrete run alike.
"""

# name -> (number of nodes, faces as node triples); all are edge-manifold, consistently oriented
TOPO = {
    'tri': (3, [(0, 1, 2)]),
    'two': (4, [(0, 1, 2), (2, 1, 3)]),
    'strip3': (5, [(0, 1, 2), (2, 1, 3), (2, 3, 4)]),
    'fan3': (4, [(0, 1, 2), (0, 2, 3), (0, 3, 1)]),
    'fan4': (5, [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)]),
    'tetra': (4, [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]),
    'bowtie': (5, [(0, 1, 2), (2, 3, 4)]),
    'apart': (6, [(0, 1, 2), (3, 4, 5)]),
    'strip4': (6, [(0, 1, 2), (2, 1, 3), (2, 3, 4), (4, 3, 5)]),
    'star': (6, [(0, 1, 2), (1, 0, 3), (2, 1, 4), (0, 2, 5)]),
    'quad8': (9, [(0, 1, 3), (1, 4, 3), (1, 2, 4), (2, 5, 4), (3, 4, 6), (4, 7, 6), (4, 5, 7), (5, 8, 7)]),
    'octa': (6, [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]),
    'diamond': (8, [(0, 1, 2), (2, 1, 3), (0, 4, 1), (0, 2, 5), (1, 6, 3), (2, 3, 7)]),
}

# fixed, generic coordinates for the topologies (used when the property does not depend on them)
PTS = [(0.0, 0.0, 0.0), (4.0, 0.5, 0.25), (1.0, 3.0, -0.5), (5.0, 4.0, 1.0), (2.5, 7.0, 0.75),
       (-3.0, 5.0, 2.0), (8.0, 8.0, -1.5), (-1.0, -6.0, 3.0), (9.0, -2.0, 4.0), (6.0, -5.0, -2.25)]

# meshes of a medium size: sheets of squares (nodes go along the rows)


def sheet(nx, ny):
    faces = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            b = a + nx + 1
            faces += [(a, a + 1, b + 1), (a, b + 1, b)] if (i + j) % 2 else [(a, a + 1, b), (a + 1, b + 1, b)]
    return (nx + 1) * (ny + 1), faces


def sheet_pts(nx, ny, bump=0.0):
    return [(float(i), float(j), bump * ((i * 7 + j * 3) % 5)) for j in range(ny + 1) for i in range(nx + 1)]


TOPO['sheet12'] = sheet(3, 2)
TOPO['sheet24'] = sheet(4, 3)
TOPO['sheet48'] = sheet(6, 4)
TOPO['sheet128'] = sheet(8, 8)
# further generic points, all different
PTS += [(float((i * 37) % 101) - 50.5, float((i * 53) % 97) - 45.25, float((i * 29) % 89) - 40.125) for i in range(len(PTS), 90)]


def used_nodes(faces):
    s = []
    for f in faces:
        for n in f:
            if n not in s:
                s.append(n)
    return sorted(s)


class Spec:
    """title, variables (beyond X Y Z), points, faces (global node ids), zone of each face, zone names, data[var][face]."""

    def __init__(self, pts, faces, zone_of=None, zone_names=None, variables=(), data=None, title='grid'):
        self.pts = list(pts)
        self.faces = [tuple(f) for f in faces]
        self.zone_of = list(zone_of) if zone_of is not None else [0] * len(self.faces)
        nz = max(self.zone_of) + 1 if self.zone_of else 1
        self.zone_names = list(zone_names) if zone_names is not None else ['zone %d' % i for i in range(nz)]
        self.variables = list(variables)
        self.data = data or {}
        self.title = title

    def text(self, h, node_order=None):
        out = ['# crys-gsu', 'TITLE="%s"' % self.title,
               'VARIABLES=' + ', '.join('"%s"' % v for v in ['X', 'Y', 'Z'] + self.variables)]
        nv = 3 + len(self.variables)
        for zi, zn in enumerate(self.zone_names):
            fs = [i for i, z in enumerate(self.zone_of) if z == zi]
            nodes = used_nodes([self.faces[i] for i in fs])
            if node_order:
                nodes = sorted(nodes, key=lambda n: node_order[n])
            loc = {n: i + 1 for i, n in enumerate(nodes)}
            out += ['ZONE T="%s"' % zn, 'NODES=%d' % len(nodes), 'ELEMENTS=%d' % len(fs),
                    'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-%d]=CELLCENTERED)' % nv]
            for c in range(3):
                out.append(' '.join(h.txt(self.pts[n][c]) for n in nodes))
            for v in self.variables:
                out.append(' '.join(h.txt(self.data[v][i]) for i in fs))
            for i in fs:
                out.append(' '.join(str(loc[n]) for n in self.faces[i]))
        return '\n'.join(out) + '\n'

    def face_order(self):
        """Faces in file order."""
        return [i for zi in range(len(self.zone_names)) for i, z in enumerate(self.zone_of) if z == zi]


def write(h, name, text):
    p = h.tmp(name)
    with open(p, 'w', newline='\n') as f:
        f.write(text)
    return p


def load(h, spec, name='in.dat', **k):
    g = h.mod('gsu').Grid()
    g.load(write(h, name, spec.text(h)), **k)
    return g


# -- observers -------------------------------------------------------------------------------------

def idx(objs):
    return {id(o): i for i, o in enumerate(objs)}


def has(objs, o):
    return any(x is o for x in objs)


def count(objs, o):
    return sum(1 for x in objs if x is o)


def distinct(objs):
    return len({id(o) for o in objs}) == len(objs)


def edge_pairs(g):
    """Multiset of node index pairs of the edges."""
    ni = idx(g.Nodes)
    return sorted(tuple(sorted(ni[id(n)] for n in e.Nodes)) for e in g.Edges)


def incidence_errors(g, zones=True, ids=True):
    """Structural invariants of a mesh by object identity; -> list of messages (empty: valid)."""
    err = []
    N, E, F, Z = g.Nodes, g.Edges, g.Faces, g.Zones
    ni, ei, fi = idx(N), idx(E), idx(F)
    if not (distinct(N) and distinct(E) and distinct(F) and distinct(Z)):
        err.append('an entity is listed twice')
    for f in F:
        if len(f.Nodes) != 3 or not distinct(f.Nodes) or any(id(n) not in ni for n in f.Nodes):
            err.append('face nodes')
            continue
        if len(f.Edges) != 3 or not distinct(f.Edges) or any(id(e) not in ei for e in f.Edges):
            err.append('face edges')
            continue
        want = sorted(tuple(sorted((ni[id(f.Nodes[a])], ni[id(f.Nodes[b])]))) for a, b in ((0, 1), (0, 2), (1, 2)))
        got = sorted(tuple(sorted(ni[id(n)] for n in e.Nodes if id(n) in ni)) for e in f.Edges)
        if want != got:
            err.append('face edges do not join its nodes')
        for n in f.Nodes:
            if count(n.Faces, f) != 1:
                err.append('node does not list its face once')
        for e in f.Edges:
            if count(e.Faces, f) != 1:
                err.append('edge does not list its face once')
    pairs = {}
    for e in E:
        if len(e.Nodes) != 2 or e.Nodes[0] is e.Nodes[1] or any(id(n) not in ni for n in e.Nodes):
            err.append('edge nodes')
            continue
        pr = tuple(sorted(ni[id(n)] for n in e.Nodes))
        if pr in pairs:
            err.append('two edges join the same nodes')
        pairs[pr] = e
        if not 1 <= len(e.Faces) <= 2 or not distinct(e.Faces):
            err.append('edge has %d faces' % len(e.Faces))
        for f in e.Faces:
            if id(f) not in fi or not has(f.Edges, e):
                err.append('edge lists a face that does not list it')
        for n in e.Nodes:
            if count(n.Edges, e) != 1:
                err.append('node does not list its edge once')
    for n in N:
        for f in n.Faces:
            if id(f) not in fi or not has(f.Nodes, n):
                err.append('node lists a face that does not list it')
        for e in n.Edges:
            if id(e) not in ei or not has(e.Nodes, n):
                err.append('node lists an edge that does not list it')
        if not n.Faces:
            err.append('node without faces')
    if zones:
        err += zone_errors(g)
    if ids:
        err += id_errors(g)
    return err


def id_errors(g):
    err = []
    for nm, objs in (('node', g.Nodes), ('edge', g.Edges), ('face', g.Faces)):
        if sorted(int(o.GloId) for o in objs) != list(range(len(objs))):
            err.append('%s ids are not 0..n-1: %s' % (nm, sorted(int(o.GloId) for o in objs)))
    return err


def zone_errors(g):
    """Each face in exactly one zone; zone nodes / edges are exactly those of its faces."""
    err = []
    zi = idx(g.Zones)
    tot = 0
    for z in g.Zones:
        tot += len(z.Faces)
        for f in z.Faces:
            if f.Zone is not z:
                err.append('zone lists a face of another zone')
        if not distinct(z.Faces) or not distinct(z.Nodes) or not distinct(z.Edges):
            err.append('zone lists something twice')
        wn = {id(n) for f in z.Faces for n in f.Nodes}
        we = {id(e) for f in z.Faces for e in f.Edges}
        if {id(n) for n in z.Nodes} != wn:
            err.append('zone nodes are not the nodes of its faces')
        if {id(e) for e in z.Edges} != we:
            err.append('zone edges are not the edges of its faces')
    for f in g.Faces:
        if f.Zone is None or id(f.Zone) not in zi:
            err.append('face outside of the zones')
        elif not has(f.Zone.Faces, f):
            err.append('face zone does not list it')
    if tot != len(g.Faces):
        err.append('faces in zones: %d of %d' % (tot, len(g.Faces)))
    return err


def face_rows(g):
    """(zone name, corner coordinates in order, data) of each face, in zone order."""
    rows = []
    for z in g.Zones:
        for f in z.Faces:
            rows.append((z.Name, [tuple(n.P[i] for i in range(3)) for n in f.Nodes], dict(f.Data)))
    return rows
