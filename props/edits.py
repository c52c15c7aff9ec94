"""Sequences of local edits of a mesh, shared by P25-P29."""
from symx import mesh

OPS = ('divide', 'flip', 'cut', 'cut1', 'cut2', 'collapse')
# (faces, edges, nodes) each edit adds; cut2 depends on the count of faces at the edge
ADDS = {'divide': (2, 3, 1), 'flip': (0, 0, 0), 'cut': (2, 3, 1), 'cut1': (1, 2, 1), 'cut2/1': (2, 4, 2), 'cut2/2': (4, 6, 2), 'collapse': (-2, -3, -1)}
BOUNDS = ('meshes of 1-8 faces over 1-3 symbolic zones with symbolic data (also one edit on a sheet of 12); every sequence of 1-2 (thorough: up to 3) edits of any kind at any (symbolic) face or edge; '
          'for a flip any edge of the face may be the longest, also by symbolic coordinates; two collapses where nodes have the same place')
OUTSIDE = 'longer sequences; larger meshes; new points that coincide with nodes'
ASSUMPTIONS = ['new points do not coincide with nodes']


def cases(tier):
    one = ['tri', 'fan3', 'tetra', 'octa', 'diamond', 'bowtie']
    out = [('1/%s' % t, dict(topo=t, steps=1, nz=3 if t in ('fan3', 'tetra') else 2)) for t in one]
    out += [('2/two', dict(topo='two', steps=2, nz=2)), ('2/tri', dict(topo='tri', steps=2, nz=1)), ('long', dict(topo='two', steps=1, nz=1, sym=True))]
    # nodes at the same place: two copies of a surface whose nodes are not merged; a node in the middle of an edge of another part
    out += [('same/%s' % k, dict(topo=k, steps=2, nz=1, ops=('collapse',))) for k in ('twins', 'meet')]
    out += [('1/sheet12', dict(topo='sheet12', steps=1, nz=3))]
    if tier == 'thorough':
        out += [('1/sheet24', dict(topo='sheet24', steps=1, nz=3))]
        out += [('2/%s' % t, dict(topo=t, steps=2, nz=2)) for t in ('strip3', 'fan3', 'tetra', 'fan4', 'diamond')]
        out += [('3/tri', dict(topo='tri', steps=3, nz=1)), ('3/two', dict(topo='two', steps=3, nz=1))]
        out += [('1/quad8', dict(topo='quad8', steps=1, nz=2))]
    return out


def build(h, topo, nz):
    if topo in ('twins', 'meet'):
        return build_same(h, topo)
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    zone_of = [0] * nf
    for i in range(1, min(nf, 3)):
        zone_of[i] = int(h.int('zone%d' % i, 0, min(nz - 1, max(zone_of) + 1)))
    for i in range(3, nf):
        zone_of[i] = min(i % nz, max(zone_of)) if max(zone_of) else 0
    data = {v: [h.real('%s%d' % (v, i), -99, 99) for i in range(nf)] for v in ('T', 'Hi')}
    return mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces, zone_of, None, list(data), data))


def build_same(h, topo):
    nn, faces = mesh.TOPO['octa']
    p = list(mesh.PTS[:nn])
    if topo == 'twins':
        q = list(p)
    else:
        q = [tuple(x + 1024.0 for x in v) for v in p]
        # halves are exact, and any edge of the first node of the other part may be collapsed later
        a, b = faces[0][:2]
        q[0] = tuple((x + y) / 2 for x, y in zip(p[a], p[b]))
    fs = list(faces) + [tuple(i + nn for i in f) for f in faces]
    data = {v: [h.real('%s%d' % (v, i), -99, 99) for i in range(len(fs))] for v in ('T',)}
    return mesh.load(h, mesh.Spec(p + q, fs, [0] * len(faces) + [1] * len(faces), None, list(data), data), is_merge_same_nodes=topo != 'twins')


class Snap:
    """What the mesh is now."""

    def __init__(self, g):
        self.g = g
        self.N, self.E, self.F, self.Z = list(g.Nodes), list(g.Edges), list(g.Faces), list(g.Zones)
        self.fn = {id(f): [n for n in f.Nodes] for f in self.F}
        self.fe = {id(f): [e for e in f.Edges] for f in self.F}
        self.fz = {id(f): f.Zone for f in self.F}
        self.fd = {id(f): dict(f.Data) for f in self.F}
        self.ids = {id(o): o.GloId for o in self.N + self.E + self.F}
        self.pos = {id(n): tuple(n.P[i] for i in range(3)) for n in self.N}
        self.en = {id(e): [n for n in e.Nodes] for e in self.E}
        self.ef = {id(e): [f for f in e.Faces] for e in self.E}
        self.z = [([id(f) for f in z.Faces], {id(n) for n in z.Nodes}, {id(e) for e in z.Edges}) for z in self.Z]

    def differs(self, h):
        """'' if the mesh is as it was."""
        o = Snap(self.g)
        for a in ('N', 'E', 'F', 'Z'):
            if sorted(map(id, getattr(self, a))) != sorted(map(id, getattr(o, a))):
                return a
        for a in ('fn', 'fe', 'en', 'ef'):
            for k, v in getattr(self, a).items():
                if a == 'fn':
                    if [id(x) for x in v] != [id(x) for x in o.fn[k]]:
                        return a
                elif sorted(map(id, v)) != sorted(map(id, getattr(o, a)[k])):
                    return a
        if self.ids != o.ids or any(self.fz[k] is not o.fz[k] for k in self.fz):
            return 'ids or zones'
        if [(sorted(x), y, z) for x, y, z in self.z] != [(sorted(x), y, z) for x, y, z in o.z]:
            return 'zones'
        for k in self.fd:
            if sorted(self.fd[k]) != sorted(o.fd[k]) or not all(h.is_true(self.fd[k][v] == o.fd[k][v]) for v in self.fd[k]):
                return 'data'
        for k in self.pos:
            if not all(h.is_true(a == b) for a, b in zip(self.pos[k], o.pos[k])):
                return 'positions'
        return ''


def third(f, e):
    return [n for n in f.Nodes if not mesh.has(e.Nodes, n)][0]


def joined(g, a, b):
    return any(mesh.has(e.Nodes, a) and mesh.has(e.Nodes, b) for e in g.Edges)


def collapsible(g, e):
    """Collapsing e leaves an edge-manifold mesh without repeated faces (judged on the result, by node triples)."""
    if len(e.Faces) != 2:
        return False
    a, b = e.Nodes
    tri = []
    for f in g.Faces:
        if mesh.has(e.Faces, f):
            continue
        tri.append(frozenset(id(a) if n is b else id(n) for n in f.Nodes))
    if len(set(tri)) != len(tri):
        return False
    # the neighbours a and b share are exactly the two opposite nodes
    nb = lambda x: {id(n) for d in g.Edges if mesh.has(d.Nodes, x) for n in d.Nodes if n is not x}
    opp = {id(third(f, e)) for f in e.Faces}
    if nb(a) & nb(b) != opp:
        return False
    # no node is left without faces: each opposite node keeps one
    for f in e.Faces:
        n = third(f, e)
        if not any(mesh.has(x.Nodes, n) for x in g.Faces if not mesh.has(e.Faces, x)):
            return False
        # and the edge that replaces the two sides of the face keeps a face
        if not any(len(d.Faces) == 2 for d in f.Edges if d is not e):
            return False
    return True


def step(h, g, s, sym=False, ops=OPS):
    """One edit. -> (op, kind of counts, target, done or refused, eligible, snapshot before, map of removed node)."""
    V = h.mod('geom').Vect
    op = h.choice('op%d' % s, ('flip',) if sym else ops)
    x = 10.0 + 3 * s
    p1, p2 = V(x, x * 0.5 + 1.25, -x * 0.25), V(x + 1, x * 0.75 - 2.5, x * 0.125)
    if op in ('divide', 'flip'):
        f = h.choice('face%d' % s, list(g.Faces))
        if op == 'divide':
            S = Snap(g)
            g.divide_face(f, p1)
            return op, 'divide', f, True, True, S
        if sym:
            for j, n in enumerate(g.Nodes):
                n.P = V(n.P.X, n.P.Y, h.real('z%d' % j, -9, 9) if j in (0, 3) else 0.0)
        else:
            # any edge of the face may be the longest
            k = h.choice('long%d' % s, list(f.Edges))
            far = third(f, k)
            for j, n in enumerate(k.Nodes):
                n.P = V(-20.0 + 40.0 * j, 0.5 * s, 1.0)
            far.P = V(0.5, 3.0 + s, 1.0 + s)
        L = [(e.Nodes[0].P.X - e.Nodes[1].P.X) * (e.Nodes[0].P.X - e.Nodes[1].P.X) +
             (e.Nodes[0].P.Y - e.Nodes[1].P.Y) * (e.Nodes[0].P.Y - e.Nodes[1].P.Y) +
             (e.Nodes[0].P.Z - e.Nodes[1].P.Z) * (e.Nodes[0].P.Z - e.Nodes[1].P.Z) for e in f.Edges]
        es = list(f.Edges)
        for i in range(3):
            for j in range(i):
                h.assume(abs(L[i] - L[j]) >= 1e-3)
        m = [e for i, e in enumerate(es) if all(h.is_true(L[i] > L[j]) for j in range(3) if j != i)][0]
        ok = len(m.Faces) == 2 and not joined(g, *[third(x, m) for x in m.Faces])
        S = Snap(g)
        return op, 'flip', (f, m), g.collapse_face(f), ok, S
    e = h.choice('edge%d' % s, list(g.Edges))
    S = Snap(g)
    if op == 'cut':
        return op, op, e, g.cut_edge(e, p1), len(S.ef[id(e)]) == 2, S
    if op == 'cut1':
        return op, op, e, g.cut_single_edge(e, p1), len(S.ef[id(e)]) == 1, S
    if op == 'cut2':
        return op, 'cut2/%d' % len(S.ef[id(e)]), e, g.cut_edge_with_two_nodes(e, p1, p2), True, S
    ok = collapsible(g, e)
    return op, op, e, g.collapse_edge(e), ok, S


def run(h, judge, topo, steps, nz, sym=False, ops=OPS):
    g = build(h, topo, nz)
    for s in range(steps):
        judge(h, g, *step(h, g, s, sym, ops))
    return g


def dirs(nodes):
    return [(id(nodes[i]), id(nodes[(i + 1) % 3])) for i in range(3)]
