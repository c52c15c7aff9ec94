"""Zones move apart as whole pieces."""

from symx import mesh

PROPERTY = 'P48'
BOUNDS = 'grids of 1-3 zones of 1-3 faces (and of up to 128) loaded without merging of nodes, or of zones without common nodes; symbolic coefficient, symbolic places of one node of each zone; one or two moves'
OPT = {'loose': True, 'query_ms': 30000, 'canon': True}
OUTSIDE = 'zones with common nodes (excluded by the documentation)'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['moved', 'kept', 'rigid', 'stay']


def cases(tier):
    out = [('two', dict(topo='two', zones=[0, 1], sep=False)), ('strip3', dict(topo='strip3', zones=[0, 1, 0], sep=False)), ('apart', dict(topo='apart', zones=[0, 1], sep=True)),
           ('one', dict(topo='two', zones=[0, 0], sep=True)), ('twice', dict(topo='strip3', zones=[0, 1, 2], sep=False, n=2)), ('sheet128', dict(topo='sheet128', zones=[0] * 128, sep=True)), ('sheet128/2', dict(topo='sheet128', zones=[0] * 100 + [1] * 28, sep=False))]
    if tier == 'thorough':
        out += [('strip4', dict(topo='strip4', zones=[1, 0, 2, 1], sep=False)), ('star', dict(topo='star', zones=[0, 1, 1, 2], sep=False, n=2)), ('fan4', dict(topo='fan4', zones=[0, 1, 2, 3], sep=False))]
    return out


def run(h, topo, zones, sep, n=1):
    geom = h.mod('geom')
    nn, faces = mesh.TOPO[topo]
    D = [h.real('T%d' % i, -99, 99) for i in range(len(faces))]
    spec = mesh.Spec(mesh.PTS[:nn], faces, zones, None, ['T'], {'T': D})
    g = h.mod('gsu').Grid()
    merged = h.choice('merged', [True, False]) if sep else False
    g.load(mesh.write(h, 'g.dat', spec.text(h)), is_merge_same_nodes=merged)
    for i, z in enumerate(g.Zones):
        m = z.Nodes[0]
        m.P = geom.Vect(m.P.X + h.real('x%d' % i, -5, 5), m.P.Y, m.P.Z + h.real('z%d' % i, -5, 5))
    was = {id(m): [m.P[c] for c in range(3)] for m in g.Nodes}
    links = [[mesh.idx(g.Nodes)[id(m)] for m in f.Nodes] for f in g.Faces]
    order = spec.face_order()
    cur = dict(was)
    for i in range(n):
        if h.choice('default%d' % i, [True, False]):
            k = 0.1
            g.move_from_mean_point()
        else:
            k = h.real('k%d' % i, -1, 3)
            g.move_from_mean_point(k)
        N = len(g.Nodes)
        mean = [sum(cur[id(m)][c] for m in g.Nodes) * (1.0 / N) for c in range(3)]
        nxt = dict(cur)
        for z in g.Zones:
            q = [sum(cur[id(m)][c] for m in z.Nodes) * (1.0 / len(z.Nodes)) for c in range(3)]
            for m in z.Nodes:
                nxt[id(m)] = [cur[id(m)][c] + (q[c] - mean[c]) * k for c in range(3)]
        cur = nxt
    near = lambda a, b: h.both(a - b <= 1e-7, b - a <= 1e-7)
    for m in g.Nodes:
        h.check(h.both(*[near(m.P[c], cur[id(m)][c]) for c in range(3)]), 'moved')
    for z in g.Zones:
        a = z.Nodes[0]
        for m in z.Nodes[1:]:
            h.check(h.both(*[near(m.P[c] - a.P[c], was[id(m)][c] - was[id(a)][c]) for c in range(3)]), 'rigid')
    if len(g.Zones) == 1:
        h.check(h.both(*[near(m.P[c], was[id(m)][c]) for m in g.Nodes for c in range(3)]), 'stay')
    h.check([[mesh.idx(g.Nodes)[id(m)] for m in f.Nodes] for f in g.Faces] == links, 'kept')
    h.check([len(z.Faces) for z in g.Zones] == [zones.count(i) for i in range(max(zones) + 1)], 'kept')
    h.check(h.both(*[f['T'] == D[k] for f, k in zip(g.Faces, order)]), 'kept')
