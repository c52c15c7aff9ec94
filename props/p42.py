"""Quadrangles with data in nodes become triangles with data in faces."""
from symx import mesh

PROPERTY = 'P42'
MODULES = ('gsu_converter', 'ansys_to_crystal')
BOUNDS = ('1-2 zones of 1-3 quadrangles on 4-8 nodes, each with any pair of corners joined or none, normals kept or reversed; symbolic coordinates and data of nodes; unreadable coordinates; '
          'the whole conversion of a file with fixed coordinates and data on the grid of printed decimals')
OUTSIDE = 'quadrangles with three or four equal corners; more than six decimals of the printed numbers'
ASSUMPTIONS = ['exact-real arithmetic']
STUBS = ['text of a float is a lossless token, %f rounds to six decimals']
LABELS = ['count', 'corners', 'one', 'data', 'place', 'unreadable', 'file', 'zones', 'cover']
OPT = {'loose': True, 'canon': True}
QUADS = {'q1': [[(0, 1, 2, 3)]], 'q2': [[(0, 1, 2, 3), (1, 4, 5, 2)]], 'z2': [[(0, 1, 2, 3)], [(0, 1, 2, 3), (3, 2, 4, 5)]]}
VARS = ('htc', 'beta', 'taux', 'tauy', 'tauz', 'rf')


def cases(tier):
    out = [('q1', dict(quads='q1')), ('q2', dict(quads='q2', bad=True)), ('z2', dict(quads='z2')), ('file/q2', dict(quads='q2', file=True)), ('file/z2', dict(quads='z2', file=True))]
    if tier == 'thorough':
        out += [('q1/all', dict(quads='q1', bad=True)), ('z2/bad', dict(quads='z2', bad=True)), ('file/q1', dict(quads='q1', file=True))]
    return out


def run(h, quads, bad=False, file=False):
    conv = h.mod('gsu_converter')
    rev = h.choice('rev', [True, False])
    L = ['TITLE="t"', 'VARIABLES = "X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"']
    want = []
    for zi, qs in enumerate(QUADS[quads]):
        nn = max(max(q) for q in qs) + 1
        nodes, rows = [], []
        for i in range(nn):
            base = mesh.PTS[i] if zi == 0 else tuple(x + 20.0 for x in mesh.PTS[i])
            P = list(base) if file else [base[c] + h.real('p%d_%d%s' % (zi, i, 'xyz'[c]), -0.2, 0.2) if i < 2 else base[c] for c in range(3)]
            D = [h.intreal('%s%d_%d' % (v, zi, i), -300, 300) * 0.5 if file else h.real('%s%d_%d' % (v, zi, i), -99, 99) for v in VARS]
            T = [h.txt(x) for x in P]
            if bad and i == nn - 1:
                T[1], P[1] = '1.0-103', 0.0
            nodes.append((P, D))
            rows.append(' '.join(T + [h.txt(x) for x in D]))
        els = []
        for qi, q in enumerate(qs):
            q = list(q)
            # which corners are joined
            pair = h.choice('pair%d_%d' % (zi, qi), [None, (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] if not file and zi + qi == 0 else [None, (2, 3)])
            if pair:
                q[pair[1]] = q[pair[0]]
            els.append(q)
        name = 'zone %d' % zi
        L.append('ZONE T="%s", N=%d, E=%d, F=FEPOINT, ET=QUADRILATERAL' % (name, nn, len(els)))
        L += rows + [' '.join(str(x + 1) for x in q) for q in els]
        want.append((name, nodes, els))
    fn = mesh.write(h, 'in.dat', '\n'.join(L) + '\n')
    if file:
        h.mod('ansys_to_crystal').data_from_nodes_to_faces(fn, h.tmp('out.dat'), rev)
        g = h.mod('gsu').Grid()
        g.load(h.tmp('out.dat'))
        got = [(z.Name, [([[n.P[c] for c in range(3)] for n in f.Nodes], [f[k] for k in ('HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')]) for f in z.Faces]) for z in g.Zones]
        h.check(all(sorted(f.Data) == sorted(('HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')) for f in g.Faces), 'file')
    else:
        g = conv.Grid()
        g.LoadNodesData(fn, rev)
        g.ConvertDataFromNodesToFaces()
        got = [(z.Title, [([[n.Point.X, n.Point.Y, n.Point.Z] for n in f.Nodes], [f.HTC, f.Beta, f.Tau.X, f.Tau.Y, f.Tau.Z, f.RecoveryFactor]) for f in z.Faces]) for z in g.Zones]
    h.check([a for a, _ in got] == [a for a, _, _ in want], 'zones')
    tol = 1e-6 if file else 1e-9
    for (_, faces), (_, nodes, els) in zip(got, want):
        h.check(len(faces) == sum(1 if len(set(q)) == 3 else 2 for q in els), 'count')
        k = 0
        for q in els:
            tri = len(set(q)) == 3
            ring = []
            for x in q:
                if x not in ring:
                    ring.append(x)
            if rev:
                ring = ring[::-1]
            own = []
            for P, D in faces[k:k + (1 if tri else 2)]:
                # which nodes of the file these are
                ids = []
                for p in P:
                    c = [x for x in ring if h.is_true(h.both(*[abs(a - b) <= tol for a, b in zip(p, nodes[x][0])]))]
                    h.check(len(c) == 1, 'unreadable' if bad else 'place')
                    ids.append(c[0])
                h.check(len(set(ids)) == 3, 'corners')
                own.append(ids)
                for a, b in zip(D, zip(*[nodes[x][1] for x in ids])):
                    h.check(h.both(a - sum(b) * (1 / 3.0) <= tol, sum(b) * (1 / 3.0) - a <= tol), 'data')
            k += len(own)
            sides = {(a[i], a[(i + 1) % 3]) for a in own for i in range(3)}
            rim = {(ring[i], ring[(i + 1) % len(ring)]) for i in range(len(ring))}
            if tri:
                # joined opposite corners give no direction
                fold = q[0] == q[2] or q[1] == q[3]
                h.check(sides == rim or fold and sides == {(b, a) for a, b in rim}, 'one')
            else:
                # both triangles have the direction of the quadrangle and share a diagonal
                h.check(rim <= sides and len(sides) == 6, 'cover')
