"""Columns of a pseudo two-dimensional grid."""
import math
from symx import mesh

PROPERTY = 'P41'
MODULES = ('utils', 'remeshing')
BOUNDS = ('strips of 2-4 columns of 2-3 nodes each along Z, bent or straight (also 8192 or 8 million times smaller), any order of the nodes in the file (4 orders); any heights of ice on one (thorough: two) faces and one step, or one height everywhere on a straight strip and up to 3 steps; '
          'grids with columns of different or single length')
OUTSIDE = 'several steps on a bent strip; larger strips'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['column', 'z', 'refused', 'up', 'rule', 'off', 'middle']
OPT = {'loose': True, 'query_ms': 30000, 'nra_first': True, 'canon': True}


def cases(tier):
    out = [('bent/3x2', dict(cols=3, levels=2, n=1, bent=True)), ('bent/2x3', dict(cols=2, levels=3, n=1, bent=True)), ('straight/2', dict(cols=3, levels=3, n=2, bent=False)),
           ('refuse', dict(cols=0, levels=0, n=1, bent=False))]
    if tier == 'thorough':
        out += [('bent/4x3', dict(cols=4, levels=3, n=1, bent=True)), ('bent/2', dict(cols=3, levels=2, n=1, bent=True, two=True)), ('straight/3', dict(cols=4, levels=2, n=3, bent=False)), ('bent/3x3', dict(cols=3, levels=3, n=1, bent=True))]
    return out


def run(h, cols, levels, n, bent, two=False):
    remeshing = h.mod('remeshing')
    if not cols:
        # one more node at the end of a column, or a mesh without columns
        kind = h.choice('kind', ['longer', 'single'])
        pts = [(0.0, 0.0, 0.0), (0.0, 0.0, 1.0), (2.0, 0.0, 0.0), (2.0, 0.0, 1.0), (2.0, 0.0, 2.5)]
        faces = [(0, 2, 1), (2, 3, 1), (1, 3, 4)]
        if kind == 'single':
            pts, faces = mesh.PTS[:5], mesh.TOPO['strip3'][1]
        H = [h.real('H%d' % i, 0, 1) for i in range(len(faces))]
        g = mesh.load(h, mesh.Spec(pts, faces, None, None, ['Hi'], {'Hi': H}))
        T = remeshing.TongRemesher('g.dat', mesh.write(h, 'o.json', '{"remesh_pseudo_2d_oz": true}'), '.')
        try:
            T(g)
        except Exception as e:
            h.check('pseudo_2d_oz' in str(e), 'refused')
            h.check([tuple(m.P[c] for c in range(3)) for f in g.Faces for m in f.Nodes] == [pts[i] for f in faces for i in f], 'refused')
            return
        h.fail('refused')
        return
    xy = [(0.0, 0.0), (3.0, 0.0), (6.0, 0.0), (9.0, 0.0)] if not bent else [(0.0, 0.0), (3.0, 1.0), (5.0, 3.5), (6.0, 7.0)]
    # also a very small strip
    sc = h.choice('scale', [1.0, 2.0 ** -13, 2.0 ** -23]) if not bent else 1.0
    xy = [(a * sc, b * sc) for a, b in xy]
    z = [-1.5 * sc, 0.5 * sc, 2.0 * sc][:levels]
    pts = [(x, y, c) for x, y in xy[:cols] for c in z]
    at = lambda i, j: i * levels + j
    faces = []
    for i in range(cols - 1):
        for j in range(levels - 1):
            a, b, c, d = at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)
            faces += [(a, b, c), (a, c, d)] if (i + j) % 2 else [(a, b, d), (b, c, d)]
    order = h.choice('order', [1, 5, 7, 0])
    N = len(pts)
    perm = {k: (k * order + 1) % N if math.gcd(order, N) == 1 else N - 1 - k for k in range(N)}
    if order == 0:
        # each column: the lowest, the highest, the middle one
        perm = {k: k // levels * levels + [0, 2, 1][k % levels] for k in range(N)}
    if bent:
        w = h.choice('which', [0, len(faces) - 1])
        H = [h.real('H%d' % i, 0, 0.25) if i == w or two and i == 2 else 0.125 for i in range(len(faces))]
    else:
        x = h.real('H', 0, 4 * sc)
        H = [x] * len(faces)
    spec = mesh.Spec(pts, faces, None, None, ['Hi'], {'Hi': H})
    on = h.choice('on', [True, False]) if not bent else True
    g = h.mod('gsu').Grid()
    g.load(mesh.write(h, 'g.dat', spec.text(h, perm)))
    rule = '{"remesh_pseudo_2d_oz": %s, "remesh_nsteps_min": %d, "remesh_nsteps_max": %d}' % ('true' if on else 'false', n, n)
    remeshing.TongRemesher('g.dat', mesh.write(h, 'o.json', rule), '.')(g)
    node = {}
    for f, fc in zip(g.Faces, faces):
        for m, i in zip(f.Nodes, fc):
            node[i] = m
    h.check(mesh.incidence_errors(g) == [] and len(node) == N, 'rule')
    mid = levels // 2
    free = {}
    if on and n == 1:
        # where the nodes go if columns are not joined
        u = h.mod('gsu').Grid()
        u.load(h.tmp('g.dat'))
        remeshing.TongRemesher('g.dat', mesh.write(h, 'f.json', rule.replace('true', 'false')), '.')(u)
        for f, fc in zip(u.Faces, faces):
            for m, i in zip(f.Nodes, fc):
                free[i] = m
    for i in range(cols):
        m = node[at(i, mid)]
        if free:
            w = free[at(i, mid)]
            h.check(h.both(*[h.both(m.P[c] - w.P[c] <= 1e-9, w.P[c] - m.P[c] <= 1e-9) for c in range(3)]), 'middle')
        for j in range(levels):
            q = node[at(i, j)]
            if on:
                h.check(h.both(q.P.X == m.P.X, q.P.Y == m.P.Y), 'column')
            if on and j != mid:
                h.check(q.P.Z == z[j], 'z')
            if not bent and sc > 1e-6:
                # the normal of the strip is -Y
                a, b = q.P.Y + H[0], q.P.X - xy[i][0]
                h.check(h.both(a <= 1e-6, a >= -1e-6, b <= 1e-6, b >= -1e-6), 'up' if on else 'off')
