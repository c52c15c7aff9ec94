"""Null space smoothing and fixed nodes."""
import numpy as np
from symx import mesh
from props.p35 import cross, dot, sub

PROPERTY = 'P40'
MODULES = ('utils', 'smoothing')
BOUNDS = ('marking and shifting: meshes of 1-8 faces, any shift of every node, fixed or not; smoothing: flat meshes of 3-8 faces with a symbolic place of an inner or outer node in the plane '
          'and symbolic strength; bent ones of fixed shape with symbolic strength and threshold; 0-3 iterations')
OUTSIDE = 'strength above one half for several iterations; symbolic places on bent surfaces (eigenvectors are computed by a numeric library)'
ASSUMPTIONS = ['exact-real arithmetic', 'eigenvectors of a diagonal matrix are the axes']
STUBS = ['scipy.linalg.eig of a symbolic matrix: only for diagonal ones']
LABELS = ['marked', 'fixed', 'moved', 'flat', 'none', 'mesh', 'corner', 'slide']
OPT = {'loose': True, 'query_ms': 30000, 'nra_first': True, 'canon': True}


def cases(tier):
    out = [('mark/%s' % t, dict(kind='mark', topo=t)) for t in ('two', 'fan3', 'bowtie', 'tetra', 'quad8')]
    out += [('flat/fan3', dict(kind='flat', topo='fan3', n=1)), ('flat/fan4', dict(kind='flat', topo='fan4', n=1)), ('flat/two/2', dict(kind='flat', topo='two', n=2)), ('0', dict(kind='flat', topo='two', n=0)),
            ('bent', dict(kind='bent', topo='fan3', n=1)), ('bent/sheet', dict(kind='bent', topo='sheet12', n=1)), ('bent/plane', dict(kind='bent', topo='sheet12', n=1, tilt=True)), ('flat/sheet', dict(kind='flat', topo='sheet12', n=1)), ('mark/sheet', dict(kind='mark', topo='sheet12'))]
    if tier == 'thorough':
        out += [('mark/%s' % t, dict(kind='mark', topo=t)) for t in ('tri', 'strip4', 'octa', 'diamond', 'star')]
        out += [('flat/fan3/2', dict(kind='flat', topo='fan3', n=2)), ('flat/strip3/3', dict(kind='flat', topo='strip3', n=3)), ('bent/4', dict(kind='bent', topo='fan4', n=1))]
    return out


PL = [(1.0, 1.0, 0.0), (-3.0, -1.0, 0.0), (5.0, -2.0, 0.0), (6.0, 4.0, 0.0), (-2.0, 6.0, 0.0), (9.0, 8.0, 0.0)]


def fig(topo):
    if topo == 'fan3':
        return [PL[0], PL[1], PL[2], PL[4]]
    if topo in ('two', 'strip3'):
        return [(0.0, 0.0, 0.0), (4.0, 0.0, 0.0), (1.0, 3.0, 0.0), (5.0, 4.0, 0.0), (2.0, 7.0, 0.0)]
    return PL


def run(h, kind, topo, n=0, tilt=False):
    geom, smoothing = h.mod('geom'), h.mod('smoothing')
    nn, faces = mesh.TOPO[topo]
    pts = mesh.sheet_pts(3, 2, 0.3 if kind == 'bent' else 0.0) if topo == 'sheet12' else mesh.PTS if kind in ('mark', 'bent') else fig(topo)
    if tilt:
        pts = [(x, y, 0.5 * x - 0.25 * y) for x, y, _ in pts]
    # the zones do not matter
    zones = h.choice('zones', [1, 2]) if kind == 'mark' and len(faces) > 1 else 1
    g = mesh.load(h, mesh.Spec(pts[:nn], faces, [i % zones for i in range(len(faces))]))
    border = {id(m): any(len(e.Faces) == 1 and mesh.has(e.Nodes, m) for e in g.Edges) for m in g.Nodes}
    fix = h.choice('fix', [True, False])
    if fix:
        g.mark_all_fixed_nodes()
        h.check(all(bool(m.border) == border[id(m)] for m in g.Nodes), 'marked')
        if kind == 'mark':
            # marking again is the same
            k = g.number_of_border_nodes
            g.mark_all_fixed_nodes()
            h.check(k == sum(border.values()) and g.number_of_border_nodes == k, 'marked')
            h.check(all(bool(m.border) == border[id(m)] for m in g.Nodes), 'marked')
    was = [[m.P[c] for c in range(3)] for m in g.Nodes]
    if kind == 'mark':
        S = smoothing.Smoothing(g, 1, fix)
        sh = [[h.real('s%d%s' % (i, c), -9, 9) for c in 'xyz'] for i in range(len(g.Nodes))]
        S.apply_shifts([geom.Vect(*s) for s in sh])
        for m, p, s in zip(g.Nodes, was, sh):
            if fix and border[id(m)]:
                h.check(h.both(*[m.P[c] == p[c] for c in range(3)]), 'fixed')
            else:
                h.check(h.both(*[abs(m.P[c] - p[c] - s[c]) <= 1e-9 for c in range(3)]), 'moved')
        return
    st = h.real('st', 0, 1 if n < 2 else 0.5)
    eps = 0.01
    if kind == 'flat' and n < 2:
        k = h.choice('node', [0, len(g.Nodes) - 1])
        d = h.real('d', -0.4, 0.4)
        g.Nodes[k].P = g.Nodes[k].P + geom.Vect(d, 0.5 * d, 0.0)
        was = [[m.P[c] for c in range(3)] for m in g.Nodes]
    if kind == 'bent':
        eps = h.real('eps', 0.001, 0.9)
    smoothing.NullSpaceSmoothing(g, n, st=st, epsilon=eps, fix_boundary_nodes=fix).smoothing()
    h.check(mesh.incidence_errors(g) == [], 'mesh')
    now = [[m.P[c] for c in range(3)] for m in g.Nodes]
    ni = mesh.idx(g.Nodes)
    cur = was
    for _ in range(n):
        nxt = []
        for m, p in zip(g.Nodes, cur):
            s, q = [0.0, 0.0, 0.0], 0
            for f in g.Faces:
                if mesh.has(f.Nodes, m):
                    q += 1
                    for x in f.Nodes:
                        s = [a + b * (1 / 3.0) for a, b in zip(s, cur[ni[id(x)]])]
            nxt.append(p if fix and border[id(m)] else [a + (b * (1.0 / q) - a) * st for a, b in zip(p, s)])
        cur = nxt
    for m, p, q, w in zip(g.Nodes, was, now, cur):
        if fix and border[id(m)] or n == 0:
            h.check(h.both(*[a == b for a, b in zip(p, q)]), 'fixed' if n else 'none')
        if kind == 'flat':
            h.check(h.both(*[h.both(a - b <= 1e-6, b - a <= 1e-6) for a, b in zip(q, w)]), 'flat')
    if kind != 'bent':
        return
    # the part of the way to the middle of the faces along the directions in which the surface is flat
    for i, m in enumerate(g.Nodes):
        if fix and border[id(m)]:
            continue
        A = np.zeros((3, 3))
        c, q = [0.0, 0.0, 0.0], 0
        for f in g.Faces:
            if mesh.has(f.Nodes, m):
                q += 1
                p = [was[ni[id(x)]] for x in f.Nodes]
                for x in p:
                    c = [u + v / 3.0 for u, v in zip(c, x)]
                N = cross(sub(p[1], p[0]), sub(p[2], p[0]))
                L = dot(N, N) ** 0.5
                A = A + np.outer(N, N) / L / L * (L / 2)
        ev, vec = np.linalg.eigh(A)
        dv = np.array([u / q - v for u, v in zip(c, was[i])])
        free = []
        for j in range(3):
            h.assume(h.any(eps - abs(ev[j]) / ev[2] >= 1e-6, eps - abs(ev[j]) / ev[2] <= -1e-6))
            if not h.is_true(eps < ev[j] / ev[2]):
                free.append(vec[:, j])
        want = [float(x) for x in sum([v * float(np.dot(v, dv)) for v in free], np.zeros(3))]
        h.check(h.both(*[h.both(now[i][j] - was[i][j] - st * want[j] <= 1e-6, was[i][j] + st * want[j] - now[i][j] <= 1e-6) for j in range(3)]), 'corner' if not free else 'slide')
