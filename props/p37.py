"""Smoothing of heights: volume only flows down, none is lost."""
from symx import mesh
from props.p35 import cross, dot, sub, FLAT

PROPERTY = 'P37'
MODULES = ('utils', 'remeshing')
BOUNDS = ('flat meshes of 1-4 faces and closed ones of 4 with any volumes of ice on the faces, symbolic coefficients (part of the greatest height in [0, 1], rate in [0, 0.3]), 0-2 steps')
OUTSIDE = 'negative volumes; more steps and faces'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['total', 'none', 'heights', 'flow', 'limit', 'nodes', 'uniform', 'not negative', 'order']
OPT = {'loose': True, 'inc_ms': 3000, 'query_ms': 30000}


def cases(tier):
    out = [('0', dict(topo='strip3', n=0)), ('1/tri', dict(topo='tri', n=1)), ('1/two', dict(topo='two', n=1)), ('1/strip3', dict(topo='strip3', n=1)), ('2/two', dict(topo='two', n=2)),
           ('uniform', dict(topo='strip3', n=2, uni=True)), ('bent', dict(topo='two', n=1, bent=True))]
    if tier == 'thorough':
        out += [('1/fan3', dict(topo='fan3', n=1, few=True)), ('3/two', dict(topo='two', n=3)), ('2/strip3', dict(topo='strip3', n=2, few=True)), ('bent/strip3', dict(topo='strip3', n=1, bent=True)), ('uniform/strip4', dict(topo='strip4', n=2, uni=True))]
    return out


def run(h, topo, n, uni=False, bent=False, few=False):
    geom, remeshing = h.mod('geom'), h.mod('remeshing')
    nn, faces = mesh.TOPO[topo]
    P = mesh.PTS if bent else [(0.0, 0.0, 0.0), (4.0, 0.0, 0.0), (1.0, 3.0, 0.0), (5.0, 4.0, 0.0), (2.0, 7.0, 0.0), (9.0, 8.0, 0.0)]
    if topo == 'fan3' and not bent:
        P = [(1.0, 1.0, 0.0), (-3.0, -1.0, 0.0), (5.0, -2.0, 0.0), (1.0, 6.0, 0.0)]
    g = mesh.load(h, mesh.Spec(P[:nn], faces))
    T = remeshing.TongRemesher('g.dat', None, '.')
    T.grid = g
    area = []
    for f in g.Faces:
        p = [[m.P[c] for c in range(3)] for m in f.Nodes]
        N = cross(sub(p[1], p[0]), sub(p[2], p[0]))
        area.append(dot(N, N) ** 0.5 / 2)
    nf = len(area)
    T.hsmooth_steps = n
    T.hsmooth_alfa, T.hsmooth_beta = alfa, beta = (h.choice('alfa', [0.2, 0.9]), h.choice('beta', [0.1, 0.25])) if few else \
        (h.real('alfa', 0, 1), h.choice('beta', [0.1, 0.3]))
    T.init_ice_dirs()
    hs = [h.real('h0', 0, 10)] * nf if uni else [h.real('h%d' % i, 0, 10) for i in range(nf)]
    V = [x * a for x, a in zip(hs, area)]
    for f, x, v in zip(g.Faces, hs, V):
        # heights are set here, not calculated, on a bent surface
        f.ice_chunk, f.ice_shift = v, x
    if not bent:
        T.define_ice_shifts()
        for f, x in zip(g.Faces, hs):
            h.check(abs(f.ice_shift - x) <= 1e-9 * (1 + x), 'heights')
    T.heights_smoothing()
    now = [f.ice_chunk for f in g.Faces]
    tol = lambda x: 1e-9 * (1 + x)
    h.check(abs(sum(now) - sum(V)) <= tol(sum(V)), 'total')
    if n == 0:
        h.check(h.both(*[a == b for a, b in zip(now, V)]), 'none')
        return
    if not bent:
        for f, a, v in zip(g.Faces, area, now):
            h.check(abs(f.ice_shift - v / a) <= tol(v), 'heights')
        for m in g.Nodes:
            w = [f.ice_shift for f in g.Faces if mesh.has(f.Nodes, m)]
            h.check(abs(m.ice_shift * len(w) - sum(w)) <= tol(sum(w)), 'nodes')
    if uni:
        h.check(h.both(*[abs(a - b) <= tol(b) for a, b in zip(now, V)]), 'uniform')
        return
    if nf == 1:
        h.check(now[0] == V[0], 'none')
        return
    if not few:
        h.check(h.both(*[v >= -1e-9 for v in now]), 'not negative')
    if n > 1:
        return
    if nf == 2:
        a, b = (0, 1) if h.is_true(hs[0] >= hs[1]) else (1, 0)
        # the flow goes from the higher one and at most its part beta of the difference
        flow = V[a] - now[a]
        d = hs[a] - hs[b]
        h.check(h.both(flow >= -1e-9, flow <= beta * d * area[a] + 1e-9), 'flow')
        h.check(flow <= beta * alfa * hs[a] * area[a] + 1e-9, 'limit')
        # and it is one of the two
        h.check(h.any(flow >= beta * d * area[a] - 1e-9, flow >= beta * alfa * hs[a] * area[a] - 1e-9), 'flow')
        if not bent and beta <= 0.1:
            h.check(now[a] / area[a] >= now[b] / area[b] - 1e-9, 'order')
        return
    top = hs[0]
    for x in hs[1:]:
        top = h.ite(x > top, x, top)
    want = list(V)
    for e in g.Edges:
        if len(e.Faces) != 2:
            continue
        i, j = [k for k, f in enumerate(g.Faces) if mesh.has(e.Faces, f)]
        d = hs[i] - hs[j]
        lim = alfa * top
        up = h.ite(d > lim, lim, d) * area[i]
        dn = h.ite(-d > lim, lim, -d) * area[j]
        fl = h.ite(d >= 0, up, -dn) * beta
        want[i], want[j] = want[i] - fl, want[j] + fl
    h.check(h.both(*[abs(x - y) <= 1e-6 for x, y in zip(now, want)]), 'flow')
