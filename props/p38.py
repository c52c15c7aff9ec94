"""Growing ice on a grid."""
import os
from symx import mesh
from props.p35 import cross, dot, sub, FLAT, coefs

PROPERTY = 'P38'
MODULES = ('utils', 'remeshing')
BOUNDS = ('flat meshes of 1-4 faces in 1-3 zones with one symbolic height for each connected part and 1-3 steps of growth (the rest redistributed or not), or any heights and one step; bent and closed meshes of 1-8 faces with any height of one face and one step; '
          'no ice with all kinds of smoothing of normals and heights; symbolic other data; one grid or a directory of grids given to the script')
OUTSIDE = 'several steps on a bent surface (redistributed or not); the least and greatest counts of steps differ (that is P34)'
ASSUMPTIONS = ['exact-real arithmetic']
STUBS = ['text of a float is a lossless token']
LABELS = ['up', 'moved', 'no ice', 'zero', 'kept', 'mesh', 'accreted', 'rest', 'files', 'again']
OPT = {'loose': True, 'query_ms': 30000, 'nra_first': True, 'canon': True}


def cases(tier):
    out = [('flat/two/%d' % n, dict(kind='flat', topo='two', n=n)) for n in (1, 2, 3)] + [('flat/apart/2', dict(kind='flat', topo='apart', n=2)), ('flat/strip3/2', dict(kind='flat', topo='strip3', n=2)),
           ('noredistr/two/3', dict(kind='flat', topo='two', n=3, keep=False)), ('noredistr/apart/2', dict(kind='flat', topo='apart', n=2, keep=False)), ('one/strip3', dict(kind='one', topo='strip3', n=1)), ('bent/two', dict(kind='bent', topo='two', n=1)), ('bent/octa', dict(kind='bent', topo='octa', n=1)),
           ('none/two', dict(kind='none', topo='two', n=2)), ('none/tetra', dict(kind='none', topo='tetra', n=1)),
           ('script/g', dict(kind='flat', topo='two', n=1, script='-g')), ('script/d', dict(kind='flat', topo='tri', n=2, script='-d'))]
    if tier == 'thorough':
        out += [('flat/fan3/3', dict(kind='flat', topo='fan3', n=3)), ('flat/apart/4', dict(kind='flat', topo='apart', n=4)), ('bent/strip3', dict(kind='bent', topo='strip3', n=1)),
                ('bent/fan3', dict(kind='bent', topo='fan3', n=1)), ('none/octa', dict(kind='none', topo='octa', n=3)), ('one/strip4', dict(kind='one', topo='strip4', n=1)), ('script/d2', dict(kind='flat', topo='apart', n=1, script='-d'))]
    return out


EVEN = [(0.0, 0.0, 0.0), (4.0, 0.0, 0.0), (1.0, 3.0, 0.0), (5.0, 4.0, 0.0), (2.0, 7.0, 0.0), (6.0, 8.0, 0.0)]
OCT = [(3.0, 0.0, 0.0), (-2.5, 0.25, 0.0), (0.0, 2.0, 0.0), (0.0, -3.0, 0.5), (0.5, 0.0, 2.0), (0.0, 0.0, -2.75)]
PARTS = {'apart': [0, 1]}


def near(h, a, b, tol=1e-6):
    d = a - b
    return h.both(d <= tol, d >= -tol)


def growth(P, faces):
    """Node -> the unit vector along the sum of the unit normals of its faces."""
    out = {}
    for fc in faces:
        N = cross(sub(P[fc[1]], P[fc[0]]), sub(P[fc[2]], P[fc[0]]))
        L = dot(N, N) ** 0.5
        for i in fc:
            out[i] = [x + y / L for x, y in zip(out.get(i, [0.0, 0.0, 0.0]), N)]
    for i, v in out.items():
        L = dot(v, v) ** 0.5
        out[i] = [x / L for x in v]
    return out


def options(h, n, more=''):
    p = h.tmp('o.json')
    with open(p, 'w') as f:
        f.write('{"remesh_nsteps_min": %d, "remesh_nsteps_max": %d%s}' % (n, n, more))
    return p


def run(h, kind, topo, n, script='', keep=True):
    geom, gsu, remeshing = h.mod('geom'), h.mod('gsu'), h.mod('remeshing')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    P = OCT if topo == 'octa' else mesh.PTS if kind == 'bent' or topo == 'tetra' else EVEN
    if topo == 'apart':
        P = EVEN[:4] + [(9.0, 5.0, 0.0), (6.0, 8.0, 0.0)]
    if topo == 'fan3' and kind != 'bent':
        P = [(1.0, 1.0, 0.0), (-3.0, -1.0, 0.0), (5.0, -2.0, 0.0), (1.0, 6.0, 0.0)]
    zone_of = [0] * nf
    for i in range(1, min(nf, 2)):
        zone_of[i] = int(h.int('zone%d' % i, 0, 1))
    T, B, W = [h.real('T%d' % i, -99, 99) for i in range(nf)], [h.real('B%d' % i, -99, 99) for i in range(nf)], [h.real('W%d' % i, -99, 99) for i in range(nf)]
    X = [None] * nf
    if kind == 'none':
        H = [0.0] * nf
    elif kind == 'flat':
        part = PARTS.get(topo, [0] * nf)
        hs = [h.real('H%d' % i, 0, 5) for i in range(max(part) + 1)]
        H = [hs[i] for i in part]
    else:
        w = None if kind == 'one' else h.choice('which', list(range(min(nf, 4))))
        H = [h.real('H%d' % i, 0, 0.25) if w is None else 0.0 if i % 2 else 0.125 for i in range(nf)]
        if w is not None:
            # the height of the layer is the unknown, the height of ice follows
            a, b = coefs([P[i] for i in faces[w]], [growth(P, faces)[i] for i in faces[w]])
            X[w] = h.real('x', 1e-6, 0.25)
            h.assume(a + 2 * b * X[w] >= 0.01)
            H[w] = X[w] + X[w] * X[w] * (b / a)
    spec = mesh.Spec(P[:nn], faces, zone_of, None, ['T', 'Hw', 'Hi', 'Beta'], {'T': T, 'Hw': W, 'Hi': H, 'Beta': B})
    order = spec.face_order()
    if script:
        os.makedirs(h.tmp('in'))
        text = spec.text(h)
        names = ['wing_1_r_000000000012.dat'] + (['b.dat'] if script == '-d' else [])
        for x in names:
            mesh.write(h, 'in/' + x, text)
        mesh.write(h, 'in/readme.txt', 'no grid')
        rc = h.script('remesh.py', script, h.tmp('in') if script == '-d' else h.tmp('in/' + names[0]), '-o', h.tmp('a_r_b/out'), '-j', options(h, n))
        h.check(not rc, 'files')
        h.check(sorted(os.listdir(h.tmp('a_r_b/out'))) == sorted(x.replace('_r_', '_') for x in names), 'files')
        h.check(sorted(os.listdir(h.tmp('in'))) == sorted(names + ['readme.txt']), 'files')
        gs = []
        for x in names:
            h.check(open(h.tmp('in/' + x)).read() == text, 'files')
            g = gsu.Grid()
            g.load(h.tmp('a_r_b/out/' + x.replace('_r_', '_')))
            gs.append(g)
    else:
        g = mesh.load(h, spec)
        more = '' if keep else ', "remesh_rest_volume_redistr": false'
        if kind == 'none' and h.choice('smooth', [0, 1]):
            more = ', "remesh_nsmooth_steps": 1, "remesh_hsmooth_steps": 2, "remesh_rest_volume_redistr": false'
        remeshing.TongRemesher('g.dat', options(h, n, more), '.')(g)
        gs = [g]
    for g in gs:
        judge(h, g, kind, n, P, faces, zone_of, order, H, T, B, not script, X, W)
    if kind == 'flat' and not script:
        # no ice is left: growing again changes nothing
        z = [[m.P[c] for c in range(3)] for m in g.Nodes]
        remeshing.TongRemesher('g.dat', options(h, 1), '.')(g)
        h.check(h.both(*[near(h, m.P[c], q[c], 1e-9) for m, q in zip(g.Nodes, z) for c in range(3)]), 'again')
        # new ice on the same grid, which was stretched meanwhile
        more = h.real('more', 0, 5)
        for m, q in zip(g.Nodes, z):
            m.P = geom.Vect(q[0] * 2.0, q[1] * 2.0, m.P.Z)
        for f in g.Faces:
            f['Hi'] = more
        flat = h.both(*[near(h, q[2], z[0][2], 1e-12) for q in z])
        if h.is_true(flat):
            remeshing.TongRemesher('g.dat', options(h, min(n, 2)), '.')(g)
            h.check(h.both(*[near(h, m.P[c], q[c] * 2.0 if c < 2 else q[c] + more) for m, q in zip(g.Nodes, z) for c in range(3)]), 'again')
            h.check(h.both(*[near(h, f.actual_ice, f.target_ice) for f in g.Faces]), 'again')


def judge(h, g, kind, n, P, faces, zone_of, order, H, T, B, inner, X, W):
    h.check(len(g.Faces) == len(faces) and len(g.Nodes) == len({x for f in faces for x in f}), 'mesh')
    h.check(mesh.incidence_errors(g) == [], 'mesh')
    node = {}
    for f, k in zip(g.Faces, order):
        h.check(f['Hi'] == 0, 'zero')
        h.check(h.both(f['T'] == T[k], f['Beta'] == B[k], f['Hw'] == W[k]), 'kept')
        for m, i in zip(f.Nodes, faces[k]):
            if i in node:
                h.check(node[i] is m, 'mesh')
            node[i] = m
    h.check(sum(len(z.Faces) for z in g.Zones) == len(faces), 'mesh')
    # heights held by the faces
    shift = {i: [] for i in node}
    dirs = growth(P, faces)
    if kind == 'none':
        for i, m in node.items():
            h.check(h.both(*[near(h, m.P[c], P[i][c], 1e-9) for c in range(3)]), 'no ice')
        return
    if kind == 'flat':
        for k, fc in enumerate(faces):
            for i in fc:
                m = node[i]
                h.check(h.both(near(h, m.P.X, P[i][0]), near(h, m.P.Y, P[i][1]), near(h, m.P.Z, H[k])), 'up')
        if inner:
            for f, k in zip(g.Faces, order):
                h.check(h.both(near(h, f.actual_ice, f.target_ice), near(h, f.rest_ice, 0.0)), 'accreted')
        return
    for k, fc in enumerate(faces):
        a, b = coefs([P[i] for i in fc], [dirs[i] for i in fc])
        x = H[k]
        if X[k] is not None:
            x = X[k]
        elif abs(b) > 1e-9 and H[k] > 0:
            # the first root of a * x + b * x * x = V from zero
            x = ((a * a + 4 * b * a * H[k]) ** 0.5 - a) * (0.5 / b)
        for i in fc:
            shift[i].append(x)
    for i, m in node.items():
        s = sum(shift[i]) * (1.0 / len(shift[i]))
        h.check(h.both(*[near(h, m.P[c], P[i][c] + dirs[i][c] * s) for c in range(3)]), 'moved')
    if kind == 'one' and inner:
        for f, k in zip(g.Faces, order):
            fc = faces[k]
            a, _ = coefs([P[i] for i in fc], [dirs[i] for i in fc])
            v = a * sum([sum(shift[i]) * (1.0 / len(shift[i])) for i in fc]) * (1 / 3.0)
            h.check(near(h, f.actual_ice, v), 'accreted')
            left = a * H[k] - v
            h.check(near(h, f.rest_ice, h.ite(left > 0, left, 0.0)), 'rest')
