"""Directions of growth and their smoothing."""
from symx import mesh
from props.p35 import cross, dot, sub, FLAT

PROPERTY = 'P36'
MODULES = ('utils', 'remeshing')
BOUNDS = ('meshes of 1-4 faces with a symbolic coordinate of a node for the initial directions; meshes of 2-8 faces of fixed shape with symbolic coefficients of smoothing in '
          '[0, 20] and (0, 2] (the second one fixed in some cases) for 0-3 steps of smoothing')
OUTSIDE = 'nodes whose normals sum up to zero; more steps'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['face', 'node', 'unit', 'none', 'smooth face', 'smooth node', 'flat']
OPT = {'loose': True, 'inc_ms': 3000, 'query_ms': 30000}


def cases(tier):
    out = [('init/tri', dict(kind='init', topo='tri')), ('init/two', dict(kind='init', topo='two')), ('init/octa', dict(kind='fixed', topo='octa')),
           ('0', dict(kind='smooth', topo='strip3', n=0)), ('1/two', dict(kind='smooth', topo='two', n=1)), ('1/strip3', dict(kind='smooth', topo='strip3', n=1, k=0.15)),
           ('1/moved', dict(kind='smooth', topo='strip3', n=1, k=0.15, moved=True)), ('flat/1', dict(kind='flat', topo='strip3', n=1)), ('flat/2', dict(kind='flat', topo='two', n=2))]
    if tier == 'thorough':
        out += [('init/strip3', dict(kind='init', topo='strip3')), ('init/fan3', dict(kind='init', topo='fan3')), ('1/tetra', dict(kind='smooth', topo='tetra', n=1, k=0.3)), ('1/fan3', dict(kind='smooth', topo='fan3', n=1)),
                ('2/two', dict(kind='smooth', topo='two', n=2, k=0.15)), ('flat/3', dict(kind='flat', topo='strip3', n=3))]
    return out


def norm2(f):
    """Normal of a face, its length is twice the area."""
    p = [[n.P[c] for c in range(3)] for n in f.Nodes]
    return cross(sub(p[1], p[0]), sub(p[2], p[0]))


def near(h, v, w, tol=1e-7):
    return h.both(*[abs(v[c] - w[c]) <= tol for c in range(3)])


def run(h, kind, topo, n=0, k=None, moved=False):
    geom, remeshing = h.mod('geom'), h.mod('remeshing')
    nn, faces = mesh.TOPO[topo]
    P = FLAT if kind == 'flat' else mesh.PTS
    g = mesh.load(h, mesh.Spec(P[:nn], faces))
    T = remeshing.TongRemesher('g.dat', None, '.')
    T.grid = g
    T.nsmooth_steps = n
    if kind == 'init':
        m = g.Nodes[-1]
        z = h.real('z', -9, 9)
        # keep away from folding the mesh over
        m.P = geom.Vect(m.P.X, m.P.Y, z)
    if moved:
        # a step of growth came before
        T.init_ice_dirs()
        T.normals_smoothing()
        T.remember_current_areas()
    if kind == 'fixed' or moved:
        # directions are those of the surface as it is now, whatever was there before
        if not moved:
            T.init_ice_dirs()
        for i, m in enumerate(g.Nodes):
            m.P = geom.Vect(m.P.X + 0.125 * i, m.P.Y - 0.25 * (i % 2), m.P.Z * 1.25)
    T.init_ice_dirs()
    u = {}
    for f in g.Faces:
        N = norm2(f)
        L = h.sqrt(dot(N, N)) if kind == 'init' else dot(N, N) ** 0.5
        u[id(f)] = [f.ice_dir[c] for c in range(3)]
        h.check(near(h, [f.ice_dir[c] * L for c in range(3)], N), 'face')
        h.check(abs(f.ice_dir.mod2() - 1) <= 1e-9, 'unit')
    for m in g.Nodes:
        s = [0.0, 0.0, 0.0]
        for f in g.Faces:
            if mesh.has(f.Nodes, m):
                s = [x + y for x, y in zip(s, u[id(f)])]
        d = [m.ice_dir[c] for c in range(3)]
        if kind == 'init':
            h.assume(dot(s, s) >= 0.01)
        h.check(h.both(near(h, cross(d, s), (0, 0, 0)), dot(d, s) > 0), 'node')
        h.check(abs(dot(d, d) - 1) <= 1e-9, 'unit')
    if kind in ('init', 'fixed'):
        return
    T.nsmooth_s, T.nsmooth_k = s, k = h.real('s', 0, 20), h.real('k', 0.001, 2) if k is None else k
    fd = {id(f): [f.ice_dir[c] for c in range(3)] for f in g.Faces}
    nd = {id(m): [m.ice_dir[c] for c in range(3)] for m in g.Nodes}
    pos = [[m.P[c] for c in range(3)] for m in g.Nodes]
    T.normals_smoothing()
    h.check(pos == [[m.P[c] for c in range(3)] for m in g.Nodes], 'none')
    if kind == 'flat':
        for o in g.Faces + g.Nodes:
            h.check(near(h, o.ice_dir, (0, 0, 1), 1e-9), 'flat')
        return
    for i in range(n):
        new = {}
        for f in g.Faces:
            w, t = 0, [0, 0, 0]
            for m in f.Nodes:
                c = s * (1.0 - dot(fd[id(f)], nd[id(m)]))
                x = h.ite(c > k, c, k)
                w, t = w + x, [p + q * x for p, q in zip(t, nd[id(m)])]
            new[id(f)] = [x / w for x in t]
        fd = new
        for m in g.Nodes:
            w, t = 0, [0, 0, 0]
            for f in g.Faces:
                if mesh.has(f.Nodes, m):
                    N = norm2(f)
                    x = 1.0 / dot(N, N) ** 0.5
                    w, t = w + x, [p + q * x for p, q in zip(t, fd[id(f)])]
            nd[id(m)] = [x / w for x in t]
    for f in g.Faces:
        h.check(near(h, f.ice_dir, fd[id(f)]), 'smooth face' if n else 'none')
    for m in g.Nodes:
        h.check(near(h, m.ice_dir, nd[id(m)]), 'smooth node' if n else 'none')
