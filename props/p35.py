"""Heights of ice that hold the wanted volumes."""
from symx import mesh

PROPERTY = 'P35'
MODULES = ('utils', 'remeshing')
BOUNDS = ('meshes of 1-4 fixed faces with fixed directions of growth at the nodes (spreading, converging, along the normals, skew); any volume on each face, '
          'given by the height that holds it (up to 50 times the size) or above all that a converging layer can hold')
OUTSIDE = 'heights below 1e-9 of the size of the face except zero; heights within 1e-3 (relative) of the turning point; directions at right angle to the normal'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['height', 'too much', 'zero', 'node', 'flat']
OPT = {'loose': True, 'inc_ms': 3000, 'query_ms': 30000}
# slopes of the directions at the nodes against +Z (or against the mean normal for a closed mesh)
DIRS = {'spread': [(-0.4, -0.3, 1.0), (0.5, -0.2, 0.9), (-0.1, 0.6, 0.8), (0.7, 0.5, 1.0), (0.2, 0.9, 1.1)],
        'converge': [(0.3, 0.25, 1.0), (-0.3, 0.1, 0.9), (-0.05, -0.4, 0.8), (-0.25, -0.2, 1.0), (-0.1, -0.3, 1.0)],
        'flat': [(0.0, 0.0, 1.0)] * 5, 'skew': [(0.4, 0.2, 0.9)] * 5}
FLAT = [(0.0, 0.0, 0.0), (4.0, 0.0, 0.0), (1.0, 3.0, 0.0), (5.0, 4.0, 0.0), (2.0, 7.0, 0.0)]


def cases(tier):
    out = [('%s/%s' % (t, d), dict(topo=t, dirs=d)) for t, d in (('tri', 'spread'), ('tri', 'converge'), ('two', 'spread'), ('two', 'converge'), ('two', 'flat'), ('tri', 'skew'))]
    out.append(('much', dict(topo='tri', dirs='converge', much=True)))
    out += [('strip3/skew', dict(topo='strip3', dirs='skew')), ('small/spread', dict(topo='two', dirs='spread', size=5e-4)), ('small/converge', dict(topo='tri', dirs='converge', size=5e-5)), ('large/spread', dict(topo='tri', dirs='spread', size=200.0))]
    if tier == 'thorough':
        out += [('strip3/%s' % d, dict(topo='strip3', dirs=d)) for d in DIRS if d != 'skew'] + [('fan3/spread', dict(topo='fan3', dirs='spread')), ('two/much', dict(topo='two', dirs='converge', much=True))]
    return out


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def coefs(p, d):
    """Volume of a layer of height h over the triangle p, sides along d: a * h + b * h * h + ..."""
    n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
    m = dot(n, n) ** 0.5
    n = [x / m for x in n]
    u = [[x / dot(n, e) for x in e] for e in d]
    e1, e2, w1, w2 = sub(p[1], p[0]), sub(p[2], p[0]), sub(u[1], u[0]), sub(u[2], u[0])
    return m / 2, 0.25 * dot([x + y for x, y in zip(cross(e1, w2), cross(w1, e2))], n)


def run(h, topo, dirs, much=False, size=1.0):
    geom, remeshing = h.mod('geom'), h.mod('remeshing')
    nn, faces = mesh.TOPO[topo]
    P = FLAT if dirs in ('flat', 'skew') else mesh.PTS
    P = [tuple(x * size for x in q) for q in P]
    g = mesh.load(h, mesh.Spec(P[:nn], faces))
    T = remeshing.TongRemesher('g.dat', None, '.')
    T.grid = g
    for n in g.Nodes:
        n.ice_dir = geom.Vect(*DIRS[dirs][[tuple(n.P[c] for c in range(3)) == q for q in P].index(True)]).orth()
    want = []
    for i, f in enumerate(g.Faces):
        a, b = coefs([[n.P[c] for c in range(3)] for n in f.Nodes], [[n.ice_dir[c] for c in range(3)] for n in f.Nodes])
        if i == 1 and not much and h.choice('none', [True, False]):
            f.ice_chunk = 0.0
            want.append((0.0, 'zero'))
            continue
        if much:
            V = h.real('V%d' % i, 1.01 * a * a / (-4 * b), 1e4)
            f.ice_chunk = V
            want.append((V / a, 'too much'))
            continue
        flat = abs(b) <= 1e-9 * size
        top = 50.0 * size if flat or b > 0 else 0.999 * a / (-2 * b)
        x = h.real('h%d' % i, 1e-9 * size, top)
        f.ice_chunk = a * x + (0.0 if flat else b * x * x)
        want.append((x, 'flat' if flat else 'height'))
    T.define_ice_shifts()
    for f, (x, l) in zip(g.Faces, want):
        h.check(abs(f.ice_shift - x) <= 1e-6 * x, l)
    for n in g.Nodes:
        ws = [w for f, (w, _) in zip(g.Faces, want) if mesh.has(f.Nodes, n)]
        h.check(abs(n.ice_shift * len(ws) - sum(ws)) <= 4e-6 * sum(ws), 'node')
