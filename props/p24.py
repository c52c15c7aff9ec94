"""Volumes under moved triangles."""
PROPERTY = 'P24'
BOUNDS = ('tetrahedra with one symbolic corner and symbolic shift; triangles of 3 fixed shapes pushed by a symbolic vector or drawn towards a symbolic point; prizmatoids over triangles in 3 planes with '
          'symbolic nodal normals (two of them at a time) and any symbolic height')
OUTSIDE = 'nodal normals that are nearly orthogonal to the normal of the face (dot product below 0.1)'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['tetrahedron', 'order', 'prism', 'polynomial', 'area', 'zero']
OPT = {'loose': True, 'inc_ms': 4000, 'query_ms': 30000}
T = {'xy': (((0, 0, 0), (4, 0, 0), (0, 3, 0)), (0, 0, 1)), 'yz': (((2, 0, 1), (2, 3, 0), (2, 1, 4)), (1, 0, 0)),
     # in the plane with the normal (3/5, 0, 4/5)
     'tilt': (((0, 0, 0), (4, 1, -3), (-4, 5, 3)), (0.6, 0, 0.8))}


def cases(tier):
    out = [('tetra', dict(k='tetra')), ('prism/xy', dict(k='prism', t='xy')), ('prism/tilt', dict(k='prism', t='tilt')), ('frustum/xy', dict(k='frustum', t='xy')), ('frustum/tilt', dict(k='frustum', t='tilt'))]
    out += [('poly/%s/%d' % (t, i), dict(k='poly', t=t, i=i)) for t, i in ([('xy', 0), ('yz', 1), ('tilt', 2)] if tier == 'quick' else [(t, i) for t in T for i in range(3)])]
    return out


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def run(h, k, t='xy', i=0):
    geom = h.mod('geom')
    V = geom.Vect
    U = geom.utils
    P, n = T[t]
    P = [[float(x) for x in p] for p in P]
    n = [float(x) for x in n]
    vs = [V(*p) for p in P]
    if k == 'tetra':
        d = [h.real('d%s' % c, -9, 9) for c in 'xyz']
        s = [h.real('s%s' % c, -9, 9) for c in 'xyz']
        want = abs(dot(sub(d, P[0]), cross(sub(P[1], P[0]), sub(P[2], P[0])))) / 6
        vol = U.tetrahedron_volume(vs[0], vs[1], vs[2], V(*d))
        h.close(vol, want, 'tetrahedron')
        h.le(0, vol, 'tetrahedron')
        sv = V(*s)
        h.close(U.tetrahedron_volume(vs[0] + sv, vs[1] + sv, vs[2] + sv, V(*d) + sv), want, 'tetrahedron')
        for o in ((V(*d), vs[0], vs[1], vs[2]), (vs[1], vs[0], V(*d), vs[2]), (vs[2], V(*d), vs[1], vs[0])):
            h.close(U.tetrahedron_volume(*o), want, 'order')
        u, v = h.real('u', -3, 3), h.real('v', -3, 3)
        q = vs[0] + (vs[1] - vs[0]) * u + (vs[2] - vs[0]) * v
        h.close(U.tetrahedron_volume(vs[0], vs[1], vs[2], q), 0, 'zero')
    elif k == 'frustum':
        # every corner moves to the same part q of its way to the point o: a part 1 - q^3 of a tetrahedron
        d = [h.real('d%s' % c, -9, 9) for c in 'xyz']
        q = h.real('q', 0, 1)
        nv = [V(*[x + (y - x) * (1 - q) for x, y in zip(p, d)]) for p in P]
        N = cross(sub(P[1], P[0]), sub(P[2], P[0]))
        want = abs(dot(sub(d, P[0]), N)) / 6 * (1 - q * q * q)
        h.close(U.displaced_triangle_volume(vs[0], vs[1], vs[2], *nv), want, 'prism')
    elif k == 'prism':
        d = [h.real('d%s' % c, -9, 9) for c in 'xyz']
        nv = [p + V(*d) for p in vs]
        vol = U.displaced_triangle_volume(vs[0], vs[1], vs[2], *nv)
        want = abs(dot(d, cross(sub(P[1], P[0]), sub(P[2], P[0])))) / 2
        h.close(vol, want, 'prism')
        # and back
        h.close(U.displaced_triangle_volume(nv[0], nv[1], nv[2], *vs), want, 'prism')
        h.close(U.displaced_triangle_volume(vs[0], vs[1], vs[2], *vs), 0, 'zero')
    else:
        N = [list(n) for _ in range(3)]
        # two symbolic nodal normals, the third is the normal of the face
        for j in range(3):
            if j != i:
                N[j] = [h.real('n%d%s' % (j, c), -1, 1) for c in 'xyz']
                h.assume(dot(N[j], n) >= 0.1)
        a, b, c = U.prizmatoid_volume_coefs(vs[0], vs[1], vs[2], *[V(*x) for x in N], V(*n))
        # the layer at height x is the triangle with the corners v + u x; its area along n, integrated over x
        u = [[x / dot(N[j], n) for x in N[j]] for j in range(3)]
        p21, p31, u21, u31 = sub(P[1], P[0]), sub(P[2], P[0]), sub(u[1], u[0]), sub(u[2], u[0])
        A0 = dot(cross(p21, p31), n) / 2
        A1 = (dot(cross(p21, u31), n) + dot(cross(u21, p31), n)) / 2
        A2 = dot(cross(u21, u31), n) / 2
        h.close(a, abs(A0), 'area')
        h.close(b, A1 / 2, 'polynomial')
        h.close(c, A2 / 3, 'polynomial')
