"""Segment against triangle, not in its plane."""
PROPERTY = 'P20'
BOUNDS = ('4 fixed triangles (axis planes, tilted, obtuse; one also of 1 mm and of 16 km); segments with all six coordinates symbolic, or a triangle with a symbolic corner and a '
          'segment along an axis; the volume spanned is at least 1e-3, hits and misses are at least 1e-3 (relative) away from the rim')
OUTSIDE = 'segments across the plane aslant that come within 1e-3 of the rim of the triangle, or that end within 1e-3 of its plane (exactly on them: segments along an axis); segments parallel to the plane (P21: in the plane)'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['hit', 'miss', 'point', 'parallel']
OPT = {'loose': True, 'inc_ms': 3000, 'query_ms': 20000}

TRI = {'xy': ((0, 0, 0), (4, 0, 0), (0, 3, 0)), 'yz': ((1, -2, -1), (1, 3, 0), (1, 0, 4)), 'tilt': ((0, 0, 0), (4, 0, 2), (1, 3, -1)),
       'obtuse': ((0, 0, 1), (5, 1, 1), (-3, 1, 1))}


def cases(tier):
    out = [('%s/%s' % (t, k), dict(t=t, k=k)) for t in (('xy', 'tilt') if tier == 'quick' else TRI) for k in ('hit', 'miss')]
    out += [('corner/%s' % k, dict(t='corner', k=k)) for k in ('hit', 'miss')]
    out += [('%s/%s' % (t, k), dict(t=t, k=k)) for t in ('xy', 'yz') for k in ('end', 'rim')]
    out += [('%s/hit/%s' % (t, c), dict(t=t, k='hit', sc=2.0 ** e)) for c, e in (('small', -12), ('large', 12)) for t in (('xy',) if tier == 'quick' else ('xy', 'tilt'))]
    out += [('parallel', dict(t='xy', k='parallel'))] + ([('parallel/tilt', dict(t='tilt', k='parallel'))] if tier == 'thorough' else [])
    return out


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def run(h, t, k, sc=1.0):
    geom = h.mod('geom')
    V = geom.Vect
    # the line meets the plane at  a + ba * al + ca * be,  at the fraction fi of the segment
    al, be, fi = h.real('alfa', -2, 3), h.real('beta', -2, 3), h.real('phi', -2, 3)
    d = [h.real('d%s' % c, -8, 8) * sc for c in 'xyz']
    if k == 'end':
        # the segment starts or ends in the triangle
        fi = h.choice('fi', [0.0, 1.0])
    elif k == 'rim':
        # it goes through a side or a corner
        w = h.choice('w', ['a', 'b', 'c', 'ab', 'ac', 'bc'])
        al, be = {'a': (al, 0.0), 'b': (0.0, be), 'c': (al, 1 - al), 'ab': (1.0, 0.0), 'ac': (0.0, 1.0), 'bc': (0.0, 0.0)}[w]
    if k in ('end', 'rim'):
        # across, so that the numbers are exact in floats too
        i = 'xyz'.index({'xy': 'z', 'yz': 'x'}[t])
        d = [h.choice('d', [2.0, -4.0]) if i == j else 0.0 for j in range(3)]
    if t == 'corner':
        T = [[0.0, 0.0, 0.0], [4.0, 0.0, 1.0], [h.real('cx', -3, 3), h.real('cy', 1, 5), h.real('cz', -3, 3)]]
        d = [0.0, 0.0, 3.0]
    else:
        T = [[float(c) * sc for c in v] for v in TRI[t]]
    a, b, c = T
    n = cross(sub(b, a), sub(c, a))
    e1, e2 = sub(b, a), sub(c, a)
    if k == 'parallel':
        # parallel to the plane and away from it
        p = [a[i] + e1[i] * al + e2[i] * be + n[i] * fi for i in range(3)]
        h.assume(abs(fi) >= 0.01)
        u, v = h.real('u', -3, 3), h.real('v', -3, 3)
        q = [p[i] + e1[i] * u + e2[i] * v for i in range(3)]
        h.check(geom.Triangle(V(*a), V(*b), V(*c)).intersection_with_segment(geom.Segment(V(*p), V(*q))) == [], 'parallel')
        return
    h.assume(abs(dot(n, d)) >= 1e-3 * sc ** 3)
    x = [a[i] + e1[i] * al + e2[i] * be for i in range(3)]
    p = [x[i] - d[i] * fi for i in range(3)]
    q = [x[i] + d[i] * (1 - fi) for i in range(3)]
    m = 1e-3
    lam = [al, be, 1 - al - be, fi, 1 - fi]
    if k == 'end':
        h.assume(h.both(*[v >= m for v in lam[:3]]))
    elif k == 'rim':
        h.assume(h.both(*[v >= 0 for v in lam[:3]]))
        h.assume(h.both(*[v >= m for v in lam[3:]]))
    elif k == 'hit':
        h.assume(h.both(*[v >= m for v in lam]))
    else:
        h.assume(h.any(*[v <= -m for v in lam]))
    r = geom.Triangle(V(*a), V(*b), V(*c)).intersection_with_segment(geom.Segment(V(*p), V(*q)))
    if k == 'miss':
        h.check(r == [], 'miss')
    else:
        h.check(len(r) == 1, 'hit')
        for i in range(3):
            h.close(r[0][i], x[i], 'point', tol=1e-6 * sc)
