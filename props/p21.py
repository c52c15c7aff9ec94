"""Triangle against triangle, and segment against triangle in one plane."""
PROPERTY = 'P21'
BOUNDS = ('pairs of triangles of 4 fixed shapes in general position, the second moved by any symbolic vector; in one plane: triangles in the axis planes and segments '
          'of 6-11 fixed lengths and directions from any symbolic point of the plane; 3-5 fixed tilted triangles (of 4 mm to 1 km) with 6 segments, the common point symbolic; common points count when they are 1e-3 inside of both')
OUTSIDE = 'touching at the rim; other segments in tilted planes; triangles in one plane'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['found', 'sound', 'symmetric', 'part found', 'part sound', 'once', 'self', 'ends']
OPT = {'loose': True}

PAIRS = {'cross': (((0, 0, 0), (4, 0, 0), (0, 4, 0)), ((0, 0, -1), (3, 1, 2), (-1, 1, 3))),
         'steep': (((0, 0, 0), (4, 0, 1), (1, 4, -1)), ((0, 0, -2), (1, 2, 3), (-1, -2, 2))),
         'thin': (((-5, 0, 0), (5, 1, 0), (0, 1, 0.5)), ((0, -3, -1), (0.25, 3, 1), (0.5, 0, 3))),
         'same': (((0, 0, 0), (2, 0, 0), (0, 2, 1)), ((0, 1, 0), (0, 0, 2), (2, 1, 1)))}
PLANE = {'xy': (0, 1, 2), 'yz': (1, 2, 0), 'xz': (0, 2, 1)}
FLAT = {'a': ((0, 0), (4, 0), (0, 3)), 'b': ((1, -1), (3, 4), (-2, 1))}


def cases(tier):
    out = [('%s/%s' % (p, k), dict(p=p, k=k)) for p in (('cross', 'steep') if tier == 'quick' else PAIRS) for k in ('hit', 'any')]
    fl = [('xy', 'a'), ('yz', 'b'), ('xz', 'a')] if tier == 'quick' else [(p, t) for p in PLANE for t in FLAT]
    out += [('flat/%s/%s' % f, dict(p=f[0], k='flat', t=f[1], n=6 if tier == 'quick' else 11)) for f in fl]
    out += [('tilt/%s' % t, dict(p=None, k='tilt', t=t)) for t in (('a', 'b', 'small') if tier == 'quick' else TILT)]
    return out


# triangles of tilted planes, and segments of these planes by parts of two sides: the determinants are not zero exactly in floats
TILT = {'a': ((0, 0, 0), (4, 0, 4), (0, 4, 4)), 'b': ((1, 2, 3), (4, 6, 5), (-2, 7, 9)), 'c': ((0.1, 0.2, 0.3), (0.7, -0.3, 1.1), (0.35, 0.9, -0.2)),
        'small': ((0.001, 0.002, 0.001), (0.005, 0.002, 0.0035), (0.0015, 0.006, 0.002)), 'large': ((100, 200, 50), (900, 150, 420), (130, 1100, 270))}
SEGS = [((0.25, 0.25), (0.5, 0.25)), ((-0.5, 0.3), (1.5, 0.3)), ((0.2, -0.4), (0.3, 1.7)), ((0.1, 0.2), (2.0, 1.5)), ((0.6, 0.3), (-1.0, -0.25)), ((0.125, 0.0), (0.125, 0.5))]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def inside(h, T, x, tol, plane=True):
    """x in the triangle T (fixed shape), with tolerance: linear in x."""
    a, b, c = T
    n = cross(sub(b, a), sub(c, a))
    nn = dot(n, n)
    conds = [abs(dot(n, sub(x, a))) <= max(tol, 1e-9) * nn] if plane else []
    for u, v in ((a, b), (b, c), (c, a)):
        m = cross(n, sub(v, u))
        conds.append(dot(m, sub(x, u)) >= -tol * nn)
    return h.both(*conds)


def run(h, p, k, t=None, n=6):
    geom = h.mod('geom')
    V = geom.Vect
    if k == 'flat':
        return flat(h, geom, p, t, n)
    if k == 'tilt':
        return tilt(h, geom, t)
    S1, S2 = [[[float(x) for x in v] for v in T] for T in PAIRS[p]]
    if k == 'hit':
        la, mu = [h.real('l%d' % i, 0.001, 1) for i in range(2)], [h.real('m%d' % i, 0.001, 1) for i in range(2)]
        h.assume(la[0] + la[1] <= 0.999)
        h.assume(mu[0] + mu[1] <= 0.999)
        at = lambda S, w: [S[0][i] + (S[1][i] - S[0][i]) * w[0] + (S[2][i] - S[0][i]) * w[1] for i in range(3)]
        d = sub(at(S1, la), at(S2, mu))
    else:
        d = [h.real('s%s' % x, -9, 9) for x in 'xyz']
    S2 = [[v[i] + d[i] for i in range(3)] for v in S2]
    if k == 'any' and p == 'cross':
        # any corner may be the first
        rot = h.choice('rot', [0, 1, 2])
        S1 = S1[rot:] + S1[:rot]
        P1 = PAIRS[p][0][rot:] + PAIRS[p][0][:rot]
    else:
        P1 = PAIRS[p][0]
    P2 = PAIRS[p][1]
    A, B = geom.Triangle(*[V(*v) for v in S1]), geom.Triangle(*[V(*v) for v in S2])
    r = A.intersection_with_triangle(B)
    if k == 'hit':
        h.check(len(r) > 0, 'found')
        h.check(len(B.intersection_with_triangle(A)) > 0, 'symmetric')
        h.check(A.intersection_with_triangle(A) == [], 'self')
    else:
        for x in r:
            h.check(inside(h, S1, x, 1e-6), 'sound')
            h.check(inside(h, S2, x, 1e-6), 'sound')
        # every side that goes through the inside of the other triangle gives its point
        for U, W in ((S1, S2), (S2, S1)):
            n = cross(*[[F[i][c] - F[0][c] for c in range(3)] for F in [[[float(x) for x in v] for v in (P1 if W is S1 else P2)]] for i in (1, 2)])
            for i in range(3):
                PU = P1 if U is S1 else P2
                e = [PU[(i + 1) % 3][c] - PU[i][c] for c in range(3)]
                k = dot(n, e)
                if abs(k) < 1e-9:
                    continue
                m = dot(n, sub(W[0], U[i])) * (1.0 / k)
                x = [U[i][c] + e[c] * m for c in range(3)]
                through = h.both(m >= 0.001, m <= 0.999, inside(h, W, x, -0.001, False))
                h.check(h.any(h.neg(through), *[h.both(*[h.both(y[c] - x[c] <= 1e-5, x[c] - y[c] <= 1e-5) for c in range(3)]) for y in r]), 'ends')
        h.check(len(r) <= 6, 'once')
        for i in range(1, len(r)):
            h.check(not r[i] < r[i - 1], 'once')
            h.check(h.neg(h.both(*[r[i][c] == r[i - 1][c] for c in range(3)])), 'once')


DIRS = [(3.0, 0.0), (0.0, -5.0), (1.0, 2.0), (-6.0, 4.5), (4.0, -3.0), (2400.0, -1800.0), (0.25, 0.25), (-2.0, 0.5), (12.0, 1.0), (-0.5, 7.0), (0.0, 9.0)]


def flat(h, geom, p, t, n):
    V = geom.Vect
    i, j, k = PLANE[p]

    def pt(u, v):
        x = [1.0] * 3
        x[i], x[j] = u, v
        return x
    T = [pt(float(u), float(v)) for u, v in FLAT[t]]
    dirs = DIRS[:n]
    P = pt(h.real('pu', -8, 8), h.real('pv', -8, 8))
    w = h.choice('dir', dirs)
    if w[0] > 100:
        P[i], P[j] = P[i] - 0.75 * w[0], P[j] - 0.75 * w[1]
    Q = list(P)
    Q[i], Q[j] = P[i] + w[0], P[j] + w[1]
    d = [0.0] * 3
    d[i], d[j] = w
    s = h.real('s', 0.001, 0.999)
    x = [P[c] + d[c] * s for c in range(3)]
    r = geom.Triangle(*[V(*v) for v in T]).intersection_with_segment(geom.Segment(V(*P), V(*Q)))
    for y in r:
        h.check(inside(h, T, y, 1e-6), 'part sound')
        # on the line of the segment
        h.check(abs((y[i] - P[i]) * d[j] - (y[j] - P[j]) * d[i]) <= 1e-6, 'part sound')
        # and not beyond its ends
        m = (y[i] - P[i]) * d[i] + (y[j] - P[j]) * d[j]
        h.check(h.both(m >= -1e-6 * (d[i] * d[i] + d[j] * d[j]), m <= (d[i] * d[i] + d[j] * d[j]) * (1 + 1e-6)), 'part sound')
    h.assume(inside(h, T, x, -0.001))
    h.check(len(r) == 2, 'part found')
    for c in (i, j):
        lo, hi = h.ite(r[0][c] <= r[1][c], r[0][c], r[1][c]), h.ite(r[0][c] <= r[1][c], r[1][c], r[0][c])
        h.le(lo, x[c], 'part found', tol=1e-6)
        h.le(x[c], hi, 'part found', tol=1e-6)


def tilt(h, geom, t):
    V = geom.Vect
    T = [[float(x) for x in v] for v in TILT[t]]
    size = max(abs(x) for a in T for b in T for x in sub(a, b))
    at = lambda w: [T[0][i] + (T[1][i] - T[0][i]) * w[0] + (T[2][i] - T[0][i]) * w[1] for i in range(3)]
    u, v = h.choice('segment', SEGS)
    P, Q = at(u), at(v)
    tri = geom.Triangle(*[V(*x) for x in T])
    h.check(h.both(tri.point_in_one_plane(V(*P)), tri.point_in_one_plane(V(*Q))), 'part found')
    # not in the plane: at a thousandth of the size from it
    n = cross(sub(T[1], T[0]), sub(T[2], T[0]))
    m = dot(n, n) ** 0.5
    off = [P[i] + n[i] / m * size * 0.001 for i in range(3)]
    h.check(h.neg(tri.point_in_one_plane(V(*off))), 'part sound')
    r = tri.intersection_with_segment(geom.Segment(V(*P), V(*Q)))
    # the part of the segment above the parameter s
    s = h.real('s', 0.0, 1.0)
    w = [u[i] + (v[i] - u[i]) * s for i in range(2)]
    x = [P[i] + (Q[i] - P[i]) * s for i in range(3)]
    e = sub(Q, P)
    for y in r:
        h.check(inside(h, T, y, 1e-6), 'part sound')
        m = dot(sub(y, P), e) / dot(e, e)
        h.check(-1e-6 <= m <= 1 + 1e-6, 'part sound')
    if h.any(w[0] <= 0.001, w[1] <= 0.001, w[0] + w[1] >= 0.999):
        return
    h.check(len(r) == 2, 'part found')
    for c in range(3):
        h.check(min(r[0][c], r[1][c]) <= x[c] + 1e-6 * size, 'part found')
        h.check(x[c] <= max(r[0][c], r[1][c]) + 1e-6 * size, 'part found')
