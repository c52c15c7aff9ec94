"""Measures of a triangle: sides, angles, quality, common plane."""

import math

from symx.mesh import PTS

PROPERTY = 'P50'
BOUNDS = 'triangles with one corner anywhere in the plane of two fixed ones (for angles and quality: anywhere on six lines), corner limits of 30, 60, 90, 120, 150 degrees; pairs of triangles with a free corner; points around a segment'
OUTSIDE = 'angles nearer than 1e-4 (cosine) to the limit; degenerate triangles; points nearer than 2e-4 (relative) to a segment but not on it'
ASSUMPTIONS = ['exact-real arithmetic', 'arccos decreases on [-1, 1]']
STUBS = ['numpy.arccos of a symbolic value is kept as the cosine and compared by it']
LABELS = ['same', 'side', 'area', 'angles', 'cosine', 'quality', 'plane', 'off plane', 'on segment', 'off segment', 'rounded', 'centre', 'normal']
OPT = {'loose': True, 'query_ms': 30000}


def cases(tier):
    out = [('sides', dict(kind='sides')), ('quality', dict(kind='quality')), ('plane', dict(kind='plane')), ('segment', dict(kind='segment')), ('right', dict(kind='right')), ('round', dict(kind='round')), ('same', dict(kind='same'))]
    out += [('angles/%d' % c, dict(kind='angles', deg=c)) for c in ((60, 90, 120) if tier == 'quick' else (30, 45, 60, 75, 90, 100, 120, 135, 150, 170))]
    return out


def run(h, kind, deg=0):
    geom = h.mod('geom')
    V = geom.Vect
    if kind == 'round':
        d = h.choice('digits', [0, 2, 5])
        w = h.choice('coordinate', [0, 1, 2])
        p = [h.real('v', -9, 9) if c == w else [1.234567, -7.6543212, 0.5][c] for c in range(3)]
        v = V(*p)
        q = v.rounded_coords_tuple(d)
        h.check(tuple(v[c] for c in range(3)) == tuple(p), 'rounded')
        v.round_vect(d)
        u = 0.5000001 * 10.0 ** -d
        for c in range(3):
            h.check(h.both(v[c] - p[c] <= u, p[c] - v[c] <= u, q[c] == v[c]), 'rounded')
            k = v[c] * 10 ** d
            h.check(abs(k - round(k)) <= 1e-6, 'rounded')
        return
    if kind == 'same':
        # the same corners in any order; one of them moved; another triangle with the same centre
        p = [[1.0, 2.0, -1.0], [3.0, 4.0, 0.0], [h.real('x', -9, 9), 0.5, h.real('z', 2, 3)]]
        k, turn, back = h.choice('how', ['copy', 'moved', 'centre']), h.choice('turn', [0, 1, 2]), h.choice('back', [False, True])
        q = [list(c) for c in p]
        if k != 'copy':
            i, j, c = h.choice('corner', [0, 1, 2]), h.choice('other', [1, 2]), h.choice('coordinate', [0, 1, 2])
            d = h.real('d', -2, 2)
            h.assume(h.any(d >= 1e-6, d <= -1e-6))
            q[i][c] = q[i][c] + d
            if k == 'centre':
                e = h.choice('shares', [False, True])
                q[(i + j) % 3][c] = q[(i + j) % 3][c] - d if e else q[(i + j) % 3][c] - 3 * d
                if not e:
                    q[(i + 3 - j) % 3][c] = q[(i + 3 - j) % 3][c] + 2 * d
            # moved corners do not fall on others
            far = lambda a, b: h.any(*[h.any(a[t] - b[t] >= 1e-6, b[t] - a[t] >= 1e-6) for t in range(3)])
            h.assume(h.both(*[far(a, b) for n, a in enumerate(q) for m, b in enumerate(p) if n != m]))
        q = q[turn:] + q[:turn]
        if back:
            q = q[::-1]
        A, B = geom.Triangle(*[V(*c) for c in p]), geom.Triangle(*[V(*c) for c in q])
        r = A == B
        same = k == 'copy'
        h.check(bool(r) == same, 'same')
        h.check(bool(B == A) == same, 'same')
        return
    if kind == 'right':
        # a corner of exactly the limit is not smaller than it
        a, b = h.choice('a', [1, 2, 3]), h.choice('b', [1, 2, 3])
        p = [V(0.0, 0.0, 0.0), V(a * 1.0, 0.0, 0.0), V(0.0, 0.0, b * 1.0)]
        k = h.choice('turn', [0, 1, 2])
        T = geom.Triangle(*(p[k:] + p[:k]))
        h.check(not T.all_corners_smaller(90), 'angles')
        h.check(bool(T.all_corners_smaller(90.5)), 'angles')
        return
    if kind == 'segment':
        i = h.choice('which', [0, 1, 2])
        a, b = [((0.0, 0.0, 0.0), (3.0, 4.0, 0.0)), ((1.0, 2.0, -1.0), (3.0, 4.0, 0.0)), ((-2.0, 1.0, 5.0), (0.0, 1.0, 5.0))][i]
        n = [(-4.0, 3.0, 0.0), (1.0, -1.0, 0.0), (0.0, 0.6, 0.8)][i]
        s, t = h.real('s', -1, 2), h.real('t', -1, 1)
        on = h.choice('on', [True, False])
        if on:
            h.assume(t == 0)
            t = 0.0
        p = V(*[x + (y - x) * s + m * t for x, y, m in zip(a, b, n)])
        r = V.point_on_vector(V(*a), V(*b), p)
        if on and h.is_true(h.both(s >= 0, s <= 1)):
            h.check(r, 'on segment')
        else:
            h.assume(h.any(s <= -1e-5, s >= 1 + 1e-5, t >= 2e-4, t <= -2e-4))
            h.check(h.neg(r) if not isinstance(r, bool) else not r, 'off segment')
        return
    if kind == 'plane':
        a, b, c = [V(*p) for p in PTS[:3]]
        x, y, z = h.real('x', -3, 3), h.real('y', -3, 3), h.choice('z', [0.0, 0.25, -3.0])
        A, B, C = PTS[:3]
        N = [(B[1] - A[1]) * (C[2] - A[2]) - (B[2] - A[2]) * (C[1] - A[1]), (B[2] - A[2]) * (C[0] - A[0]) - (B[0] - A[0]) * (C[2] - A[2]), (B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0])]
        u = lambda s, t, w: V(*[A[k] + (B[k] - A[k]) * s + (C[k] - A[k]) * t + N[k] * w for k in range(3)])
        off = h.choice('corner', [0, 1, 2])
        ps = [(x, y), (0.25, -1.0), (2.0, 0.5)]
        T = geom.Triangle(*[u(s, t, z if k == off else 0.0) for k, (s, t) in enumerate(ps)])
        r = geom.Triangle(a, b, c).in_one_plane(T)
        h.check(bool(r) == (z == 0.0), 'plane' if z == 0.0 else 'off plane')
        return
    # corners of a triangle: any shape up to moving and scaling
    if kind == 'sides':
        x, y, w = h.real('x', -3, 4), h.real('y', 0.05, 4), h.choice('place', [0, 1, 2])
    else:
        # along several lines in the plane
        w = 0
        i = h.choice('line', [0, 1, 2, 3, 4, 5])
        x, y = (h.real('x', -3, 4), [0.1, 0.75, 2.0][i]) if i < 3 else ([-1.0, 0.5, 1.25][i - 3], h.real('y', 0.05, 4))
    base = [((0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)), ((2.0, 1.0, 0.5), (0.0, 2.0, 0.0), (0.0, 0.0, 2.0)), ((-1.0, 4.0, 2.0), (0.6, 0.0, 0.8), (-0.8, 0.0, 0.6))][w]
    o, e, f = base
    L = [1.0, 2.0, 1.0][w]
    at = lambda s, t: V(*[o[k] + e[k] * s + f[k] * t for k in range(3)])
    k = h.choice('turn', [0, 1, 2])
    p = [(0.0, 0.0), (1.0, 0.0), (x, y)]
    p = p[k:] + p[:k]
    T = geom.Triangle(*[at(*q) for q in p])
    side2 = [((q[0] - r[0]) * (q[0] - r[0]) + (q[1] - r[1]) * (q[1] - r[1])) * L * L for q, r in ((p[0], p[1]), (p[1], p[2]), (p[2], p[0]))]
    area = y * 0.5 * L * L
    near = lambda a, b: h.both(a - b <= 1e-6, b - a <= 1e-6)
    if kind == 'sides':
        m = T.min_side()
        h.check(h.both(m >= 0, *[m * m <= s + 1e-6 for s in side2]), 'side')
        h.check(h.any(*[near(m * m, s) for s in side2]), 'side')
        h.check(near(T.area(), area), 'area')
        c = T.centroid()
        g = at((1 + x) * (1 / 3.0), y * (1 / 3.0))
        h.check(h.both(*[near(c[j], g[j]) for j in range(3)]), 'centre')
        n = T.normal_orth()
        N = [(e[1] * f[2] - e[2] * f[1]) / L / L, (e[2] * f[0] - e[0] * f[2]) / L / L, (e[0] * f[1] - e[1] * f[0]) / L / L]
        h.check(h.both(*[near(n[j], N[j]) for j in range(3)]), 'normal')
        return
    if kind == 'quality':
        q = T.is_good()
        h.check(q >= 0, 'quality')
        s = sum(side2)
        d = q * q * area - s * s
        h.check(h.both(d <= 1e-5 * (1 + s * s), d >= -1e-5 * (1 + s * s)), 'quality')
        v = V.angle_cos(at(*p[1]) - at(*p[0]), at(*p[2]) - at(*p[0]))
        a, b, c = side2[0], side2[2], side2[1]
        # law of cosines
        d = v * v * (4 * a * b) - (a + b - c) * (a + b - c)
        h.check(h.both(d <= 1e-5 * (1 + a * b), d >= -1e-5 * (1 + a * b), h.any(v * (a + b - c) >= -1e-9)), 'cosine')
        return
    k = math.cos(math.radians(deg))
    big = []
    for i in range(3):
        a, b, c = side2[i], side2[i - 1], side2[i - 2]
        # an angle is below the limit when its cosine is above that of the limit: (a + b - c) / (2 * sqrt(a * b)) > k
        d = a + b - c
        s2 = 4 * a * b * (k * k)
        up = h.both(d >= 0, d * d >= s2 * 1.0002 + 1e-6) if k >= 0 else h.any(d >= 0, d * d <= s2 * 0.9998 - 1e-6)
        lo = h.any(d <= -1e-3, d * d <= s2 * 0.9998 - 1e-6) if k > 0 else h.both(d <= -1e-3, d * d >= s2 * 1.0002 + 1e-6)
        h.assume(h.any(up, lo))
        big.append(up)
    r = T.all_corners_smaller(deg)
    h.check(h.iff(r, h.both(*big)), 'angles')
