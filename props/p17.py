"""Vector algebra."""
PROPERTY = 'P17'
BOUNDS = 'all vectors with real coordinates in [-100, 100], all factors in that range (division: factor not 0)'
OUTSIDE = 'vectors shorter than 1e-13 have no direction; rounding of floats (exact-real arithmetic); larger magnitudes; angles'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['sum', 'scale', 'dot', 'cross', 'length', 'orth', 'triangle', 'pure', 'access', 'middle', 'cosine']


def cases(tier):
    return [(k, dict(k=k)) for k in ('linear', 'products', 'length', 'orth', 'triangle', 'access', 'tiny')]


def vec(h, n):
    geom = h.mod('geom')
    c = [h.real('%s%s' % (n, x), -100, 100) for x in 'xyz']
    return geom.Vect(*c), c


def eq(h, v, c, label):
    for i in range(3):
        h.close(v[i], c[i], label)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def run(h, k):
    geom = h.mod('geom')
    V = geom.Vect
    a, A = vec(h, 'a')
    b, B = vec(h, 'b')
    s = h.real('s', -100, 100)
    if k == 'linear':
        eq(h, a + b, [x + y for x, y in zip(A, B)], 'sum')
        eq(h, a - b, [x - y for x, y in zip(A, B)], 'sum')
        eq(h, a * s, [x * s for x in A], 'scale')
        eq(h, s * a, [x * s for x in A], 'scale')
        eq(h, V.middle_point(a, b), [(x + y) / 2 for x, y in zip(A, B)], 'middle')
        h.assume(abs(s) >= 0.01)
        eq(h, a / s, [x / s for x in A], 'scale')
        c = a
        c += b
        eq(h, c, [x + y for x, y in zip(A, B)], 'sum')
        eq(h, a, A, 'pure')
    elif k == 'products':
        h.close(V.dot_product(a, b), dot(A, B), 'dot')
        h.close(V.dot_product(a, b), V.dot_product(b, a), 'dot')
        eq(h, V.cross_product(a, b), cross(A, B), 'cross')
        h.close(V.dot_product(V.cross_product(a, b), a), 0, 'cross')
        h.close(V.dot_product(V.cross_product(a, b), b), 0, 'cross')
        h.close(a.mod2(), dot(A, A), 'length')
    elif k == 'length':
        L = a.mod()
        h.le(0, L, 'length')
        h.close(L * L, dot(A, A), 'length')
        d = a.dist_to(b)
        D = [x - y for x, y in zip(A, B)]
        h.close(d * d, dot(D, D), 'length')
        h.le(0, d, 'length')
        e = h.real('eps', 0.01, 10)
        h.assume(abs(d - e) >= 0.001)
        h.check(h.iff(a.is_near(b, e), dot(D, D) < e * e), 'length')
        h.assume(L >= 0.01)
        h.assume(b.mod() >= 0.01)
        h.close(V.angle_cos(a, b) * (L * b.mod()), dot(A, B), 'cosine')
    elif k == 'tiny':
        # directions do not depend on the size
        u, w = [2.0, 1.0, -2.0], [h.choice('w%s' % x, [-3.0, 0.0, 4.0]) for x in 'xyz']
        h.assume(dot(w, w) > 0)
        e = 2.0 ** -h.choice('e', [20, 36])
        f = h.real('f', 0.25, 8)
        p, q = V(*[x * e * f for x in u]), V(*[x * e for x in w])
        near = lambda x, y: h.both(x - y <= 1e-6, y - x <= 1e-6)
        h.check(near(V.angle_cos(p, q) * (3.0 * dot(w, w) ** 0.5), dot(u, w)), 'cosine')
        o = p.orth()
        h.check(h.both(*[near(o[i], u[i] / 3.0) for i in range(3)]), 'orth')
        h.check(near(p.dist_to(V(0.0, 0.0, 0.0)) / e, 3.0 * f), 'length')
    elif k == 'orth':
        L = a.mod()
        h.assume(L >= 1e-13)
        o = a.orth()
        eq(h, o * L, A, 'orth')
        h.close(dot(o, o), 1, 'orth')
    elif k == 'triangle':
        # a triangle in any position, with one side along a fixed direction to keep the square roots few
        t = geom.Triangle(a, b, a + V(s, 0.0, 0.0))
        u, v = [x - y for x, y in zip(B, A)], [s, 0, 0]
        n = cross(u, v)
        ar = t.area()
        h.le(0, ar, 'triangle')
        h.close(4 * ar * ar, dot(n, n), 'triangle')
        c = t.centroid()
        for i in range(3):
            h.close(3 * c[i], 2 * A[i] + B[i] + v[i], 'triangle')
        h.assume(ar >= 0.01)
        o = t.normal_orth()
        eq(h, o * (2 * ar), n, 'triangle')
        m = t.min_side()
        for d in (dot(u, u), s * s, dot([x - y for x, y in zip(u, v)], [x - y for x, y in zip(u, v)])):
            h.le(m * m, d, 'triangle')
    else:
        h.check(h.both(a.X == A[0], a.Y == A[1], a.Z == A[2]), 'access')
        h.check(h.both(*[x == y for x, y in zip(a.coords_tuple(), A)]), 'access')
        h.check(h.both(*[x == y for x, y in zip(a.coords_list(), A)]), 'access')
        h.check(h.both(*[x == y for x, y in zip(V.from_iterable(tuple(B)), B)]), 'access')
        a[1] = s
        a.Z = B[0]
        h.check(h.both(a.X == A[0], a.Y == s, a.Z == B[0]), 'access')
        h.check(h.both(*[b[i] == B[i] for i in range(3)]), 'access')
        z = V()
        z[0] = s
        h.check(h.both(V()[0] == 0, V()[1] == 0, V()[2] == 0), 'access')
