"""Boxes."""
PROPERTY = 'P19'
BOUNDS = 'boxes of 1-4 points and of 1-2 triangles, segments and other boxes, all with symbolic coordinates in [-100, 100]'
OUTSIDE = 'more points'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['bounds', 'inside', 'segment', 'boxes', 'triangles']


def cases(tier):
    out = [('points2', dict(k='points', n=2)), ('points3', dict(k='points', n=3)), ('segment', dict(k='segment', n=2)),
           ('boxes', dict(k='boxes', n=2)), ('tri1', dict(k='tri', n=1))]
    if tier == 'thorough':
        out += [('points4', dict(k='points', n=4)), ('tri2', dict(k='tri', n=2))]
    return out


def pt(h, n):
    return h.mod('geom').Vect(*[h.real('%s%s' % (n, c), -100, 100) for c in 'xyz'])


LO, HI = ('MinX', 'MinY', 'MinZ'), ('MaxX', 'MaxY', 'MaxZ')


def bounds(h, box, ps, label):
    for c in range(3):
        lo, hi = getattr(box, LO[c]), getattr(box, HI[c])
        h.check(h.both(*[h.both(lo <= p[c], p[c] <= hi) for p in ps]), label)
        h.check(h.any(*[lo == p[c] for p in ps]), label)
        h.check(h.any(*[hi == p[c] for p in ps]), label)


def fixed_box(h, name):
    """A box with symbolic bounds, of two opposite corners."""
    lo = [h.real('%sl%d' % (name, i), -100, 100) for i in range(3)]
    hi = [h.real('%sh%d' % (name, i), -100, 100) for i in range(3)]
    h.assume(h.both(*[a <= b for a, b in zip(lo, hi)]))
    V = h.mod('geom').Vect
    return lo, hi, h.mod('geom').Box([V(*lo), V(*hi)])


def run(h, k, n):
    geom = h.mod('geom')
    if k == 'points':
        ps = [pt(h, 'p%d' % i) for i in range(n)]
        # one coordinate at a time keeps the paths few: the others follow by symmetry of the assertion
        ax = h.choice('axis', [0, 1, 2])
        for p in ps:
            for c in range(3):
                if c != ax:
                    p[c] = 1.0
        b = geom.Box.from_points(ps) if n % 2 else geom.Box(ps)
        bounds(h, b, ps, 'bounds')
        for p in ps:
            h.check(b.is_point_inside(p), 'inside')
    elif k == 'tri':
        ax = h.choice('axis', [0, 1, 2])
        ts = []
        for i in range(n):
            ps = [pt(h, 't%d%s' % (i, x)) for x in 'abc']
            for p in ps:
                for c in range(3):
                    if c != ax:
                        p[c] = 0.0
            ts.append(geom.Triangle(*ps))
        bounds(h, geom.Box.from_triangles(ts), [p for t in ts for p in t.Points], 'triangles')
    elif k == 'segment':
        lo, hi, b = fixed_box(h, 'b')
        p, q = pt(h, 'p'), pt(h, 'q')
        t = h.real('t', 0, 1)
        x = [p[c] + (q[c] - p[c]) * t for c in range(3)]
        h.assume(h.both(*[h.both(l <= v, v <= u) for l, v, u in zip(lo, x, hi)]))
        h.check(b.is_intersect_with_segment(geom.Segment(p, q)), 'segment')
    else:
        lo, hi, b = fixed_box(h, 'b')
        lo2, hi2, b2 = fixed_box(h, 'd')
        meet = h.both(*[h.both(l <= u2, l2 <= u) for l, u, l2, u2 in zip(lo, hi, lo2, hi2)])
        r = h.is_true(b.is_potential_intersect_with_box(b2))
        h.check(h.iff(r, meet), 'boxes')
        h.check(h.iff(b2.is_potential_intersect_with_box(b), meet), 'boxes')
        x = pt(h, 'x')
        inb = h.both(*[h.both(l <= x[c], x[c] <= u) for c, l, u in zip(range(3), lo, hi)])
        h.check(h.iff(b.is_point_inside(x), inb), 'inside')
