"""Where a point of the plane lies in a triangle."""
PROPERTY = 'P23'
BOUNDS = ('triangles of 7 fixed shapes (0.5 mm to 4 km) in the axis planes, any symbolic point of the plane that is inside, on a side, on a corner, or outside by at least a millionth; '
          'points above the plane by at least 1e-2 at symbolic places')
OUTSIDE = 'points closer to a side than a millionth of the triangle but not on it; tilted triangles'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['inside', 'side', 'corner', 'outside', 'above', 'plane']
OPT = {'loose': True, 'relaxed_round': True, 'inc_ms': 4000, 'query_ms': 60000, 'solvers': ('default', 'qfnra')}
PLANE = {'xy': (0, 1), 'yz': (1, 2), 'xz': (0, 2)}
FLAT = {'a': ((0, 0), (4, 0), (0, 3)), 'b': ((1, -1), (3, 4), (-2, 1)), 'c': ((0, 0), (8, 1), (-3, 2)), 'd': ((1, -1), (1, 3), (-5, -1)),
        'small': ((0, 0), (0.004, 0), (0, 0.003)), 'tiny': ((0.001, -0.0005), (0.0015, 0.0005), (0.0005, 0.00025)), 'large': ((0, 0), (4000, 500), (-100, 3000))}


def cases(tier):
    fl = [('xy', 'a'), ('yz', 'b'), ('xz', 'c'), ('xy', 'small'), ('yz', 'tiny'), ('xz', 'large')] if tier == 'quick' else [(p, t) for p in PLANE for t in FLAT]
    ab = [('xy', 'a'), ('yz', 'd'), ('xz', 'a')] if tier == 'quick' else [(p, t) for p in PLANE for t in 'ad']
    return [('%s/%s' % f, dict(p=f[0], t=f[1], k='in')) for f in fl] + [('above/%s/%s' % f, dict(p=f[0], t=f[1], k='above')) for f in ab]


def run(h, p, t, k):
    geom = h.mod('geom')
    V = geom.Vect
    i, j = PLANE[p]

    def pt(u, v, w=1.0):
        x = [w] * 3
        x[i], x[j] = u, v
        return V(*x)
    F = [(float(u), float(v)) for u, v in FLAT[t]]
    tri = geom.Triangle(*[pt(u, v) for u, v in F])
    (ax, ay), (bx, by), (cx, cy) = F
    if k == 'above':
        x = h.choice('u', [ax, (ax + bx) / 2, (ax + bx + 2 * cx) / 4, bx]), h.choice('v', [ay, (ay + by) / 2, (ay + by + 2 * cy) / 4])
        w = h.real('w', -50, 50)
        h.assume(w >= 1.01 if h.choice('side', ['over', 'under']) == 'over' else w <= 0.99)
        h.check(h.neg(tri.point_in_one_plane(pt(x[0], x[1], w))), 'plane')
        h.check(tri.point_in_triangle(pt(x[0], x[1], w)) == 0, 'above')
        return
    kind = h.choice('kind', ['inside', 'side', 'corner', 'outside'])
    m = 1e-6
    if kind == 'corner':
        c = int(h.int('corner', 0, 2))
        r = tri.point_in_triangle(pt(*F[c]))
        h.check(r == 1, 'corner')
        return
    if kind == 'side':
        c = int(h.int('side', 0, 2))
        s = h.real('s', 0.01, 0.99)
        (ux, uy), (vx, vy) = F[c], F[(c + 1) % 3]
        r = tri.point_in_triangle(pt(ux + (vx - ux) * s, uy + (vy - uy) * s))
        h.check(r == 2, 'side')
        return
    al, be = h.real('alfa', -3, 4), h.real('beta', -3, 4)
    lam = [al, be, 1 - al - be]
    if kind == 'inside':
        h.assume(h.both(*[v >= m for v in lam]))
    else:
        h.assume(h.any(*[v <= -m for v in lam]))
    q = pt(ax + (bx - ax) * al + (cx - ax) * be, ay + (by - ay) * al + (cy - ay) * be)
    h.check(tri.point_in_one_plane(q), 'plane')
    r = tri.point_in_triangle(q)
    h.check(r == (3 if kind == 'inside' else 0), kind)
