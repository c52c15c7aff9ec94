"""A cloud of triangles finds what a search through all of them finds."""
from symx import mesh

PROPERTY = 'P22'
BOUNDS = ('clouds of 1-5 triangles of fixed shapes, one of them moved by a symbolic distance; segments of fixed directions from any symbolic point; '
          'two clouds of 1-3 triangles, the second moved by a symbolic vector; a folded sheet of 18 triangles (with one more beside it, first or last) and a steep segment at a symbolic place, one of 8 and a fin at a symbolic place')
OUTSIDE = 'larger clouds; triangles whose boxes are within 1e-6 of touching (intersections of coplanar triangles have a tolerance of 1e-10)'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['segment', 'returned', 'kept', 'clouds', 'points']
OPT = {'loose': True}

T = [((0, 0, 0), (2, 0, 1), (0, 2, 0)), ((3, 0, 0), (5, 0, 0), (3, 2, 2)), ((0, 3, 1), (2, 3, 0), (0, 5, 0)),
     ((0, 0, 4), (2, 0, 5), (0, 2, 4)), ((6, 6, 0), (8, 6, 1), (6, 8, 1))]
DIRS = [(0.5, 0.25, -8.0), (9.0, 1.0, 0.5), (-0.25, -7.0, 1.0)]


def cases(tier):
    out = [('seg/%d' % n, dict(k='seg', n=n, dirs=2)) for n in (1, 2, 3)]
    out += [('clouds/1x1', dict(k='clouds', n=1, m=1)), ('clouds/2x1', dict(k='clouds', n=2, m=1, dim=2))]
    out += [('sheet/seg', dict(k='sheet', n=18))]
    # a triangle of its own beside the sheet, first or last in the list
    out += [('sheet/seg/lone/%s' % w, dict(k='sheet', n=18, dirs=w)) for w in ('first', 'last')]
    if tier == 'thorough':
        out += [('sheet/clouds', dict(k='sheets', n=8))]
        out += [('seg/4', dict(k='seg', n=4, dirs=3)), ('seg/5', dict(k='seg', n=5, dirs=2)), ('clouds/2x2', dict(k='clouds', n=2, m=2, dim=2)),
                ('clouds/3x2', dict(k='clouds', n=3, m=2, dim=1))]
    return out


def run(h, k, n, dirs=2, m=1, dim=3):
    geom = h.mod('geom')
    V = geom.Vect
    mk = lambda t, d: geom.Triangle(*[V(*[float(v[i]) + d[i] for i in range(3)]) for v in t])
    if k in ('sheet', 'sheets'):
        return sheet(h, geom, n, k, dirs)
    if k == 'seg':
        move = h.real('move', -3, 3)
        ts = [mk(t, [move if i == 0 else 0.0, 0.0, 0.0]) for i, t in enumerate(T[:n])]
        p = V(*[h.real('p%s' % c, -9, 9) for c in 'xyz'])
        d = h.choice('dir', DIRS[:dirs])
        s = geom.Segment(p, p + V(*d))
        want = [t for t in ts if t.intersection_with_segment(s) != []]
        cloud = geom.TrianglesCloud(list(ts))
        got = cloud.first_intersection_with_segment(s)
        h.check((got is None) == (want == []), 'segment')
        if got is not None:
            h.check(any(got is t for t in want), 'returned')
        seen = []

        def walk(c):
            h.check((c.Triangles == []) != (c.Subclouds == []), 'kept')
            seen.extend(c.Triangles)
            for x in c.Subclouds:
                walk(x)
        walk(cloud)
        h.check(len(seen) == n and all(sum(1 for x in seen if x is t) == 1 for t in ts), 'kept')
        return
    d = [h.real('d%s' % c, -9, 9) for c in 'xyz'[:dim]] + [0.5, 1.0][:3 - dim]
    A = [mk(t, (0.0, 0.0, 0.0)) for t in T[:n]]
    B = [mk(t[::-1], [d[0] + 0.5, d[1] - 0.5, d[2]]) for t in T[1:1 + m]]
    for a in A:
        for b in B:
            for v in 'XYZ':
                pa, pb = [[getattr(q, v) for q in t.Points] for t in (a, b)]
                # boxes closer than the tolerance of the intersection of coplanar triangles are outside
                h.assume(h.both(abs(max(pa) - min(pb)) >= 1e-6, abs(max(pb) - min(pa)) >= 1e-6))
    want = []
    for a in A:
        for b in B:
            r = a.intersection_with_triangle(b)
            if r != []:
                want += [(id(a), r), (id(b), r)]
    got = geom.TrianglesCloud(list(A)).intersection_with_triangles_cloud(geom.TrianglesCloud(list(B)))
    key = lambda r: [i for i, t in enumerate(A + B) if id(t) == r[0]][0]
    got = [(id(t), r) for t, r in got]
    h.check(sorted(map(key, got)) == sorted(map(key, want)), 'clouds')
    for t, r in got:
        # the same points, in pairs
        c = [w for w in want if w[0] == t]
        h.check(any(len(w[1]) == len(r) and all(h.is_true(h.both(*[x[i] == y[i] for i in range(3)])) for x, y in zip(r, w[1])) for w in c), 'points')


def tree(h, cloud, ts):
    """Each triangle exactly once."""
    seen = []

    def walk(c):
        h.check((c.Triangles == []) != (c.Subclouds == []), 'kept')
        seen.extend(c.Triangles)
        for x in c.Subclouds:
            walk(x)
    walk(cloud)
    h.check(len(seen) == len(ts) and all(sum(1 for x in seen if x is t) == 1 for t in ts), 'kept')


def sheet(h, geom, n, k, lone):
    """A folded sheet of many triangles: a segment that goes up through a place of it (or beside it), and a second sheet across."""
    V = geom.Vect
    nx = n // 6 if k == 'sheet' else n // 4
    ny = 3 if k == 'sheet' else 2
    nn, faces = mesh.sheet(nx, ny)
    P = [V(x, y, 0.25 * ((int(x) + 2 * int(y)) % 3)) for x, y, z in mesh.sheet_pts(nx, ny)]
    ts = [geom.Triangle(*[P[i] for i in f]) for f in faces]
    if lone in ('first', 'last'):
        t = geom.Triangle(V(nx + 1.0, -0.5, 0.5), V(nx + 3.0, -0.5, 0.625), V(nx + 1.0, 5.0, 0.5))
        ts = [t] + ts if lone == 'first' else ts + [t]
    cloud = geom.TrianglesCloud(list(ts))
    tree(h, cloud, ts)
    if k == 'sheet':
        x, y = h.real('x', -1, nx + (4 if len(ts) > n else 1)), h.choice('y', [0.3, 1.45, 2.9, 3.5])
        h.assume(h.both(*[abs(x - i) >= 1e-6 for i in range(nx + 4)]))
        s = geom.Segment(V(x, y, -1.0), V(x + 0.125, y + 0.0625, h.choice('top', [2.0, 0.25])))
        want = [t for t in ts if t.intersection_with_segment(s) != []]
        got = cloud.first_intersection_with_segment(s)
        h.check((got is None) == (want == []), 'segment')
        if got is not None:
            h.check(any(got is t for t in want), 'returned')
        return
    # fins that stand across the sheet
    x = h.real('x', -1, nx + 1)
    h.assume(h.both(*[abs(x + d - i) >= 1e-3 for i in range(nx + 1) for d in (0, 0.25)]))
    fins = [geom.Triangle(V(x, 0.3 + j, -1.0), V(x + 0.25, 0.6 + j, -1.0), V(x + 0.125, 0.4 + j, 2.0)) for j in range(1)]
    want = [{i, n + j} for i, a in enumerate(ts) for j, b in enumerate(fins) if a.intersection_with_triangle(b) != []]
    got = cloud.intersection_with_triangles_cloud(geom.TrianglesCloud(list(fins)))
    num = {id(t): i for i, t in enumerate(ts + fins)}
    ids = [num[id(t)] for t, r in got]
    h.check(sorted(ids) == sorted(sum(map(sorted, want), [])), 'clouds')
