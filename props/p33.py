"""The air read from a file."""
from symx import mesh

PROPERTY = 'P33'
MODULES = ('utils', 'drops')
BOUNDS = ('files of 1-4 zones in any order: air (bricks) of 1-4 nodes and 0-2 elements, others of 1-3 nodes; all numbers symbolic')
OUTSIDE = 'malformed files; more points'
ASSUMPTIONS = ['the header of a zone has the words the reader expects at their places']
STUBS = ['text of a float is a lossless token']
LABELS = ['count', 'points', 'box', 'nearest']


def cases(tier):
    out = [('a2', dict(zones=[('a', 2, 1)])), ('o+a', dict(zones=[('o', 3, 1), ('a', 2, 1)])), ('a+o+a', dict(zones=[('a', 1, 0), ('o', 2, 2), ('a', 1, 2)]))]
    if tier == 'thorough':
        out += [('a4', dict(zones=[('a', 4, 2)])), ('a+a+o', dict(zones=[('a', 2, 1), ('a', 1, 1), ('o', 3, 1)])), ('o+o+a+o', dict(zones=[('o', 1, 0), ('o', 1, 1), ('a', 3, 1), ('o', 2, 1)]))]
    return out


def run(h, zones):
    drops = h.mod('drops')
    V = h.mod('geom').Vect
    L = ['TITLE="air"', 'VARIABLES="X", "Y", "Z", "a", "b", "VX", "VY", "VZ", "c"']
    want = []
    for i, (k, n, e) in enumerate(zones):
        if k == 'a':
            L.append('ZONE ET=FEBRICK T a DATA Nodes %d Elements is %d F' % (n, e))
            for j in range(n):
                row = [h.real('n%d_%d_%d' % (i, j, c), -9, 9) if c in (0, 1, 2, 5, 6, 7) else h.const(50.0 + c) for c in range(9)]
                want.append((row[:3], row[5:8]))
                L.append(' '.join(h.txt(x) for x in row))
            L += ['1 2 3 4 5 6 7 8'] * e
        else:
            L.append('ZONE ET=FETRIANGLE T a Nodes %d Elements is %d F' % (n, e))
            L += ['7.0 7.0 7.0 7.0 7.0 7.0 7.0 7.0 7.0'] * n + ['1 2 3'] * e
    sp = drops.read_vel_field_from_file(mesh.write(h, 'air.dat', '\n'.join(L) + '\n'))
    h.check(len(sp.Ds) == len(want), 'count')
    for (p, v), (wp, wv) in zip(sp.Ds, want):
        h.check(h.both(*[p[c] == wp[c] for c in range(3)] + [v[c] == wv[c] for c in range(3)]), 'points')
    t = h.real('t', -9, 9)
    q = [t, 0.5, 1.0]
    h.check(h.iff(sp.inside(V(*q)), h.both(*[h.both(h.any(*[w[c] <= q[c] for w, _ in want]), h.any(*[w[c] >= q[c] for w, _ in want])) for c in range(3)])), 'box')
    if len(want) <= 2:
        r = sp.find_nearest(V(*q))
        d = lambda w: sum([(w[c] - q[c]) * (w[c] - q[c]) for c in range(3)])
        k = [i for i in range(len(want)) if r is sp.Ds[i]]
        h.check(len(k) == 1, 'nearest')
        for w, _ in want:
            h.le(d(want[k[0]][0]), d(w), 'nearest', tol=1e-9)
