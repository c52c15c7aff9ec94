"""Data of the nearest face are carried to another grid."""
import os
from symx import mesh

PROPERTY = 'P46'
MODULES = ('utils', 'interpolate')
BOUNDS = ('source grids of 1-4 faces and target grids of 1-2 faces, targets of the size of the source or 512 times smaller, moved along a line or in a plane by symbolic distances, or in one of nine places; all data symbolic; both programs '
          '(temperature and water, collection efficiency)')
OUTSIDE = 'centres whose squared distances differ by less than 1e-3; larger grids'
ASSUMPTIONS = ['exact-real arithmetic', 'scipy.spatial.KDTree returns the nearest point']
STUBS = ['KDTree: comparison of all distances', 'text of a float is a lossless token']
LABELS = ['nearest', 'kept', 'mesh', 'source']
OPT = {'loose': True, 'canon': True}
SRC = [[(0.0, 0.0, 0.0), (3.0, 0.0, 0.0), (0.0, 3.0, 0.0)], [(10.0, 1.0, 0.0), (13.0, 0.0, 1.0), (10.0, 4.0, 2.0)], [(0.0, 10.0, 5.0), (3.0, 10.0, 4.0), (1.0, 13.0, 5.0)], [(5.0, 5.0, 9.0), (8.0, 5.0, 8.0), (5.0, 8.0, 7.0)]]


def cases(tier):
    out = [('t/1', dict(prog='t', ns=2, nt=1)), ('t/2', dict(prog='t', ns=3, nt=2)), ('script', dict(prog='script', ns=3, nt=1)), ('beta', dict(prog='beta', ns=3, nt=1))]
    if tier == 'thorough':
        out += [('t/4', dict(prog='t', ns=4, nt=2)), ('script/4', dict(prog='script', ns=4, nt=2)), ('beta/2', dict(prog='beta', ns=4, nt=2))]
    return out


def run(h, prog, ns, nt):
    gsu = h.mod('gsu')
    V = ['T', 'Hw', 'Hi', 'Beta']
    sd = {v: [h.real('%s%d' % (v, i), -99, 99) for i in range(ns)] for v in V}
    td = {v: [h.real('t%s%d' % (v, i), -99, 99) for i in range(nt)] for v in V}
    sp, tp, cs, ct = [], [], [], []
    for i in range(ns):
        sp += SRC[i]
        cs.append([sum(p[c] for p in SRC[i]) / 3.0 for c in range(3)])
    # faces of the target may be much smaller than those of the source
    sc = h.choice('scale', [1.0, 1 / 512]) if prog == 't' else 1.0
    for i in range(nt):
        t = h.real('m%d' % i, -99, 99)
        base = [(4.0 + 6 * i, 4.0, 1.0), (7.0 + 6 * i, 4.5, 1.5), (4.0 + 6 * i, 7.0, 2.0)]
        u = h.real('u%d' % i, -20, 20) if prog == 't' and i == 0 else 0.0
        base = [(sc * x + t, sc * y + 0.5 * t + u, sc * z - 0.25 * t) for x, y, z in base]
        if prog != 't':
            # coordinates of a file: any of several places
            k, w = h.choice('place%d' % i, [(-10.5, 0.0), (-3.25, 0.0), (0.0, 0.0), (4.75, 0.0), (12.0, 0.0), (0.5, -1.0), (11.0, 10.0), (-9.5, 6.0), (1.0, 1.0)])
            h.assume(t == k)
            base = [(4.0 + 6 * i + k, 4.0 + 0.5 * k + w, 1.0 - 0.25 * k), (7.0 + 6 * i + k, 4.5 + 0.5 * k + w, 1.5 - 0.25 * k), (4.0 + 6 * i + k, 7.0 + 0.5 * k + w, 2.0 - 0.25 * k)]
        tp += base
        ct.append([(base[0][c] + base[1][c] + base[2][c]) * (1 / 3.0) for c in range(3)])
    ss = mesh.Spec(sp, [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(ns)], None, None, V, sd)
    ts = mesh.Spec(tp if prog != 't' else mesh.PTS[:3 * nt], [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(nt)], None, None, V, td)
    sf, tf = mesh.write(h, 's.dat', ss.text(h)), mesh.write(h, 't.dat', ts.text(h))
    keys = ['Beta'] if prog == 'beta' else ['T', 'Hw']
    if prog == 't':
        S, g = gsu.Grid(), gsu.Grid()
        S.load(sf)
        g.load(tf)
        W = h.mod('geom').Vect
        for f, i in zip(g.Faces, range(nt)):
            for j, n in enumerate(f.Nodes):
                n.P = W(*tp[3 * i + j])
        h.mod('interpolate').face_centered_interpolation(S, g)
        for v in V:
            h.check(h.both(*[f[v] == x for f, x in zip(S.Faces, sd[v])]), 'source')
    else:
        if prog == 'script':
            named = h.choice('named', [True, False])
            rc = h.script('convert/interpolate.py', sf, tf, *(['-res', h.tmp('o.dat')] if named else []))
            out = 'o.dat' if named else 't_interpolated.dat'
        else:
            rc = h.script('convert/lazurit_add_beta_from_ansys.py', tf, sf, h.tmp('o.dat'))
            out = 'o.dat'
        h.check(not rc and open(sf).read() == ss.text(h) and open(tf).read() == ts.text(h), 'source')
        g = gsu.Grid()
        g.load(h.tmp(out))
        h.check([tuple(n.P[c] for c in range(3)) for f in g.Faces for n in f.Nodes] == tp, 'mesh')
    h.check(len(g.Faces) == nt and all(sorted(f.Data) == sorted(V) for f in g.Faces), 'mesh')
    for i, f in enumerate(g.Faces):
        d = [sum([(a - b) * (a - b) for a, b in zip(ct[i], c)]) for c in cs]
        for a in range(ns):
            for b in range(a):
                h.assume(h.any(d[a] - d[b] >= 1e-3, d[b] - d[a] >= 1e-3))
        k = [a for a in range(ns) if all(h.is_true(d[a] < d[b]) for b in range(ns) if b != a)][0]
        for v in V:
            if v in keys:
                h.check(f[v] == sd[v][k], 'nearest')
            else:
                h.check(f[v] == td[v][i], 'kept')
