"""Merging the results of the processes."""
import os
from symx import mesh

PROPERTY = 'P14'
MODULES = ('utils', 'merge')
BOUNDS = ('grids of 2-5 faces (12 faces and 11 processes in one case), 1-2 time stamps, 1-3 processes that own any (symbolic) faces, symbolic values, any one of the files may be missing; 1-3 csv files of 1-3 rows with symbolic values and times; '
          'the directory also holds files of other grids, other kinds and wrong names; it is listed in any (symbolic) rotation')
OUTSIDE = 'larger inputs'
ASSUMPTIONS = ['the files of one time stamp list each face at most once']
STUBS = ['text of a float with >= 17 significant digits is a lossless token', 'os.listdir returns a rotation of the real listing']
LABELS = ['files', 'values', 'mesh', 'csv', 'others']


def cases(tier):
    out = [('fan3/2x2', dict(topo='fan3', nt=2, np=2, nc=0)), ('strip3/ts', dict(topo='strip3', nt=1, np=2, nc=0, stamp=True)),
           ('sheet12', dict(topo='sheet12', nt=1, np=11, nc=0)), ('csv2', dict(topo='two', nt=1, np=1, nc=2)), ('csv3', dict(topo='two', nt=1, np=1, nc=3, rows=1)), ('csv2/3', dict(topo='two', nt=0, np=1, nc=2, rows=3)), ('csv1', dict(topo='two', nt=0, np=1, nc=1))]
    if tier == 'thorough':
        out += [('fan4/2x3', dict(topo='fan4', nt=2, np=3, nc=1)), ('strip4/2x2', dict(topo='strip4', nt=2, np=2, nc=3))]
    return out


def rd(h, t):
    if h.symbolic:
        from symx import core
        r = core.ENG.parse(t)
        return r if r is not None else float(t)
    return float(t)


def run(h, topo, nt, np, nc, rows=2, stamp=False):
    gsu = h.mod('gsu')
    merge = h.mod('merge')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, 1)) for i in range(1, min(nf, 3))] + [0] * max(0, nf - 3)
    order = [i for z in (0, 1) for i in range(nf) if zone_of[i] == z]
    names = ['T', 'Hw', 'Hi']
    spec = mesh.Spec(mesh.PTS[:nn], faces, zone_of, ['a', 'b'][:max(zone_of) + 1], names, {v: [float(i) for i in range(nf)] for v in names})
    src, dst = h.tmp('src'), h.tmp('out/merged')
    os.makedirs(src)
    gname = 'g_777777777777.dat' if stamp else 'g.dat'
    gfile = mesh.write(h, gname, spec.text(h))
    owner = [0] + [int(h.int('own%d' % i, 0, np - 1)) if nf < 9 or i == 7 else i % np for i in range(1, nf)]
    stamps = ['777777777777'] if stamp else ['000000000000', '000000000010'][:nt]
    val = {}
    # one of the files may be missing (a process that has not come to a time stamp, or has crashed)
    pairs = [(t, p) for t in stamps for p in range(np)]
    miss = int(h.int('miss', 0, len(pairs))) if len(pairs) > 1 else 0
    for t in stamps:
        for p in range(np):
            if miss and pairs[miss - 1] == (t, p):
                continue
            lines = ['VARIABLES="GloId", "T", "Hw", "Hi"']
            for i in reversed(range(nf)):
                if owner[i] == p:
                    val[t, i] = [h.real('%s_%s_%d' % (v, t[-2:], i), -99, 99) for v in names]
                    lines.append(' '.join([str(i)] + [h.txt(x) for x in val[t, i]]))
            mesh.write(h, 'src/g_%05d_%s.txt' % (p, t), '\n'.join(lines) + '\n')
    bad = 'VARIABLES="GloId", "T", "Hw", "Hi"\n0 1e3 1e3 1e3\n'
    for n in ('gg_00000_000000000001.txt', 'g_00000_00000000000x.txt', 'g_0000x_000000000001.txt', 'g_00000_000000000001.cry',
              'h_00000_000000000002.txt', 'report.txt', 'g_r_00000_000000000001.txt'):
        mesh.write(h, 'src/' + n, bad)
    cv = {}
    time = [h.real('time%d' % r, 0, 99) for r in range(rows)] if nc else []
    for c in range(nc):
        out = ['time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es']
        for r in range(rows):
            cv[c, r] = [h.real('c%d_%d_%d' % (c, r, j), -99, 99) if j in (0, 1, 8) else float(10 * c + r + j) for j in range(9)]
            out.append(';'.join([h.txt(time[r])] + [h.txt(x if not isinstance(x, float) or not h.symbolic else h.const(x)) for x in cv[c, r]]))
        mesh.write(h, 'src/m_%05d%s.csv' % (c, '.b' * (c % 2)), '\n'.join(out) + '\n')
    k = int(h.int('rot', 0, 2))
    listdir = os.listdir

    def rotated(*a):
        r = sorted(listdir(*a))
        return r[k * len(r) // 3:] + r[:k * len(r) // 3]
    os.listdir = rotated
    try:
        merge.merge(gfile, src, dst)
    finally:
        os.listdir = listdir
    want = sorted(['g_r_%s.dat' % t for t in stamps] + ['report.txt'])
    h.check(sorted(listdir(dst)) == want, 'files')
    h.check(sorted(listdir(h.tmp('out'))) == sorted(['merged'] + (['g.csv'] if nc else [])), 'others')
    for t in stamps:
        g = gsu.Grid()
        g.load(os.path.join(dst, 'g_r_%s.dat' % t))
        h.check(len(g.Faces) == nf, 'mesh')
        for f, i, pos in zip(g.Faces, order, range(nf)):
            # the id of a face is its place in the file of the grid
            h.check(f.Zone.Name == spec.zone_names[zone_of[i]], 'mesh')
            h.check([tuple(n.P[c] for c in range(3)) for n in f.Nodes] == [spec.pts[n] for n in faces[i]], 'mesh')
            h.check(h.both(*[f[v] == x for v, x in zip(names, val.get((t, pos), [float(i)] * 3))]), 'values')
    if nc:
        L = open(h.tmp('out/g.csv')).read().split('\n')
        h.check(L[0] == 'time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es', 'csv')
        body = [l for l in L[1:] if l]
        h.check(len(body) == rows, 'csv')
        for r, l in enumerate(body):
            x = [rd(h, s) for s in l.split(';')]
            h.check(len(x) == 10, 'csv')
            h.close(x[0], time[r], 'csv')
            for j in range(9):
                h.close(x[j + 1], sum(cv[c, r][j] for c in range(nc)), 'csv')
