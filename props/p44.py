"""Conversion of Ansys results: coefficients from the three files."""
import os
from symx import mesh

PROPERTY = 'P44'
MODULES = ('gsu_converter', 'ansys_to_crystal')
BOUNDS = ('one or two zones of 3-6 nodes; symbolic fluxes, temperatures, shear, collection efficiency, air temperature, heat capacity; air velocity any of 3 values; '
          'single steps on files, and the whole script on a set of three files with another zone that is not asked for')
OUTSIDE = 'surface temperature nearer than 0.5 to that of the air at the wall; more than six decimals of the printed numbers in the whole script'
ASSUMPTIONS = ['exact-real arithmetic']
STUBS = ['text of a float is a lossless token, %f rounds to six decimals']
LABELS = ['merged', 'rows', 'elements', 'htc', 'recovery', 'others', 'script', 'zones', 'mean']
OPT = {'loose': True, 'query_ms': 30000, 'canon': True}


def cases(tier):
    out = [('merge', dict(kind='merge')), ('htc', dict(kind='htc')), ('script', dict(kind='script'))]
    if tier == 'thorough':
        out += [('script/2', dict(kind='script', both=True))]
    return out


def run(h, kind, both=False):
    A = h.mod('ansys_to_crystal')
    if kind == 'merge':
        return merge(h, A)
    if kind == 'htc':
        return htc(h, A)
    script(h, both)


def merge(h, A):
    cols = {'f': 8, 'd': 4, 'a': 4}
    sizes = [(2, 1), (3, 2)]
    D, F = {}, {}
    els = []
    for k, n in cols.items():
        L = ['TITLE="%s"' % k, 'VARIABLES="%s"' % '", "'.join('v%d' % i for i in range(n))]
        D[k] = []
        for zi, (nn, ne) in enumerate(sizes):
            L.append('ZONE T="z%d", N=%d, E=%d' % (zi, nn, ne))
            for i in range(nn):
                r = [h.real('%s%d_%d_%d' % (k, zi, i, c), -99, 99) for c in range(n)]
                D[k].append(r)
                L.append(' '.join(h.txt(x) for x in r))
            e = ['1 2 1 %d' % (i + 1) for i in range(ne)]
            L += e
            if k == 'f':
                els.append(e)
        F[k] = mesh.write(h, k, '\n'.join(L) + '\n')
    A.merge_fensap_drop3d_adiabatic(F['f'], F['d'], F['a'], h.tmp('o'))
    got = open(h.tmp('o')).read().split('\n')
    src = open(F['f']).read().split('\n')
    names = [x.strip().strip('"') for x in got[1].split('=')[1].split(',')]
    where = {'X': ('f', 0), 'Y': ('f', 1), 'Z': ('f', 2), 'Ts': ('f', 3), 'TauX': ('f', 4), 'TauY': ('f', 5), 'TauZ': ('f', 6), 'Flux': ('f', 7), 'Beta': ('d', 3), 'StatT': ('a', 3)}
    h.check(sorted(names) == sorted(where), 'merged')
    h.check(len(got) == len(src) and got[0] == src[0], 'rows')
    p, k = 2, 0
    for (nn, ne), e in zip(sizes, els):
        h.check(got[p] == src[p], 'rows')
        p += 1
        for i in range(nn):
            h.check(got[p].split() == [h.txt(D[where[v][0]][k][where[v][1]]) for v in names], 'merged')
            k += 1
            p += 1
        h.check(got[p:p + ne] == e, 'elements')
        p += ne


def parse(h, s):
    return h.mod('gsu_converter').Grid.parse_coordinate(s)


def htc(h, A):
    ta, cp = h.real('ta', 200, 300), h.real('cp', 500, 2000)
    v = h.choice('v', [100.0, 0.5, 64.25])
    L = ['TITLE="t"', 'VARIABLES = "X", "Y", "Z", "Flux", "Beta", "TauX", "TauY", "TauZ", "Ts", "StatT"', 'ZONE T="z", N=2, E=1']
    D = []
    for i in range(2):
        stat = h.real('stat%d' % i, 200, 300)
        gap = h.real('gap%d' % i, -50, 50)
        h.assume(h.any(gap >= 0.5, gap <= -0.5))
        c = h.real('htc%d' % i, -100, 100)
        # the flux to the wall is the coefficient times the difference of temperatures
        r = [h.real('%s%d' % (k, i), -9, 9) for k in 'xyz'] + [-1.0 * c * gap] + [h.real('b%d' % i, 0, 1)] + [h.real('t%s%d' % (k, i), -9, 9) for k in 'xyz'] + [stat + gap, stat]
        D.append((r, stat, gap, c))
        L.append(' '.join(h.txt(x) for x in r))
    L.append('1 2 1 2')
    A.calculate_htc_recovery_factor(mesh.write(h, 'i', '\n'.join(L) + '\n'), h.tmp('o'), ta, v, cp)
    got = open(h.tmp('o')).read().split('\n')
    names = [x.strip().strip('"') for x in got[1].split('=')[1].split(',')]
    h.check(names == ['X', 'Y', 'Z', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor'], 'others')
    h.check(len(got) == len(L) + 1 and got[0] == L[0] and got[2] == L[2] and got[5] == L[5], 'others')
    for l, (r, stat, gap, c) in zip(got[3:5], D):
        w = l.split()
        h.check(len(w) == 9, 'others')
        h.check(w[:3] + w[4:8] == [h.txt(x) for x in r[:3] + r[4:8]], 'others')
        d = parse(h, w[3]) - c
        h.check(h.both(d <= 1e-6, d >= -1e-6), 'htc')
        d = parse(h, w[8]) * (v * v) - (stat - ta) * 2 * cp
        h.check(h.both(d <= 1e-3, d >= -1e-3), 'recovery')


def script(h, both):
    os.makedirs(h.tmp('d'))
    ask = ['wing', 'tail'] if both else ['wing']
    fv = ['X', 'Y', 'Z', 'Pressure', 'Static temperature (K)', 'SF1 (Pa)', 'SF2 (Pa)', 'SF3 (Pa)', 'Classical heat flux (W/m^2)']
    dv = ['X', 'Y', 'Z', 'Droplet', 'Collection efficiency-Droplet']
    av = ['X', 'Y', 'Z', 'Static temperature (K)', 'Pressure']
    zones = [('wing1', 3), ('wing', 4), ('tail', 4)]
    rev = h.choice('rev', [None, 'origin', 'reversed'])
    ta, v, cp = 250.0, 100.0, 1000.0
    T = {k: ['TITLE="%s"' % k, 'VARIABLES="%s"' % '","'.join(x)] for k, x in (('fensap', fv), ('drop3d', dv), ('adiabatic', av))}
    want = {}
    for zi, (zn, nn) in enumerate(zones):
        for k in T:
            T[k].append('ZONE T="%s", N=%d, E=%d' % (zn, nn, 1 if nn == 4 else 0))
        for i in range(nn):
            P = [x + 30.0 * zi for x in mesh.PTS[i]]
            sym = zn in ask
            tw = 300.0 if not sym else 260.0 + 20.0 * h.choice('tw%d' % (i % 2), [0, 1])
            st = h.intreal('st%d_%d' % (zi, i), 200, 250) if sym and i == 0 else 240.0
            fl = h.real('fl%d_%d' % (zi, i), -900, 900) if sym and i else 100.0
            be = h.real('be%d_%d' % (zi, i), 0, 1) if sym else 0.5
            sf = [h.real('sf%d_%d%d' % (zi, i, c), -9, 9) if sym and i == 1 else float(c + i) for c in range(3)]
            T['fensap'].append(' '.join(h.txt(x) for x in P + [7.0, tw] + sf + [fl]))
            T['drop3d'].append(' '.join(h.txt(x) for x in P + [3.0, be]))
            T['adiabatic'].append(' '.join(h.txt(x) for x in P + [st, 5.0]))
            want[zn, i] = (P, [-fl / (tw - st), be] + sf + [(st - ta) * (2 * cp / (v * v))])
        if nn == 4:
            for k in T:
                T[k].append('1 2 3 4')
    for k, L in T.items():
        mesh.write(h, 'd/base.%s.dat' % k, '\n'.join(L) + '\n')
    before = {k: open(h.tmp('d/base.%s.dat' % k)).read() for k in T}
    rc = h.script('convert/ansys_to_crystal.py', h.tmp('d/base'), ','.join(ask), '-t', '250.0', '-v', '100.0', '-cp', '1000.0', *(['-n', rev] if rev else []))
    h.check(not rc, 'script')
    h.check(all(open(h.tmp('d/base.%s.dat' % k)).read() == t for k, t in before.items()), 'script')
    g = h.mod('gsu').Grid()
    g.load(h.tmp('d/base.dat'))
    h.check([z.Name for z in g.Zones] == ask, 'zones')
    for z in g.Zones:
        h.check(len(z.Faces) == 2 and len(z.Nodes) == 4, 'zones')
        for f in z.Faces:
            ids = []
            for n in f.Nodes:
                c = [i for i in range(4) if all(h.is_true(abs(n.P[j] - want[z.Name, i][0][j]) <= 1e-5) for j in range(3))]
                h.check(len(c) == 1, 'script')
                ids.append(c[0])
            # reversed unless asked for the origin
            s = {(ids[i] - ids[(i + 1) % 3]) % 4 for i in range(3)}
            h.check(s == ({1, 2} if rev != 'origin' else {3, 2}), 'script')
            for k, nm in enumerate(('HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')):
                m = (want[z.Name, ids[0]][1][k] + want[z.Name, ids[1]][1][k] + want[z.Name, ids[2]][1][k]) * (1 / 3.0)
                d = f[nm] - m
                h.check(h.both(d <= 1e-5, d >= -1e-5), 'mean')
