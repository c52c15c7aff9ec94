"""Command lines: each option reaches its parameter, absent ones keep their documented default."""
import os
import re
from symx import mesh

PROPERTY = 'P54'
MODULES = ('utils', 'drops', 'split', 'merge')
BOUNDS = ('drops: each of four options absent or symbolic (two faces, up to 12 steps); split: directory or file, with and without strategy (4 values) and json file (symbolic recovery factor, strategy and fixed zones '
          'present or not) over 3 faces with symbolic zones; merge: two processes with symbolic data; 0 or 2 -v')
OUTSIDE = 'other spellings of the options that argparse accepts'
ASSUMPTIONS = ['the functions behind the scripts are right (P14, P15, P32)']
STUBS = ['text of a float is a lossless token']
LABELS = ['exit', 'files', 'drops', 'split', 'merge', 'refused']
OPT = {'loose': True}


def cases(tier):
    out = [('drops/%s' % c, dict(prog='drops', opts=c)) for c in ('d', 't', 's', 'm', 'none', 'all')]
    out += [('split/c', dict(prog='split', opts='c')), ('split/o', dict(prog='split', opts='o')), ('split/wrong', dict(prog='split', opts='x')), ('merge', dict(prog='merge', opts=''))]
    if tier == 'thorough':
        out += [('drops/%s' % c, dict(prog='drops', opts=c)) for c in ('dt', 'ds', 'dm', 'ts', 'tm', 'sm')]
    return out


def pieces(text):
    return [x for x in re.split(r'[\s,"=;]+', text) if x]


def same(h, a, b, label):
    """Two files with the same words and numbers."""
    h.check(os.path.isfile(a) and os.path.isfile(b), 'files')
    p, q = pieces(open(a).read()), pieces(open(b).read())
    h.check(len(p) == len(q), label)
    cs = []
    for x, y in zip(p, q):
        if x != y:
            u, v = h.num(x), h.num(y)
            h.check(u is not None and v is not None, label)
            cs.append(h.near(u, v))
    h.check(h.both(*cs), label)


def run(h, prog, opts):
    v = ['-v'] * h.choice('v', [0, 2]) if prog != 'drops' else []
    {'drops': drops, 'split': split, 'merge': merge}[prog](h, opts, v)


def drops(h, opts, v):
    # a drop over E flies along X to T
    E, T = [(0.0, -1.0, -1.0), (0.0, 2.0, -1.0), (0.0, -1.0, 2.0)], [(0.0015, -4.0, -4.0), (0.0015, 4.0, -4.0), (0.0015, 0.0, 6.0)]
    stall = h.choice('stall', [5e-7, 2e-6, 0.5])
    vel = (20.0, 0.0, 0.0) if h.choice('slow', [True, False]) else (0.75, 0.0, 0.0)
    if vel[0] < 1 and opts in ('none', 's'):
        # two hundred steps of the default are enough for one, not enough for the other
        vel = (0.65, 0.0, 0.0) if h.choice('far', [True, False]) else vel
    elif vel[0] < 1 and opts in ('d', 'ds', 'dt'):
        vel = (20.0, 0.0, 0.0)
    names = ['T', 'Hw', 'Hi', 'Beta', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ', 'MImp2']
    rows = [[3.0, 1.0, 2.0, h.real('beta', -9, 9), stall, 1e-3] + list(vel) + [7.0], [4.0, 1.0, 2.0, 0.5, 0.0, 1e-3] + list(vel) + [h.real('m', -9, 9)]]
    gf = mesh.write(h, 'g.dat', mesh.Spec(E + T, [(0, 1, 2), (3, 4, 5)], [0, 0], None, names, {n: [r[i] for r in rows] for i, n in enumerate(names)}).text(h))
    L = ['TITLE="air"', 'VARIABLES="X", "Y", "Z"', 'ZONE ET=FEBRICK T a DATA Nodes 2 Elements is 0 F']
    for b in ((-1.0, -20.0, -20.0), (5.0, 20.0, 20.0)):
        L.append(' '.join(h.txt(x) for x in b + (0.0, 0.0) + vel))
    af = mesh.write(h, 'air.dat', '\n'.join(L) + '\n')
    # documented defaults
    d, dt, thr, m = 1.0e-4, 1.0e-5, 1.0e-6, 200
    argv = []
    long = h.choice('long', [False, True])
    on = 'dtsm' if opts == 'all' else '' if opts == 'none' else opts
    if 'd' in on:
        d = h.real('dist', 1e-5, 0.001)
        argv += ['--distance' if long else '-d', h.txt(d)]
    if 't' in on:
        dt = h.real('dt', 1e-5, 0.001) if vel[0] > 1 else 1e-4
        argv += ['--time_delta' if long else '-t', h.txt(dt)]
    if 's' in on:
        thr = h.real('thr', 0, 1)
        argv += ['--stall_threshold' if long else '-s', h.txt(thr)]
    if 'm' in on:
        m = h.choice('steps', [0, 1, 3, 12])
        argv += ['--max_fly_steps' if long else '-m', str(m)]
    h.mod('drops').drops(gf, af, h.tmp('want.dat'), d, dt, thr, m)
    k = h.choice('place', [0, 1]) * len(argv)
    rc = h.script('drops.py', *(argv[:k] + [gf, af, h.tmp('o.dat')] + argv[k:]))
    h.check(not rc, 'exit')
    same(h, h.tmp('o.dat'), h.tmp('want.dat'), 'drops')
    same(h, h.tmp('o.dat.tr.dat'), h.tmp('want.dat.tr.dat'), 'drops')


def split(h, opts, v):
    zone_of = [0] + [int(h.int('zone%d' % i, 0, 1)) for i in (1, 2)]
    zn = ['za', 'zb'][:max(zone_of) + 1]
    data = {'T': [h.real('T%d' % i, -99, 99) for i in range(3)]}
    nn, faces = mesh.TOPO['strip3']
    gf = mesh.write(h, 'g_123456789012.dat', mesh.Spec(mesh.PTS[:nn], faces, zone_of, zn, list(data), data).text(h))
    argv = [gf] + v
    cry = dat = None
    if opts == 'x':
        # neither of them, or both
        both = h.choice('both', [True, False])
        argv += ['-c', h.tmp('cry'), '-o', h.tmp('o.dat')] if both else []
        rc = h.script('split.py', *argv)
        h.check(rc != 0 and not os.path.exists(h.tmp('cry')) and not os.path.exists(h.tmp('o.dat')), 'refused')
        return
    strategy, fixed, rf = 'n1', [], 1.0
    if h.choice('json', [True, False]):
        js = ['"x": 1']
        if h.choice('has strategy', [True, False]):
            strategy = 'n2'
            js.append('"split_strategy": "n2"')
        if h.choice('has factor', [True, False]):
            rf = h.real('rf', 0, 1)
            js.append('"recovery_factor": %s' % h.txt(rf))
        if h.choice('has zones', [True, False]):
            fixed = ['za']
            js.append('"heating_system": {"elements": [{"zone": "za"}]}')
        argv += ['-j', mesh.write(h, 'c.json', '{%s}' % ', '.join(js))]
    s = h.choice('strategy', [None, 'n3', 'h1', 'n1'])
    if s:
        strategy = s
        argv += ['--strategy', s]
    n = int(strategy[1:])
    h.assume(len(fixed) < n and (not fixed or len(zn) == 2))
    if opts == 'c':
        cry = h.tmp('want')
        argv += ['-c', h.tmp('out')]
    else:
        dat = h.tmp('want.dat')
        argv += ['-o', h.tmp('out.dat')]
    h.mod('split').split(gf, cry, dat, strategy, fixed, rf)
    rc = h.script('split.py', *argv)
    h.check(not rc, 'exit')
    if opts == 'o':
        same(h, h.tmp('out.dat'), dat, 'split')
        h.check(not os.path.exists(h.tmp('out')), 'files')
        return
    h.check(sorted(os.listdir(h.tmp('out'))) == sorted(os.listdir(cry)) and not os.path.exists(h.tmp('out.dat')), 'files')
    for f in sorted(os.listdir(cry)):
        if f.endswith('.cry'):
            same(h, os.path.join(h.tmp('out'), f), os.path.join(cry, f), 'split')


def merge(h, opts, v):
    names = ['T', 'Hi']
    data = {n: [h.real('%s%d' % (n, i), -99, 99) for i in range(2)] for n in names}
    nn, faces = mesh.TOPO['two']
    gf = mesh.write(h, 'g.dat', mesh.Spec(mesh.PTS[:nn], faces, [0, 0], None, names, data).text(h))
    for w in ('out', 'want', 'src'):
        os.makedirs(h.tmp(w))
    for r in range(2):
        mesh.write(h, 'src/g_%05d_000000000010.txt' % r, 'VARIABLES="GloId", "T", "Hi"\n%d %s %s\n' % (r, h.txt(h.real('t%d' % r, -9, 9)), h.txt(h.real('h%d' % r, 0, 9))))
    h.mod('merge').merge(gf, h.tmp('src'), h.tmp('want'))
    rc = h.script('merge.py', gf, h.tmp('src'), h.tmp('out'), *v)
    h.check(not rc, 'exit')
    fs = [f for f in sorted(os.listdir(h.tmp('want'))) if f.endswith('.dat')]
    h.check(len(fs) == 1 and fs == [f for f in sorted(os.listdir(h.tmp('out'))) if f.endswith('.dat')], 'files')
    same(h, h.tmp('out/' + fs[0]), h.tmp('want/' + fs[0]), 'merge')
