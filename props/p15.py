"""Splitting a grid into the files of the processes."""
import json
import os
from symx import mesh

PROPERTY = 'P15'
MODULES = ('utils', 'split')
BOUNDS = ('grids of 2-5 faces (24 in two cases) with symbolic zones; strategies n0-n4, n10, n12, n100 and h0-h4 (symbolic), h10, any (symbolic) list of fixed zones including unknown ones and a part of a name, '
          'symbolic recovery factor, present or not in the grid and in the json file; grid names with and without a time stamp')
OUTSIDE = 'larger grids; json files of another shape'
ASSUMPTIONS = []
STUBS = ['text of a float with >= 17 significant digits is a lossless token']
LABELS = ['count', 'names', 'partition', 'recovery', 'fixed', 'refused', 'json', 'dat']


def cases(tier):
    out = [('n/strip3', dict(topo='strip3', s='n')), ('h/fan4', dict(topo='fan4', s='h')), ('n/sheet24', dict(topo='sheet24', s='n', big=True)), ('h/sheet24', dict(topo='sheet24', s='h', big=True)), ('n/dat', dict(topo='two', s='n', dat=True)), ('json', dict(topo='two', s='j')), ('h10/strip3', dict(topo='strip3', s='h', deep=True))]
    if tier == 'thorough':
        out += [('n/fan4', dict(topo='fan4', s='n')), ('h/strip4', dict(topo='strip4', s='h')), ('n/apart', dict(topo='apart', s='n')), ('h/star/dat', dict(topo='star', s='h', dat=True))]
    return out


def run(h, topo, s, dat=False, big=False, deep=False):
    split = h.mod('split')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    if s == 'j':
        return run_json(h, split)
    free = min(nf, 3 if not big else 2)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, 1)) for i in range(1, free)] + [0 if not big else i % 2 for i in range(nf - free)]
    zn = ['za', 'zb'][:max(zone_of) + 1]
    order = [i for z in range(len(zn)) for i in range(nf) if zone_of[i] == z]
    have = h.is_true(h.bool('have_rf'))
    data = {'T': [h.real('T%d' % i, -99, 99) for i in range(nf)]}
    if have:
        data['RecoveryFactor'] = [h.real('r%d' % i, 0, 1) for i in range(nf)]
    rf = h.real('rf', 0, 1)
    stamp = h.is_true(h.bool('stamp')) if not big else True
    stem = 'g.v2' if s == 'h' else 'g'
    name = stem + '_123456789012' if stamp else stem
    gfile = mesh.write(h, name + '.dat', mesh.Spec(mesh.PTS[:nn], faces, zone_of, zn, list(data), data).text(h))
    n = int(h.int('n', 0, 3 if s == 'n' else 2)) if not big and not deep else 10 if deep else h.choice('n', [10, 12, 100] if s == 'n' else [3, 4])
    fixed = h.choice('fixed', [[], ['za'], ['zb'], ['za', 'nope'], ['z']])
    out = h.tmp('cry/deep')
    od = h.tmp('o.dat')
    target = 2 ** n if s == 'h' else n
    bad = any(f not in zn for f in fixed) or (s == 'n' and (n == 0 or len(fixed) >= n) and not (n == 1 and not fixed))
    rest = nf - sum(1 for z in zone_of if zn[z] in fixed)
    h.assume(rest > 0)
    try:
        g = split.split(gfile, None if dat else out, od if dat else None, '%s%d' % (s, n), fixed, rf)
    except Exception as e:
        if not bad or 'crys-gsu-split' not in str(e):
            raise
        h.cover('refused')
        h.check(not os.path.exists(out) and not os.path.exists(od), 'refused')
        return
    h.check(not bad, 'refused')
    if dat:
        g2 = h.mod('gsu').Grid()
        g2.load(od)
        h.check(len(g2.Zones) == len(g.Zones) and len(g2.Faces) == nf, 'dat')
    h.check(mesh.zone_errors(g) == [], 'partition')
    for f, i in zip(g.Faces, order):
        h.check(f['T'] == data['T'][i], 'recovery')
        h.check('RecoveryFactor' in f.Data, 'recovery')
        h.check(f['RecoveryFactor'] == (data['RecoveryFactor'][i] if have else rf), 'recovery')
    if s == 'n':
        h.check(len(g.Zones) == n, 'count')
    else:
        h.check(len(g.Zones) <= 2 ** n + len(fixed), 'count')
        # the same zones as the decomposition itself makes (P07) with one level more than there are splits
        g3 = h.mod('gsu').Grid()
        g3.load(gfile)
        if n == 0 and not fixed:
            g3.decompose_mono()
        else:
            g3.decompose_hierarchical(levels=n + 1, fixed_zones=fixed)
        part = [sorted(sorted(x.Faces.index(f) for f in z.Faces) for z in x.Zones) for x in (g, g3)]
        h.check(part[0] == part[1], 'count')
    for z in g.Zones:
        if z.Name in fixed:
            h.check(sorted(order[g.Faces.index(f)] for f in z.Faces) == [i for i in range(nf) if zn[zone_of[i]] == z.Name], 'fixed')
    h.check(all(any(z.Name == f for z in g.Zones) for f in fixed), 'fixed')
    if not dat:
        ts = '123456789012' if stamp else '000000000000'
        want = ['%s_%05d_%s.cry' % (stem, i, ts) for i in range(len(g.Zones))] + ['report.txt']
        h.check(sorted(os.listdir(out)) == sorted(want), 'names')


def run_json(h, split):
    """Parameters in the json file, present or not."""
    rf = h.real('rf', 0, 1)
    d = []
    a, b, c, e = (h.is_true(h.bool('has%d' % i)) for i in range(4))
    if a:
        d.append('"split_strategy": "n7"')
    if b:
        d.append('"recovery_factor": %s' % h.txt(rf))
    zs = ['zone 1', 'b'][:int(h.int('nz', 0, 2))]
    if c:
        els = '"elements": [%s]' % ', '.join('{"zone": "%s", "power": 5}' % z for z in zs)
        d.append('"heating_system": {%s}' % (els if e else '"other": 1'))
    p = mesh.write(h, 'c.json', '{"x": 1, "deep": {"recovery_factor": 0.1}' + ''.join(', ' + x for x in d) + '}')
    h.check(split.extract_strategy_from_json(p) == ('n7' if a else 'n1'), 'json')
    h.check(split.extract_recovery_factor_from_json(p) == (rf if b else 1.0), 'json')
    h.check(split.extract_fixed_zones_from_json(p) == (zs if c and e else []), 'json')
    for f in (split.extract_strategy_from_json, split.extract_fixed_zones_from_json, split.extract_recovery_factor_from_json):
        try:
            f(p + 'x')
        except Exception:
            continue
        h.fail('json')
