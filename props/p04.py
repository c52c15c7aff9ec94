"""Every decomposition is a partition of the same faces over consistent zones."""
from symx import mesh

PROPERTY = 'P04'
RANDOM = True
BOUNDS = ('meshes of 1-8 faces (listed topologies; 24 faces and up to 13 zones or 5 levels in some cases), initial zones of the faces symbolic, zones fixed or not, symbolic count / levels / random draws; '
          'face centres symbolic for the hierarchical method; sequences of two methods, with fixed zones in the first one too')
OUTSIDE = 'larger meshes, more than two successive decompositions'
ASSUMPTIONS = ['random.randint returns any value of its range']
STUBS = ['random: every draw is an unconstrained symbolic integer of its range']
LABELS = ['partition', 'links', 'ids', 'unchanged', 'count']

METHODS = ('mono', 'random', 'linear', 'hier', 'farhat')


def cases(tier):
    out = []
    for m in METHODS:
        for t in (('strip3', 'tetra') if tier == 'quick' else ('tri', 'two', 'strip3', 'fan4', 'tetra', 'apart', 'bowtie', 'strip4', 'star')):
            out.append(('%s/%s' % (m, t), dict(topo=t, ms=(m,))))
    pairs = [('hier', 'farhat'), ('farhat', 'hier'), ('random', 'linear'), ('linear', 'mono')]
    if tier == 'thorough':
        pairs = [(a, b) for a in METHODS for b in METHODS]
    for a, b in pairs:
        out.append(('%s+%s' % (a, b), dict(topo='two', ms=(a, b))))
    if tier == 'thorough':
        out += [('hier/octa', dict(topo='octa', ms=('hier',), sym=False)), ('farhat/octa', dict(topo='octa', ms=('farhat',))),
                ('linear/quad8', dict(topo='quad8', ms=('linear',)))]
    out += [('%s/sheet24' % m, dict(topo='sheet24', ms=(m,), sym=False, big=-11, top=13)) for m in METHODS if m != 'random']
    out.append(('random/many', dict(topo='tri', ms=('random',), big=12, top=13)))
    out += [('%s/fixed' % m, dict(topo='strip4', ms=(m,), sym=False, fix=True)) for m in ('hier', 'farhat')]
    out += [('%s+%s/fixed' % (a, b), dict(topo='strip3', ms=(a, b), sym=False, fix=True, big=0, top=3)) for a, b in (('farhat', 'linear'), ('hier', 'mono'), ('farhat', 'random'), ('hier', 'farhat'))]
    if tier == 'thorough':
        out += [('%s+%s/fixed' % (a, b), dict(topo='strip3', ms=(a, b), sym=False, fix=True, big=0, top=3)) for a in ('hier', 'farhat') for b in METHODS]
        out += [('%s/sheet48' % m, dict(topo='sheet48', ms=(m,), sym=False, big=-11, top=37)) for m in METHODS if m != 'random']
    return out


def apply(h, g, m, i, nf, kw, big=1, top=4, fixed=()):
    """-> expected number of zones or None"""
    if m == 'mono':
        g.decompose_mono(**kw)
        return 1
    if m == 'hier':
        lv = int(h.int('levels%d' % i, 1, 3 if top == 4 else 5))
        g.decompose_hierarchical(levels=lv, **dict(kw, **(dict(fixed_zones=fixed) if fixed else {})))
        return None
    n = int(h.int('count%d' % i, 1, min(nf + big, top)))
    if m == 'random':
        g.decompose_random(n, **kw)
    elif m == 'linear':
        g.decompose_linear(n, **kw)
    else:
        g.decompose_farhat(n, **dict(kw, **(dict(fz_names=fixed) if fixed else {})))
        n += len(fixed)
    return n


def snapshot(g):
    return ([(id(n), tuple(n.P[i] for i in range(3)), n.GloId, [id(f) for f in n.Faces], [id(e) for e in n.Edges]) for n in g.Nodes],
            [(id(e), e.GloId, [id(n) for n in e.Nodes], [id(f) for f in e.Faces]) for e in g.Edges],
            [(id(f), f.GloId, [id(n) for n in f.Nodes], [id(e) for e in f.Edges]) for f in g.Faces])


def run(h, topo, ms, sym=True, big=1, top=4, fix=False):
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    pts = list(mesh.PTS[:nn])
    zone_of = [0] + [int(h.int('zone%d' % i, 0, 1)) for i in range(1, min(nf, 3))] + [0] * max(0, nf - 3)
    spec = mesh.Spec(pts, faces, zone_of, ['a', 'a b'][:max(zone_of) + 1], ['T'], {'T': [h.real('T%d' % i, 0, 9) for i in range(nf)]})
    g = mesh.load(h, spec)
    if 'hier' in ms and sym:
        # the coordinates that decide the cuts are symbolic (two of them per mesh)
        for i in range(2):
            p = g.Nodes[i].P
            g.Nodes[i].P = h.mod('geom').Vect(h.real('x%d' % i, -9, 9), p.Y, p.Z)
    before = snapshot(g)
    data = [dict(f.Data) for f in g.Faces]
    for i, m in enumerate(ms):
        # every other decomposition also gives a new name to the grid
        kw = dict(new_name=h.choice('name%d' % i, ['named', '', ' a'])) if (i + nf) % 2 else {}
        title = kw.get('new_name', g.Name)
        fixed = [z.Name for z in g.Zones if h.is_true(h.bool('fix %d %s' % (i, z.Name)))] if fix and m in ('hier', 'farhat') else []
        n = apply(h, g, m, i, nf, kw, big, top, fixed)
        h.check(g.Name == title, 'unchanged')
        z = mesh.zone_errors(g)
        h.check(not [e for e in z if 'faces in zones' in e or 'face zone' in e or 'outside' in e or 'another zone' in e or 'twice' in e], 'partition')
        h.check(z == [], 'links')
        h.check([z.Id for z in g.Zones] == list(range(len(g.Zones))), 'ids')
        if n is not None:
            h.check(len(g.Zones) == n, 'count')
        names = [z.Name for z in g.Zones]
        h.check(len(set(names)) == len(names), 'count')
        after = snapshot(g)
        h.check([x[0] for x in after[0]] == [x[0] for x in before[0]] and [x[2:] for x in after[0]] == [x[2:] for x in before[0]], 'unchanged')
        h.check(after[1] == before[1] and after[2] == before[2], 'unchanged')
        h.check(h.both(*[a[1][c] == b[1][c] for a, b in zip(after[0], before[0]) for c in range(3)]), 'unchanged')
        h.check([list(f.Data) for f in g.Faces] == [list(d) for d in data], 'unchanged')
        h.check(h.both(*[f['T'] == d['T'] for f, d in zip(g.Faces, data)]), 'unchanged')
