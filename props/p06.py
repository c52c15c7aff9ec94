"""Fixed zones keep exactly their faces."""
from symx import mesh

PROPERTY = 'P06'
BOUNDS = 'meshes of 2-8 faces, 1-3 initial zones (24 faces, 4 zones and up to 12 new ones or 5 levels in two cases; a name of one is the beginning of another) with symbolic membership, any subset of them fixed (symbolic; names of no zone and names given twice may be among them), two decompositions in turn where the second fixes other zones, also those made by the first, symbolic count / levels'
OUTSIDE = 'larger meshes; every zone fixed in the Farhat method with more zones asked for than nothing left'
ASSUMPTIONS = ['zone names are unique']
LABELS = ['fixed', 'rest', 'partition', 'data']


def cases(tier):
    ts = ('strip3', 'fan4') if tier == 'quick' else ('two', 'strip3', 'fan4', 'tetra', 'apart', 'bowtie', 'strip4', 'star', 'octa')
    out = [('%s/%s' % (m, t), dict(topo=t, m=m)) for t in ts for m in ('hier', 'farhat')]
    out += [('twice/%s' % t, dict(topo=t, m='twice')) for t in ts[:2]]
    out += [('again/%s/%s' % (a, b), dict(topo='strip4', m=a + ' ' + b)) for a in ('hier', 'farhat') for b in ('hier', 'farhat')]
    out += [('%s/sheet24' % m, dict(topo='sheet24', m=m, nz=4, top=12)) for m in ('hier', 'farhat')]
    return out


def run(h, topo, m, nz=3, top=3):
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    nz = min(nz, nf)
    free = min(nf, 4 if nz < 4 else 3)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, nz - 1)) for i in range(1, free)] + [(i % nz) for i in range(free, nf)]
    used = sorted(set(zone_of))
    h.assume(used == list(range(len(used))))
    names = ['wing 1', 'tail', 'wing', 'wing 11'][:len(used)]
    spec = mesh.Spec(mesh.PTS[:nn], faces, zone_of, names, ['T'], {'T': [float(i) for i in range(nf)]})
    g = mesh.load(h, spec)
    old = {z.Name: [id(f) for f in z.Faces] for z in g.Zones}
    rounds = m.split() if m != 'twice' else ['hier', 'farhat']
    again = ' ' in m
    if again:
        h.assume(zone_of == sorted(zone_of))
    for r, mm in enumerate(rounds):
        if again and r > 0:
            # zones made by the first decomposition may be fixed in the second, those fixed before need not
            names = [z.Name for z in g.Zones]
            h.assume(len(set(names)) == len(names))
            old = {z.Name: [id(f) for f in z.Faces] for z in g.Zones}
        fixed = [n for n in names if h.is_true(h.bool('fix%d_%s' % (r, n)))]
        # names that no zone has, and names given twice, fix nothing more
        asked = fixed + h.choice('more%d' % r, [[], ['nope'], fixed[:1], ['win']]) if topo != 'sheet24' and not again else fixed
        if r > 0:
            # names that survived the first round
            alive = [z.Name for z in g.Zones]
            h.assume(all(n in alive for n in fixed))
        if mm == 'hier':
            lv = int(h.int('levels%d' % r, 1, min(top, 5))) if not again else r + 1
            g.decompose_hierarchical(levels=lv, fixed_zones=asked)
        else:
            c = r + 1 if again else int(h.int('count%d' % r, 1, top)) if top == 3 else h.choice('count%d' % r, [1, 5, top])
            g.decompose_farhat(c, fz_names=asked)
            h.check(len(g.Zones) == len(fixed) + c, 'rest')
        for n in fixed:
            h.check(any(sorted(id(f) for f in z.Faces) == sorted(old[n]) for z in g.Zones if z.Name == n), 'fixed')
        inside = {x for n in fixed for x in old[n]}
        for z in g.Zones:
            if z.Name not in fixed:
                h.check(not any(id(f) in inside for f in z.Faces), 'rest')
        h.check(mesh.zone_errors(g) == [], 'partition')
        h.check([f['T'] for f in g.Faces] == [float(i) for i in spec.face_order()], 'data')
