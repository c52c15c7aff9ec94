"""The files of the processes of a parallel run describe the whole grid and agree on their borders."""
from symx import mesh

PROPERTY = 'P10'
BOUNDS = 'meshes of 1-8 faces over the listed topologies, 1-4 zones with symbolic membership (24 faces in 12 zones in one case, three faces in symbolic zones), names of zones different or all the same, symbolic coordinates and data'
OUTSIDE = 'larger meshes'
ASSUMPTIONS = ['exact-real arithmetic; no arithmetic is done on this path']
STUBS = ['text of a float with >= 17 significant digits is a lossless token']
LABELS = ['head', 'coords', 'data', 'connectivity', 'borders', 'reciprocal', 'faces once']
VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


def cases(tier):
    ts = [('tri', 1), ('two', 2), ('strip3', 3), ('fan4', 3), ('tetra', 2), ('bowtie', 2), ('star', 2)]
    if tier == 'thorough':
        ts += [('tetra', 4), ('octa', 2), ('strip4', 4), ('quad8', 2), ('diamond', 2), ('star', 4)]
    out = [('%s/%d' % t, dict(topo=t[0], nz=t[1])) for t in ts]
    out += [('same/%s/%d' % t, dict(topo=t[0], nz=t[1], same=True)) for t in ts[2:4]]
    out.append(('sheet24/12', dict(topo='sheet24', nz=12)))
    out += [('re/%s' % m, dict(topo='fan4', nz=2, again=m)) for m in ('linear', 'farhat', 'hier')]
    return out


def parse(h, path):
    L = open(path).read().split('\n')
    it = iter(L)
    d = {'title': next(it), 'vars': next(it)}
    for key in ('MPI', 'NODES', 'EDGES', 'CROSS-EDGES', 'FACES'):
        k, v = next(it).split('=')
        assert k == key, k
        d[key] = int(v)
    assert next(it) == 'NODES COORDINATES:'
    fl = lambda l: [rd(h, t) for t in l.split()]
    d['xyz'] = [fl(next(it)) for _ in range(3)]
    assert next(it) == 'FACES DATA:'
    d['ids'] = [int(t) for t in next(it).split()]
    d['data'] = [fl(next(it)) for _ in range(len(VARS))]
    assert next(it) == 'FACE-NODE CONNECTIVITY LIST:'
    il = lambda n: [[int(t) for t in next(it).split()] for _ in range(n)]
    d['fn'] = il(d['FACES'])
    assert next(it) == 'FACE-EDGE CONNECTIVITY LIST:'
    d['fe'] = il(d['FACES'])
    assert next(it) == 'EDGE-NODE CONNECTIVITY LIST:'
    d['en'] = il(d['EDGES'])
    k, v = next(it).split('=')
    assert k == 'MPI-BORDERS'
    d['borders'] = []
    for _ in range(int(v)):
        ss = next(it).split()
        assert ss[0][0] == '[' and ss[0][-1] == ']'
        d['borders'].append((int(ss[0][1:-1]), [int(t) for t in ss[1:]]))
    d['rest'] = [l for l in it if l.strip()]
    return d


def rd(h, t):
    if h.symbolic:
        from symx import core
        r = core.ENG.parse(t)
        return r if r is not None else float(t)
    return float(t)


def run(h, topo, nz, again=None, same=False):
    gsu = h.mod('gsu')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    if nf > 8:
        zone_of = [i * nz // nf for i in range(nf)]
        for i in (1, nf // 2, nf - 2):
            zone_of[i] = [zone_of[i], 0, nz - 1][int(h.int('zone%d' % i, 0, 2))]
    else:
        zone_of = [0] + [int(h.int('zone%d' % i, 0, nz - 1)) for i in range(1, nf)]
    used = sorted(set(zone_of))
    h.assume(used == list(range(len(used))))
    data = {v: [h.real('%s%d' % (v, i), -99, 99) for i in range(nf)] for v in ('T', 'Beta', 'TauZ')}
    for k, v in enumerate(VARS):
        if v not in data and v != 'MImp2':
            data[v] = [float(10 * k + i) for i in range(nf)]
    order_v = [v for v in reversed(VARS) if v in data]
    spec = mesh.Spec(mesh.PTS[:nn], faces, zone_of, ['wall'] * len(used) if same else None, order_v, data, 'grid')
    g = mesh.load(h, spec)
    geom = h.mod('geom')
    pts = [tuple(h.real('p%d_%d' % (i, c), -99, 99) for c in range(3)) for i in range(nn)]
    # nodes by number of the description
    num = {}
    for f, i in zip(g.Faces, spec.face_order()):
        for n, k in zip(f.Nodes, faces[i]):
            num[id(n)] = k
    for n in g.Nodes:
        n.P = geom.Vect(*pts[num[id(n)]])
    fnum = {id(f): i for f, i in zip(g.Faces, spec.face_order())}
    if again:
        c = int(h.int('count', 1, 3))
        g.decompose_linear(c) if again == 'linear' else g.decompose_farhat(c) if again == 'farhat' else g.decompose_hierarchical(
            [lambda f: fnum[id(f)]], levels=c)
    owner = {}
    for zi, z in enumerate(g.Zones):
        for f in z.Faces:
            owner[fnum[id(f)]] = zi
    k = len(g.Zones)
    g.store_mpi(h.tmp('grid'), '000000000123')
    D = [parse(h, h.tmp('grid_%05d_000000000123.cry' % zi)) for zi in range(k)]
    sides = {}
    for i, f in enumerate(faces):
        for a in range(3):
            for b in range(a):
                sides.setdefault(frozenset((f[a], f[b])), []).append(i)
    gid = {f.GloId: fnum[id(f)] for f in g.Faces}
    seen = []
    gb = {}
    for zi, (z, d) in enumerate(zip(g.Zones, D)):
        mine = [i for i in range(nf) if owner[i] == zi]
        h.check(d['MPI'] == zi and d['FACES'] == len(mine) and d['title'] == 'TITLE="%s"' % z.Name and d['rest'] == [] and
                d['vars'] == 'VARIABLES=' + ', '.join('"%s"' % v for v in ['X', 'Y', 'Z', 'GloId'] + VARS), 'head')
        es = [e for e, fs in sides.items() if any(owner[i] == zi for i in fs)]
        cross = [e for e in es if len({owner[i] for i in sides[e]}) == 2]
        h.check(d['EDGES'] == len(es) and d['CROSS-EDGES'] == len(cross) and
                d['NODES'] == len({n for i in mine for n in faces[i]}), 'head')
        h.check(all(len(r) == d['NODES'] for r in d['xyz']) and all(len(r) == d['FACES'] for r in d['data']) and len(d['ids']) == d['FACES'], 'head')
        seen += d['ids']
        # local node -> node of the description, through the first corner that names it
        loc = {}
        for r, ids in zip(d['fn'], d['ids']):
            f = faces[gid[ids]]
            h.check(len(r) == 3 and all(0 <= x < d['NODES'] for x in r), 'connectivity')
            for x, n in zip(r, f):
                h.check(loc.setdefault(x, n) == n, 'connectivity')
        h.check(len(loc) == d['NODES'] and len(set(loc.values())) == len(loc), 'connectivity')
        h.check(h.both(*[d['xyz'][c][x] == pts[n][c] for x, n in loc.items() for c in range(3)]), 'coords')
        conds = []
        for j, v in enumerate(VARS):
            for r, i in zip(d['data'][j], [gid[x] for x in d['ids']]):
                conds.append(r == (data[v][i] if v in data else 0.0))
        h.check(h.both(*conds), 'data')
        le = [frozenset(loc[x] for x in r) for r in d['en']]
        h.check(sorted(map(sorted, le)) == sorted(map(sorted, es)), 'connectivity')
        for r, ids in zip(d['fe'], d['ids']):
            f = faces[gid[ids]]
            h.check(sorted(sorted(le[x]) for x in r) == sorted(sorted((f[a], f[b])) for a in range(3) for b in range(a)), 'connectivity')
        want = {}
        for e in cross:
            other = [owner[i] for i in sides[e] if owner[i] != zi][0]
            want.setdefault(other, set()).add(e)
        h.check([b[0] for b in d['borders']] == sorted(want), 'borders')
        for o, ids in d['borders']:
            h.check(len(ids) == len(want[o]) and {le[x] for x in ids} == want[o], 'borders')
            gb[zi, o] = [le[x] for x in ids]
    h.check(sorted(seen) == list(range(nf)), 'faces once')
    # both sides list their common edges in the same order: records are exchanged by position
    h.check(all(gb.get((b, a)) == v for (a, b), v in gb.items()), 'reciprocal')
