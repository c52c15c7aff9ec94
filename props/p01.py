"""Grid file round trip."""
from symx import mesh

PROPERTY = 'P01'
BOUNDS = ('meshes of 1-8 faces over the listed topologies (24 faces in 12 zones at fixed points in one case, three of the faces in symbolic zones), 1-3 zones with any assignment of faces to zones (symbolic), '
          '0-2 data columns; titles and zone names with up to 2-3 symbolic characters out of a list of special ones; coordinates and data: any reals in [-1000, 1000], any two nodes at least 1e-9 apart in X (in Y, in Z in further cases)')
OUTSIDE = 'larger meshes; names holding quotes, line ends, the keywords of the format; floats are exact reals (text uses >= 17 digits)'
ASSUMPTIONS = ['every node of the file belongs to some face', 'exact-real arithmetic; no arithmetic is done on this path']
STUBS = ['float text is a lossless token when printed with at least 17 significant digits, otherwise rounded symbolically']
LABELS = ['zones', 'coords', 'data', 'fixpoint', 'title']


def cases(tier):
    out = []
    base = [('tri', 1, 1), ('two', 2, 2), ('strip3', 2, 1), ('tetra', 2, 1), ('bowtie', 2, 0), ('apart', 2, 2)]
    if tier == 'thorough':
        base += [('strip3', 3, 2), ('fan4', 3, 1), ('octa', 1, 2), ('star', 3, 1), ('strip4', 2, 2), ('quad8', 1, 1)]
    for t, nz, nv in base:
        out.append(('%s/z%d/v%d' % (t, nz, nv), dict(topo=t, nz=nz, nv=nv)))
    out.append(('names', dict(topo='two', nz=2, nv=1, chars=2 if tier == 'quick' else 3)))
    out.append(('many/sheet24', dict(topo='sheet24', nz=12, nv=2)))
    if tier == 'thorough':
        out += [('many/sheet48', dict(topo='sheet48', nz=12, nv=1)), ('blanks3', dict(topo='two', nz=2, nv=1, chars=-3))]
    out.append(('blanks', dict(topo='two', nz=2, nv=1, chars=-2)))
    for ax in (1, 2):
        out.append(('two/axis%d' % ax, dict(topo='two', nz=1, nv=1, axis=ax)))
    return out


BLANKS = ['a', ' ', '=', '.', '-', '0', '#']
CHARS = ['a', '=', ' ', ',', '#', '(', '-', '1', '.', ':', '/', "'"]


def build(h, topo, nz, nv, axis=0, chars=0):
    nn, faces = mesh.TOPO[topo]
    if nn > 9:
        return many(h, nn, faces, nz, nv)
    shared = [h.real('common_%s' % c, -1000, 1000) for c in 'xyz'[:axis]]
    pts = [tuple(shared + [h.real('%s%d' % (c, i), -1000, 1000) for c in 'xyz'[axis:]]) for i in range(nn)]
    for i in range(nn):
        for j in range(i):
            h.assume(abs(pts[i][axis] - pts[j][axis]) >= 1e-9)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, nz - 1)) for i in range(1, len(faces))]
    # zones in use are 0..k-1
    used = sorted(set(zone_of))
    h.assume(used == list(range(len(used))))
    variables = ['T', 'Hw'][:nv]
    names, title = ['wing %d, a' % i for i in range(len(used))], 'some title'
    if chars:
        w = ''.join(h.choice('c%d' % i, CHARS if chars > 0 else BLANKS) for i in range(abs(chars)))
        names, title = ['z%s%d' % (w, i) for i in range(len(used))], 't%st' % w
        if chars < 0:
            # the special characters at the ends
            names, title = ['%s%d%s' % (w[0], i, w[1:]) for i in range(len(used))], w
    data = {v: [h.real('%s%d' % (v, i), -1000, 1000) for i in range(len(faces))] for v in variables}
    return mesh.Spec(pts, faces, zone_of, names, variables, data, title)


def many(h, nn, faces, nz, nv):
    """A mesh of medium size: many zones, some faces in symbolic ones, some symbolic data."""
    nf = len(faces)
    zone_of = [i * nz // nf for i in range(nf)]
    for i in (1, nf // 2, nf - 2):
        zone_of[i] = [zone_of[i], 0, nz - 1][int(h.int('zone%d' % i, 0, 2))]
    variables = ['T', 'Hw'][:nv]
    data = {v: [h.real('%s%d' % (v, i), -1000, 1000) if i % 5 == 0 else 0.1 * i - k for i in range(nf)] for k, v in enumerate(variables)}
    return mesh.Spec(mesh.PTS[:nn], faces, zone_of, ['zone %d' % i for i in range(nz)], variables, data, 'many')


def same_grid(h, rows, spec):
    """rows of a loaded grid against the description, order of zones and faces included."""
    order = spec.face_order()
    h.check(len(rows) == len(order), 'zones')
    conds, dconds = [], []
    for (zn, corners, data), i in zip(rows, order):
        h.check(zn == spec.zone_names[spec.zone_of[i]], 'zones')
        h.check(len(corners) == 3 and list(data.keys()) == spec.variables, 'data')
        for c, n in zip(corners, spec.faces[i]):
            conds += [c[k] == spec.pts[n][k] for k in range(3)]
        dconds += [data[v] == spec.data[v][i] for v in spec.variables]
    h.check(h.both(*conds), 'coords')
    h.check(h.both(*dconds), 'data')


def run(h, topo, nz, nv, axis=0, chars=0):
    gsu = h.mod('gsu')
    spec = build(h, topo, nz, nv, axis, chars)
    g = gsu.Grid()
    g.load(mesh.write(h, 'a.dat', spec.text(h)))
    h.check(g.Name == spec.title, 'title')
    same_grid(h, mesh.face_rows(g), spec)
    g.store(h.tmp('b.dat'))
    g2 = gsu.Grid()
    g2.load(h.tmp('b.dat'))
    h.check(g2.Name == spec.title, 'title')
    same_grid(h, mesh.face_rows(g2), spec)
    h.check(len(g2.Nodes) == len(spec.pts), 'coords')
    g2.store(h.tmp('c.dat'))
    # a grid that reuses its object for another file forgets the first
    g.load(h.tmp('c.dat'))
    same_grid(h, mesh.face_rows(g), spec)
    h.check(open(h.tmp('b.dat')).read() == open(h.tmp('c.dat')).read(), 'fixpoint')
