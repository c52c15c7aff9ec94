"""Heights computed by the processes reach the faces they belong to before remeshing."""
from symx import mesh
from props import crys_env

PROPERTY = 'P12'
BOUNDS = '1-3 processes over meshes of 1-6 faces (11 over 24) with symbolic zones (zones of different sizes), the whole program of 1-5 processes over meshes of 1-24 faces, symbolic heights'
OUTSIDE = 'more processes'
ASSUMPTIONS = []
STUBS = ['mpi4py gather / Gatherv', 'the remesher itself is replaced by a recorder (its own properties: P34-P39)']
LABELS = ['heights', 'remeshed once', 'stored', 'kernel']


def cases(tier):
    out = [('tri/1', dict(topo='tri', nz=1)), ('strip3/2', dict(topo='strip3', nz=2)), ('fan4/3', dict(topo='fan4', nz=3))]
    out += [('sheet24/11', dict(topo='sheet24', nz=11))]
    out += [('main/tri/1', dict(topo='tri', nz=1, main=True)), ('main/strip3/2', dict(topo='strip3', nz=2, main=True)), ('main/sheet24/5', dict(topo='sheet24', nz=5, main=True))]
    if tier == 'thorough':
        out += [('main/sheet48/11', dict(topo='sheet48', nz=11, main=True))]
        out += [('strip4/3', dict(topo='strip4', nz=3)), ('star/4', dict(topo='star', nz=4)), ('octa/2', dict(topo='octa', nz=2))]
    return out


def run(h, topo, nz, main=False):
    if main:
        return run_main(h, topo, nz)
    import numpy as np
    crys = crys_env.load_crys(h)
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, nz - 1)) if nf < 9 or i == 20 else i * nz // nf for i in range(1, nf)]
    h.assume(sorted(set(zone_of)) == list(range(nz)))
    hi = [h.real('Hi%d' % i, 0, 9) for i in range(nf)]
    old = [float(-1 - i) for i in range(nf)]
    order = mesh.Spec(mesh.PTS[:nn], faces, zone_of).face_order()
    world = crys_env.World(h, nz)
    seen = []
    grids = []

    class Recorder:
        def __init__(self, *a, **k):
            pass

        def __call__(self, g):
            seen.append(g)
            self.at = [f['Hi'] for f in g.Faces]
            for f, i in zip(g.Faces, order):
                h.check(f['Hi'] == hi[i], 'heights')

    def body(r):
        g = mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces, zone_of, None, ['Hi', 'T'],
                                   {'Hi': old, 'T': [float(i) for i in range(nf)]}), 'r%d.dat' % r)
        g.set_zones_ids()
        z = g.Zones[r]
        comm = crys_env.Comm(world, r)
        ns = crys_env.namespace(crys, comm=comm, rank=r, size=nz, root=0, g=g, z=z, TongRemesher=Recorder, FILENAME='x.dat',
                                JSON='x.json', OUTDIR='', OUT_REMESHED_MESH=h.tmp('out.dat'))
        mine = [hi[i] for i in order if zone_of[i] == r]
        his = np.array([mine], dtype=object if h.symbolic else np.float64)
        ns['remesh'](r, his)
        grids.append((r, g))
    world.run(body)
    h.check(len(seen) == 1, 'remeshed once')
    g2 = h.mod('gsu').Grid()
    g2.load(h.tmp('out.dat'))
    h.check(h.both(*[f['Hi'] == hi[i] for f, i in zip(g2.Faces, order)]), 'stored')
    h.check([f['T'] for f in g2.Faces] == [float(i) for i in order], 'stored')


def run_main(h, topo, nz):
    """The program as it is started: what the native code adds to the heights reaches the faces."""
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    data = {v: [h.real('%s%d' % (v, i), 0, 9) for i in range(nf)] for v in ('T', 'Hi', 'Hw')}
    add = [h.real('d%d' % i, 0, 9) for i in range(nf)]
    seen = []

    def kernel(r, ns, T, H, W):
        mine = [list(ns['g'].Faces).index(f) for f in ns['g'].Zones[r].Faces]
        h.check(len(T) == len(H) == len(W) == len(mine), 'kernel')
        for v, a in (('T', T), ('Hi', H), ('Hw', W)):
            h.check(h.both(*[a[j] == data[v][k] for j, k in enumerate(mine)]), 'kernel')
        for j, k in enumerate(mine):
            H[j] = H[j] + add[k]

    def remesher(g):
        seen.append(g)
        h.check(h.both(*[f['Hi'] == data['Hi'][k] + add[k] for k, f in enumerate(g.Faces)]), 'heights')
        h.check(h.both(*[f[v] == data[v][k] for k, f in enumerate(g.Faces) for v in ('T', 'Hw')]), 'heights')
    crys_env.run_main(h, nz, mesh.Spec(mesh.PTS[:nn], faces, None, None, list(data), data).text(h), kernel, remesher)
    h.check(len(seen) == 1, 'remeshed once')
    g2 = h.mod('gsu').Grid()
    g2.load(h.tmp('remeshed.dat'))
    h.check(len(g2.Faces) == nf and h.both(*[f['Hi'] == seen[0].Faces[k]['Hi'] for k, f in
            zip([list(seen[0].Faces).index(x) for z in seen[0].Zones for x in z.Faces], g2.Faces)]), 'stored')
