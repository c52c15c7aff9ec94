"""Exchange of cross-border values between processes."""
from symx import mesh
from props import crys_env

PROPERTY = 'P11'
BOUNDS = ('2-3 processes over meshes of 2-5 faces with symbolic zones (4 over 12 in one case), the whole program of 2-4 processes over meshes of 4-24 faces, 2-3 successive exchanges of symbolic data; '
          'every send (quick, 3 processes: all sends of a process) either buffered at once or read as late as MPI allows (symbolic), '
          'any process first (symbolic)')
OUTSIDE = 'more processes or exchanges; failures of MPI itself'
ASSUMPTIONS = ['messages between two processes keep their order', 'every process owns at least one face and one cross border']
STUBS = ['mpi4py: Isend / Irecv / Waitall / Ibarrier with a symbolic completion time for each send', 'swim and the remesher are recorders; the pool of workers maps in the process itself']
LABELS = ['ghost', 'own', 'borders', 'other']


def cases(tier):
    out = [('two/2', dict(topo='two', nz=2)), ('strip3/2', dict(topo='strip3', nz=2)), ('fan3/3', dict(topo='fan3', nz=3, nx=2, per_send=False)),
           ('fan4/2', dict(topo='fan4', nz=2, nx=1))]
    out += [('same/strip3/3', dict(topo='strip3', nz=3, nx=1, per_send=False, same=True))]
    out += [('sheet12/4', dict(topo='sheet12', nz=4, nx=1, per_send=False))]
    out += [('main/fan4/2', dict(topo='fan4', nz=2, main=True)), ('main/sheet12/3', dict(topo='sheet12', nz=3, main=True)), ('main/sheet24/4', dict(topo='sheet24', nz=4, main=True))]
    if tier == 'thorough':
        out += [('main/sheet24/%d' % n, dict(topo='sheet24', nz=n, main=True)) for n in (2, 6, 7)]
        out += [('fan4/2x3', dict(topo='fan4', nz=2)), ('strip4/3', dict(topo='strip4', nz=3, nx=2)), ('tetra/3', dict(topo='tetra', nz=3, nx=2)),
                ('fan3/3x2', dict(topo='fan3', nz=3, nx=2)), ('fan3/3x3', dict(topo='fan3', nz=3))]
    return out


def run(h, topo, nz, nx=3, per_send=True, same=False, main=False):
    if main:
        return run_main(h, topo, nz)
    import numpy as np
    crys = crys_env.load_crys(h)
    gsu = h.mod('gsu')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, nz - 1)) if nf < 9 or i == 6 else (i * 5 // 3) % nz for i in range(1, nf)]
    h.assume(sorted(set(zone_of)) == list(range(nz)))
    names = ['T', 'Hi', 'Hw'][:nx]
    data = {v: [h.real('%s%d' % (v, i), -9, 9) for i in range(nf)] for v in names}
    stale = {v: [float(-100 - i) for i in range(nf)] for v in names}
    order = mesh.Spec(mesh.PTS[:nn], faces, zone_of).face_order()
    # each process loads the same file, then computes the values of its own faces
    ranks = []
    world = crys_env.World(h, nz, per_send)
    for r in range(nz):
        g = mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces, zone_of, ['wall'] * nz if same else None, names, stale), 'r%d.dat' % r)
        zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
        g.set_zones_ids()
        z = g.Zones[r]
        comm = crys_env.Comm(world, r)
        ns = crys_env.namespace(crys, comm=comm, rank=r, size=nz, root=0, g=g, zam=zam, z=z,
                                MPI=crys_env.types.SimpleNamespace(Request=crys_env.Request, COMM_WORLD=comm))
        for f, i in zip(g.Faces, order):
            if zone_of[i] == r:
                for v in names:
                    f.Data[v] = data[v][i]
        b = ns['get_mpi_borders'](r, zam, z, g)
        h.assume(len(b) > 0)
        ranks.append((g, z, ns, b))
    own_edges = {}
    for r, (g, z, ns, b) in enumerate(ranks):
        fi = {id(f): i for f, i in zip(g.Faces, order)}
        want = {}
        for e in g.Edges:
            zs = [zone_of[fi[id(f)]] for f in e.Faces]
            if len(zs) == 2 and r in zs and zs[0] != zs[1]:
                want.setdefault(zs[0] + zs[1] - r, []).append(e)
        h.check(sorted(b) == sorted(want) and all(sorted(id(z.Edges[k]) for k in b[o]) == sorted(map(id, want[o])) for o in b), 'borders')
    for g, z, ns, b in ranks:
        for f in z.Faces:
            f.Zone = z.Id

    def body(r):
        g, z, ns, b = ranks[r]
        m = max(len(v) for v in b.values())
        send, recv = np.zeros((len(b), m), dtype=object), np.zeros((len(b), m), dtype=object)
        for v in names:
            ns['exchange'](b, send, recv, v)
    world.run(body)
    for r, (g, z, ns, b) in enumerate(ranks):
        ghost = set()
        for e in z.Edges:
            fs = [order[g.Faces.index(f)] for f in e.Faces]
            ghost |= {i for i in fs if len(fs) == 2 and zone_of[i] != r}
        for f, i in zip(g.Faces, order):
            for v in names:
                if zone_of[i] == r:
                    h.check(f[v] == data[v][i], 'own')
                elif i in ghost:
                    h.check(f[v] == data[v][i], 'ghost')
                else:
                    h.check(f[v] == stale[v][i], 'other')
    h.cover('other')


def run_main(h, topo, nz):
    """The program as it is started: the values of the faces are set once the native code has been called."""
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    names = ['T', 'Hi', 'Hw']
    new = {v: [h.real('%s%d' % (v, i), -9, 9) for i in range(nf)] for v in names}
    stale = {v: [float(-100 - i) for i in range(nf)] for v in names}
    at = {}

    def kernel(r, ns, T, H, W):
        g, z = ns['g'], ns['z']
        at[r] = g, z, [list(g.Faces).index(f) for f in z.Faces]
        for k in at[r][2]:
            for v in names:
                g.Faces[k].Data[v] = new[v][k]
    crys_env.run_main(h, nz, mesh.Spec(mesh.PTS[:nn], faces, None, None, names, stale).text(h), kernel, lambda g: None)
    h.check(sorted(at) == list(range(nz)), 'own')
    owner = {k: r for r, (g, z, mine) in at.items() for k in mine}
    h.check(sorted(owner) == list(range(nf)), 'own')
    sides = {}
    for k, f in enumerate(faces):
        for e in ((f[0], f[1]), (f[1], f[2]), (f[0], f[2])):
            sides.setdefault(frozenset(e), []).append(k)
    for r, (g, z, mine) in at.items():
        ghost = {k for fs in sides.values() for k in fs if owner[k] != r and any(owner[j] == r for j in fs)}
        conds = {'own': [], 'ghost': [], 'other': []}
        for k, f in enumerate(g.Faces):
            for v in names:
                if v == 'Hi' and r == 0:
                    continue   # the root has put the new heights there (P12)
                if owner[k] == r:
                    conds['own'].append(f.Data[v] == new[v][k])
                elif k in ghost:
                    conds['ghost'].append(f.Data[v] == new[v][k])
                else:
                    conds['other'].append(f.Data[v] == stale[v][k])
        for lab, c in conds.items():
            if c:
                h.check(h.both(*c), lab)
