"""Arrays of a zone."""

import numpy as np

from symx import mesh

PROPERTY = 'P49'
BOUNDS = 'meshes of 1-8 faces in 1-3 zones, faces distributed over the zones by solver-chosen numbers, all data symbolic, variables in several orders and with others between'
OUTSIDE = 'larger meshes'
ASSUMPTIONS = []
STUBS = ['text of a float is a lossless token']
LABELS = ['coordinates', 'variables', 'connectivity', 'variable', 'counts', 'real', 'ghost', 'neighbours']
V = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']


def cases(tier):
    out = [(t, dict(topo=t)) for t in ('tri', 'two', 'strip3', 'fan3', 'tetra', 'bowtie')]
    if tier == 'thorough':
        out += [(t, dict(topo=t)) for t in ('fan4', 'strip4', 'star', 'octa')]
    return out


def wide(x):
    """A numpy number of any precision as a double (comparison with a float would be in the precision of the numpy number)."""
    return float(x) if isinstance(x, np.floating) else x


def run(h, topo):
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    nz = min(nf, 3 if nf < 5 else 2)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, nz - 1)) for i in range(1, nf)]
    used = sorted(set(zone_of))
    zone_of = [used.index(z) for z in zone_of]
    k = h.choice('rotate', [0, 3])
    names = V[k:] + ['MImp2'] + V[:k]
    D = {v: [h.real('%s%d' % (v, i), -99, 99) for i in range(nf)] for v in names}
    pts = [tuple(c + 0.1 * (k + 1) for k, c in enumerate(p)) for p in mesh.PTS[:nn]]
    g = mesh.load(h, mesh.Spec(pts, faces, zone_of, None, names, D))
    order = mesh.Spec(mesh.PTS[:nn], faces, zone_of).face_order()
    fi = mesh.idx(g.Faces)
    h.check(g.nodes_count() == nn and g.faces_count() == nf and g.zones_count() == len(used) and g.faces_count_in_zones() == nf, 'counts')
    for zi, z in enumerate(g.Zones):
        mine = [i for i in order if zone_of[i] == zi]
        h.check(z.nodes_count() == len({x for i in mine for x in faces[i]}) and z.faces_count() == len(mine) and z.edges_count() == len(z.Edges), 'counts')
        C = z.coords_np_array()
        h.check(C.shape == (len(z.Nodes), 3), 'coordinates')
        h.check(all(wide(C[j][c]) == m.P[c] for j, m in enumerate(z.Nodes) for c in range(3)), 'coordinates')
        A = z.variables_np_array()
        h.check(A.shape == (len(mine), 12), 'variables')
        for r, i, f in zip(A, mine, z.Faces):
            want = [f.GloId, D['T'][i], D['Hw'][i], D['Hi'][i], D['HTC'][i], D['Beta'][i], 0, 0, D['TauX'][i], D['TauY'][i], D['TauZ'][i], 0]
            h.check(h.both(*[wide(a) == b for a, b in zip(r, want)]), 'variables')
        L = z.connectivity_list_faces_nodes()
        h.check(L.shape == (len(mine), 3), 'connectivity')
        for r, i, f in zip(L, mine, z.Faces):
            P = [g.Nodes[int(x)].P for x in r]
            h.check([tuple(p[c] for c in range(3)) for p in P] == [pts[x] for x in faces[i]], 'connectivity')
        for v in names:
            a = z.get_variable(v)
            h.check(len(a) == len(mine), 'variable')
            h.check(h.both(*[wide(x) == D[v][i] for x, i in zip(a, mine)]), 'variable')
        # not carried by the grid
        a = z.get_variable('Stall')
        h.check(len(a) == len(mine) and all(wide(x) == 0 for x in a), 'variable')
    # faces of an edge seen from a zone
    g.set_zones_ids()
    for f in g.Faces:
        for e in f.Edges:
            o = [x for x in e.Faces if x is not f]
            h.check(f.get_neighbour(e) is (o[0] if o else None), 'neighbours')
    for f in g.Faces:
        f.Zone = f.Zone.Id
    for z in g.Zones:
        for i, e in enumerate(z.Edges):
            if len(e.Faces) != 2 or e.Faces[0].Zone == e.Faces[1].Zone:
                continue
            a = [f for f in e.Faces if f.Zone == z.Id][0]
            h.check(z.get_real_face(i) is a, 'real')
            h.check(z.get_ghost_face(i) is [f for f in e.Faces if f is not a][0], 'ghost')
