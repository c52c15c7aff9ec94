"""The grid of the converter: reading, removing of spare nodes, writing."""

import copy

from symx import mesh

PROPERTY = 'P51'
MODULES = ('gsu_converter',)
BOUNDS = 'files of 1-2 zones of 1-3 faces with 0-2 spare nodes in any place among the others, all data symbolic; replacing of any node by another'
OUTSIDE = 'names with the equals sign; more than six decimals of the written numbers'
ASSUMPTIONS = []
STUBS = ['text of a float is a lossless token, %f rounds to six decimals']
LABELS = ['zones', 'faces', 'data', 'spare', 'written', 'replaced', 'indices']
OPT = {'loose': True}
V = ['HTC', 'Beta', 'TauX', 'TauY', 'TauZ']


def cases(tier):
    out = [('tri', dict(topos=['tri'], spare=2)), ('two', dict(topos=['two'], spare=1)), ('tri+two', dict(topos=['tri', 'two'], spare=1)), ('replace', dict(topos=['bowtie'], spare=0, rep=True)), ('replace/write', dict(topos=['two'], spare=0, rep=True, write=True))]
    if tier == 'thorough':
        out += [('strip3', dict(topos=['strip3'], spare=2)), ('two+fan3', dict(topos=['two', 'fan3'], spare=1)), ('replace/apart', dict(topos=['apart'], spare=1, rep=True))]
    return out


def get(f, v):
    return dict(HTC=f.HTC, Beta=f.Beta, TauX=f.Tau.X, TauY=f.Tau.Y, TauZ=f.Tau.Z)[v]


def pt(n):
    return (n.Point.X, n.Point.Y, n.Point.Z)


def run(h, topos, spare, rep=False, write=False):
    conv = h.mod('gsu_converter')
    L = ['# EXPORT_MODE=CHECK_POINT', 'TITLE="t"', 'VARIABLES="X", "Y", "Z", "T", "Hw", "Hi", ' + ', '.join('"%s"' % v for v in V)]
    want = []
    for zi, t in enumerate(topos):
        nn, faces = mesh.TOPO[t]
        keys = list(range(nn))
        for s in range(spare if zi == 0 else 0):
            keys.insert(h.choice('spare%d' % s, list(range(len(keys) + 1))), 100 + s)
        pos = {k: i for i, k in enumerate(keys)}
        pts = [tuple(c + 20.0 * zi for c in mesh.PTS[k]) if k < 100 else (50.0 + k, 1.5, -2.0) for k in keys]
        # numbers on the grid of the printed decimals
        D = {v: [h.intreal('%s%d_%d' % (v, zi, i), -300, 300) * 0.5 for i in range(len(faces))] for v in V}
        O = [h.real('o%d_%d' % (zi, i), -9, 9) for i in range(len(faces))]
        L += ['ZONE T="zone %d"' % zi, 'NODES=%d' % len(keys), 'ELEMENTS=%d' % len(faces), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-11]=CELLCENTERED)']
        L += [' '.join(h.txt(p[c]) for p in pts) for c in range(3)]
        L += [' '.join(h.txt(x) for x in O)] * 3
        L += [' '.join(h.txt(x) for x in D[v]) for v in V]
        L += [' '.join(str(pos[k] + 1) for k in f) for f in faces]
        want.append(([pts[pos[k]] for k in range(nn)], faces, D, pts))
    g = conv.Grid()
    g.Import(mesh.write(h, 'g.dat', '\n'.join(L) + '\n'))
    h.check([z.Title for z in g.Zones] == ['zone %d' % i for i in range(len(topos))], 'zones')
    for z, (P, faces, D, pts) in zip(g.Zones, want):
        h.check([pt(n) for n in z.Nodes] == pts, 'zones')
        judge(h, z.Faces, P, faces, D, 'faces', 'data')
    z, (P, faces, D, pts) = g.Zones[0], want[0]
    if rep and write:
        # another node of the same place for one of the corners, then the zone is put in order and written
        a = h.choice('from', list(range(len(P))))
        na = [n for n in z.Nodes if pt(n) == P[a]][0]
        nb = copy.deepcopy(na)
        nb.Id = h.choice('id', [na.Id, 0, 77])
        z.ReplaceNode(na, nb)
        if h.choice('spare', [False, True]):
            z.DeleteExtraNodes()
        z.RestoreNodesIndices()
        h.check([n.Id for n in z.Nodes] == list(range(len(z.Nodes))), 'indices')
        g.Export(h.tmp('o.dat'))
        o = h.mod('gsu').Grid()
        o.load(h.tmp('o.dat'))
        q = o.Zones[0]
        h.check([[tuple(n.P[c] for c in range(3)) for n in f.Nodes] for f in q.Faces] == [[P[x] for x in f] for f in faces], 'written')
        h.check(h.both(*[f[v] == D[v][i] for i, f in enumerate(q.Faces) for v in V]), 'written')
        return
    if rep:
        a, b = h.choice('from', list(range(5))), h.choice('to', list(range(5)))
        na = [n for n in z.Nodes if pt(n) == P[a]][0]
        nb = [n for n in z.Nodes if pt(n) == P[b]][0]
        z.ReplaceNode(na, nb)
        h.check(all(f.Nodes[j] is (nb if faces[i][j] == a else [n for n in f.Nodes][j]) for i, f in enumerate(z.Faces) for j in range(3)), 'replaced')
        h.check([[pt(n) for n in f.Nodes] for f in z.Faces] == [[P[b] if x == a else P[x] for x in f] for f in faces], 'replaced')
        h.check(len(z.Nodes) == len(pts) and not (a != b and any(n is na for n in z.Nodes)), 'replaced')
        return
    z.DeleteExtraNodes()
    h.check([pt(n) for n in z.Nodes] == [p for p in pts if p in P], 'spare')
    judge(h, z.Faces, P, faces, D, 'spare', 'spare')
    z.RestoreNodesIndices()
    h.check([n.Id for n in z.Nodes] == list(range(len(z.Nodes))), 'indices')
    g.Export(h.tmp('o.dat'))
    o = h.mod('gsu').Grid()
    o.load(h.tmp('o.dat'))
    h.check([q.Name for q in o.Zones] == ['zone %d' % i for i in range(len(topos))] and len(o.Nodes) == sum(len(w[0]) for w in want), 'written')
    for q, (P, faces, D, pts) in zip(o.Zones, want):
        h.check([[tuple(n.P[c] for c in range(3)) for n in f.Nodes] for f in q.Faces] == [[P[x] for x in f] for f in faces], 'written')
        h.check(h.both(*[f[v] == D[v][i] for i, f in enumerate(q.Faces) for v in V]), 'written')
        h.check(h.both(*[f['RecoveryFactor'] == 0 for f in q.Faces]), 'written')


def judge(h, fs, P, faces, D, l1, l2):
    h.check([[pt(n) for n in f.Nodes] for f in fs] == [[P[x] for x in f] for f in faces], l1)
    h.check(h.both(*[get(f, v) == D[v][i] for i, f in enumerate(fs) for v in V]), l2)
