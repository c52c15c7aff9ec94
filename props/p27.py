"""New faces of a local edit get the data and the zone of the face they replace."""
from symx import mesh
from props import edits

PROPERTY = 'P27'
BOUNDS, OUTSIDE, ASSUMPTIONS, cases = edits.BOUNDS, edits.OUTSIDE, edits.ASSUMPTIONS, edits.cases
LABELS = ['data', 'zone', 'others', 'own', 'stored']


def judge(h, g, op, kind, target, done, ok, S):
    old = {id(f) for f in S.F}
    new = [f for f in g.Faces if id(f) not in old]
    for f in g.Faces:
        if id(f) in old:
            h.check(f.Zone is S.fz[id(f)], 'others')
            h.check(sorted(f.Data) == sorted(S.fd[id(f)]), 'others')
            h.check(h.both(*[f[v] == S.fd[id(f)][v] for v in f.Data]), 'others')
    if done is False:
        h.check(new == [], 'others')
        return
    src = {}
    if op == 'divide':
        src = {id(f): target for f in new}
    elif op in ('cut', 'cut1', 'cut2'):
        for f in new:
            # the new faces of a face share its corner opposite to the cut edge
            c = [o for o in S.ef[id(target)] if mesh.has(f.Nodes, [n for n in S.fn[id(o)] if not mesh.has(S.en[id(target)], n)][0])]
            h.check(len(c) == 1, 'data')
            src[id(f)] = c[0]
    for f in new:
        if op == 'flip':
            # the pair keeps the zones of the pair, and the data of the face that was asked for
            o = target[0]
        else:
            o = src[id(f)]
            h.check(f.Zone is S.fz[id(o)], 'zone')
        h.check(sorted(f.Data) == sorted(S.fd[id(o)]), 'data')
        h.check(h.both(*[f[v] == S.fd[id(o)][v] for v in S.fd[id(o)]]), 'data')
    if op == 'flip':
        zs = lambda fs: sorted(id(z) for z in fs)
        h.check(zs(f.Zone for f in new) == zs(S.fz[id(f)] for f in S.F if not mesh.has(g.Faces, f)), 'zone')
    # data are not shared between faces
    h.check(len({id(f.Data) for f in g.Faces}) == len(g.Faces), 'own')


def run(h, **k):
    g = edits.run(h, judge, **k)
    g.store(h.tmp('o.dat'))
    r = h.mod('gsu').Grid()
    r.load(h.tmp('o.dat'), is_merge_same_nodes=k['topo'] not in ('twins', 'meet'))
    a, b = mesh.face_rows(g), mesh.face_rows(r)
    h.check(len(a) == len(b) == len(g.Faces), 'stored')
    for (z, p, d), (z2, p2, d2) in zip(a, b):
        h.check(z == z2 and sorted(d) == sorted(d2), 'stored')
        h.check(h.both(*[x == y for u, v in zip(p, p2) for x, y in zip(u, v)]), 'stored')
        h.check(h.both(*[d[v] == d2[v] for v in d]), 'stored')
