"""The mesh is a valid mesh after every local edit."""
from symx import mesh
from props import edits

PROPERTY = 'P25'
BOUNDS, OUTSIDE, ASSUMPTIONS, cases = edits.BOUNDS, edits.OUTSIDE, edits.ASSUMPTIONS, edits.cases
LABELS = ['mesh', 'zones', 'shape']


def judge(h, g, op, kind, target, done, ok, S):
    h.check(mesh.incidence_errors(g, zones=False, ids=False) == [], 'mesh')
    h.check(mesh.zone_errors(g) == [], 'zones')
    if done is False:
        return
    old = {id(f) for f in S.F}
    oldn = {id(n) for n in S.N}
    new = [f for f in g.Faces if id(f) not in old]
    gone = [f for f in S.F if not mesh.has(g.Faces, f)]
    nn = [n for n in g.Nodes if id(n) not in oldn]
    if op == 'divide':
        # the new node with each of the sides
        h.check(len(nn) == 1 and gone == [target], 'shape')
        want = [{id(a), id(b), id(nn[0])} for a, b in sides(S, target)]
    elif op in ('cut', 'cut1'):
        h.check(len(nn) == 1, 'shape')
        a, b = S.en[id(target)]
        want = [{id(o), id(x), id(nn[0])} for f in S.ef[id(target)] for o in [opposite(S, f, target)] for x in (a, b)]
    elif op == 'cut2':
        h.check(len(nn) == 2, 'shape')
        a, b = S.en[id(target)]
        # the point given first is on the side of the first node of the edge
        u, v = [[n for n in nn if same(n, p)][0] for p in points(h, g, nn)]
        want = [w for f in S.ef[id(target)] for o in [opposite(S, f, target)]
                for w in ({id(o), id(a), id(u)}, {id(o), id(u), id(v)}, {id(o), id(v), id(b)})]
    elif op == 'flip':
        f, m = target
        h.check(nn == [], 'shape')
        u, v = [opposite(S, x, m) for x in S.ef[id(m)]]
        want = [{id(u), id(v), id(x)} for x in S.en[id(m)]]
    else:
        want = []
        a, b = S.en[id(target)]
        keep = [n for n in (a, b) if mesh.has(g.Nodes, n)]
        h.check(len(keep) == 1 and nn == [] and new == [], 'shape')
        for i in range(3):
            h.close(keep[0].P[i], (S.pos[id(a)][i] + S.pos[id(b)][i]) / 2, 'shape')
        h.check(sorted(map(id, gone)) == sorted(map(id, S.ef[id(target)])), 'shape')
        lost = b if keep[0] is a else a
        for f in g.Faces:
            h.check({id(n) for n in f.Nodes} == {id(keep[0]) if n is lost else id(n) for n in S.fn[id(f)]}, 'shape')
        return
    got = [{id(n) for n in f.Nodes} for f in new]
    h.check(len(got) == len(want) and all(w in got for w in want), 'shape')
    # everything else is as it was
    for f in g.Faces:
        if id(f) in old:
            h.check([id(n) for n in f.Nodes] == [id(n) for n in S.fn[id(f)]], 'shape')
    for n in S.N:
        h.check(h.both(*[n.P[i] == S.pos[id(n)][i] for i in range(3)]), 'shape')


def sides(S, f):
    n = S.fn[id(f)]
    return [(n[0], n[1]), (n[1], n[2]), (n[2], n[0])]


def opposite(S, f, e):
    return [n for n in S.fn[id(f)] if not mesh.has(S.en[id(e)], n)][0]


def same(n, p):
    return abs(n.P.X - p) < 1e-9


def points(h, g, nn):
    return sorted(n.P.X for n in nn)


def run(h, **k):
    edits.run(h, judge, **k)
