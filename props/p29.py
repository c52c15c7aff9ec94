"""Local edits keep the orientation of the mesh."""
from symx import mesh
from props import edits

PROPERTY = 'P29'
BOUNDS, OUTSIDE, ASSUMPTIONS, cases = edits.BOUNDS, edits.OUTSIDE, edits.ASSUMPTIONS, edits.cases
LABELS = ['consistent', 'same side']


def judge(h, g, op, kind, target, done, ok, S):
    d = [x for f in g.Faces for x in edits.dirs(f.Nodes)]
    # each direction of an edge is used by one face at most
    h.check(len(set(d)) == len(d), 'consistent')
    if op == 'collapse':
        if done is not False:
            keep, lost = sorted(S.en[id(target)], key=lambda n: not mesh.has(g.Nodes, n))
            for f in g.Faces:
                was = [keep if n is lost else n for n in S.fn[id(f)]]
                h.check(set(edits.dirs(was)) == set(edits.dirs(f.Nodes)), 'same side')
        return
    # sides of the replaced faces that are still there are passed in the same direction
    now = set(d)
    pairs = {frozenset(x) for x in d}
    for f in S.F:
        for x in edits.dirs(S.fn[id(f)]):
            if frozenset(x) in pairs:
                h.check(x in now, 'same side')


def run(h, **k):
    edits.run(h, judge, **k)
