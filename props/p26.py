"""Counts and global ids after local edits."""
from symx import mesh
from props import edits

PROPERTY = 'P26'
BOUNDS, OUTSIDE, ASSUMPTIONS, cases = edits.BOUNDS, edits.OUTSIDE, edits.ASSUMPTIONS, edits.cases
LABELS = ['ids', 'kept ids', 'counts']


def judge(h, g, op, kind, target, done, ok, S):
    h.check(mesh.id_errors(g) == [], 'ids')
    now = (len(g.Faces), len(g.Edges), len(g.Nodes))
    was = (len(S.F), len(S.E), len(S.N))
    add = edits.ADDS[kind] if done is not False else (0, 0, 0)
    h.check(tuple(b - a for a, b in zip(was, now)) == add, 'counts')
    h.check(len(g.Zones) == len(S.Z), 'counts')
    # what was there before keeps its id, as long as the id is still in the range
    for objs in (g.Faces, g.Edges, g.Nodes):
        for o in objs:
            if id(o) in S.ids and S.ids[id(o)] < len(objs):
                h.check(o.GloId == S.ids[id(o)], 'kept ids')


def run(h, **k):
    edits.run(h, judge, **k)
