"""An edit that cannot be done is refused and leaves the mesh as it was."""
from symx import mesh
from props import edits

PROPERTY = 'P28'
BOUNDS, OUTSIDE, ASSUMPTIONS, cases = edits.BOUNDS, edits.OUTSIDE, edits.ASSUMPTIONS, edits.cases
LABELS = ['done', 'refused', 'unchanged', 'changed']


def judge(h, g, op, kind, target, done, ok, S):
    if op == 'divide':
        return
    d = S.differs(h)
    if ok:
        h.check(done is True, 'done')
        h.check(d != '', 'changed')
    else:
        h.check(done is False, 'refused')
        h.check(d == '', 'unchanged')


def run(h, **k):
    edits.run(h, judge, **k)
