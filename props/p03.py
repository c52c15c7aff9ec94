"""Nodes of a file are merged exactly when they agree to ten decimals."""
from symx import mesh

PROPERTY = 'P03'
BOUNDS = ('two zones of one triangle or one zone of two; up to two nodes of the second zone lie in any (symbolic) cells of the 1e-10 grid, '
          'up to 3 cells from a node of the first zone, anywhere in the middle 80 % of the cell (the first one as well in one case)')
OUTSIDE = 'coordinates within 1e-11 of a rounding boundary; magnitudes above 1'
ASSUMPTIONS = ['exact-real arithmetic: rounding of decimal text is exact']
STUBS = ['round(x, 10) is exact decimal rounding, ties to even']
LABELS = ['merged', 'separate', 'first kept', 'off', 'count', 'edit']


def cases(tier):
    out = []
    for ax in ((0, 1), (2,)):
        out.append(('merge%s' % ''.join(map(str, ax)), dict(axes=ax, k=1, merge=True)))
    out.append(('off', dict(axes=(0,), k=1, merge=False)))
    out.append(('two', dict(axes=(0,), k=2, merge=True)))
    out += [('merge012', dict(axes=(0, 1, 2), k=1, merge=True, m=1)), ('off/own', dict(axes=(0, 2), k=1, merge=False, own=True)), ('own', dict(axes=(0, 2), k=1, merge=True, own=True))]
    out.append(('edit', dict(axes=(0, 2), k=1, merge=True, edit=True)))
    if tier == 'thorough':
        out += [('merge012/3', dict(axes=(0, 1, 2), k=1, merge=True)), ('two01', dict(axes=(0, 1), k=2, merge=True)),
                ('two2', dict(axes=(2,), k=2, merge=True)), ('off12', dict(axes=(1, 2), k=2, merge=False))]
    return out


def run(h, axes, k, merge, m=3, own=False, edit=False):
    gsu = h.mod('gsu')
    if edit:
        return run_edit(h, gsu, axes)
    top = m
    a = [(0.5, 0.25, -0.5), (-0.5, 0.75, 0.25), (0.25, -0.75, 0.5)]
    b = [list(a[i]) for i in range(k)] + [[0.75, 0.5, 0.125], [-0.25, -0.5, -0.75]][:3 - k] + [[1.0, 1.0, 1.0]] * 0
    if top == 1:
        # the first node is anywhere in its cell too
        a[0] = tuple(x + h.real('s%d' % ax, -0.4, 0.4) / 10000000000 for ax, x in enumerate(a[0]))
        base = [0.5, 0.25, -0.5]
    cells = []
    for i in range(k):
        cell = []
        for ax in axes:
            m = h.intreal('m%d_%d' % (i, ax), -top, top)
            t = h.real('t%d_%d' % (i, ax), -0.4, 0.4)
            b[i][ax] = (base if top == 1 else a[i])[ax] + (m + t) / 10000000000
            cell.append(m)
        cells.append(cell)
    spec_a, spec_b = a, [tuple(x) for x in b]
    out = ['TITLE="t"', 'VARIABLES="X", "Y", "Z"']
    # two zones, or the same nodes in one zone
    for z, pts in enumerate((spec_a, spec_b) if not own else (list(spec_a) + spec_b,)):
        out += ['ZONE T="z%d"' % z, 'NODES=%d' % len(pts), 'ELEMENTS=%d' % (1 + own), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE',
                'VARLOCATION=([4-3]=CELLCENTERED)']
        for c in range(3):
            out.append(' '.join(h.txt(h.const(p[c]) if isinstance(p[c], float) else p[c]) for p in pts))
        out.append('1 2 3' if z == 0 else '1 3 2')
        if own:
            out.append('4 6 5')
    g = gsu.Grid()
    g.load(mesh.write(h, 'a.dat', '\n'.join(out) + '\n'), is_merge_same_nodes=merge)
    fa, fb = g.Faces
    nb = [fb.Nodes[0], fb.Nodes[2], fb.Nodes[1]]
    total = 6
    for i in range(k):
        same = nb[i] is fa.Nodes[i]
        zero = h.both(*[m == 0 for m in cells[i]])
        if not merge:
            h.check(not same, 'off')
            h.check(h.both(*[nb[i].P[c] == spec_b[i][c] for c in range(3)]), 'off')
            continue
        if same:
            total -= 1
            h.check(zero, 'merged')
            h.check(h.both(*[fb.Nodes[[0, 2, 1][i]].P[c] == a[i][c] for c in range(3)]), 'first kept')
        else:
            h.check(h.neg(zero), 'separate')
            h.check(h.both(*[nb[i].P[c] == spec_b[i][c] for c in range(3)]), 'separate')
    h.check(len(g.Nodes) == total, 'count')
    h.check(sorted(n.GloId for n in g.Nodes) == list(range(total)), 'count')


def run_edit(h, gsu, axes):
    """Nodes made or moved by an edit merge with new ones in the same way."""
    geom = h.mod('geom')
    nn, faces = mesh.TOPO['octa']
    g = mesh.load(h, mesh.Spec([tuple(h.const(x) + h.const(4e-10 * ((3 * i + c) % 7)) for c, x in enumerate(p)) for i, p in enumerate(mesh.PTS[:nn])], faces))
    old = list(g.Nodes)
    pos = {id(n): [n.P[c] for c in range(3)] for n in g.Nodes}
    op = h.choice('op', ['collapse', 'cut', 'divide'])
    if op == 'collapse':
        e = next(e for e in list(g.Edges) if g.collapse_edge(e))
        a, b = e.Nodes
        p = [(x + y) / 2 for x, y in zip(pos[id(a)], pos[id(b)])]
        h.check(len(g.Nodes) == nn - 1, 'edit')
        node = [n for n in g.Nodes if n is a or n is b][0]
    else:
        e = g.Edges[3]
        f = g.Faces[2]
        p = [(pos[id(e.Nodes[0])][c] + 3 * pos[id(e.Nodes[1])][c]) / 4 if op == 'cut' else sum(pos[id(n)][c] for n in f.Nodes) / 4 for c in range(3)]
        g.cut_edge(e, geom.Vect(*p)) if op == 'cut' else g.divide_face(f, geom.Vect(*p))
        h.check(len(g.Nodes) == nn + 1, 'edit')
        node = [n for n in g.Nodes if not mesh.has(old, n)][0]
    k = len(g.Nodes)
    q, zero = list(p), []
    for ax in axes:
        m = h.intreal('m%d' % ax, -20, 20)
        q[ax] = p[ax] + (m + h.real('t%d' % ax, -0.4, 0.4)) / 10000000000
        zero.append(m == 0)
    got = g.add_node(type(node)(geom.Vect(*q)), True)
    if got is node:
        h.check(h.both(*zero), 'edit')
        h.check(len(g.Nodes) == k, 'edit')
    else:
        h.check(h.neg(h.both(*zero)), 'edit')
        h.check(len(g.Nodes) == k + 1 and g.Nodes[-1] is got, 'edit')
    # a place that was left is free
    if op == 'collapse':
        for n in (a, b):
            x = type(node)(geom.Vect(*pos[id(n)]))
            h.check(g.add_node(x, True) is x, 'edit')
