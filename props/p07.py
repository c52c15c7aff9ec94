"""Hierarchical decomposition halves zones at the median of the best axis."""
from symx import mesh

PROPERTY = 'P07'
BOUNDS = ('meshes of 1-5 faces with symbolic centres (one or two coordinates of the nodes symbolic, the rest fixed), levels 1-3, '
          '24 faces with fixed signs and 4 levels, 12 faces with some symbolic signs, default axes and symbolic user-given sign functions')
OUTSIDE = 'larger meshes; more than 3 levels'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['zones', 'median', 'best axis', 'unsplit', 'nonempty']


def cases(tier):
    out = [('signs3/two', dict(topo='two', axes=3, levels=2)), ('signs2/strip3', dict(topo='strip3', axes=2, levels=2)),
           ('signs1/fan4', dict(topo='fan4', axes=1, levels=2)), ('signs1/strip3/l3', dict(topo='strip3', axes=1, levels=3)),
           ('coords/two', dict(topo='two', axes=0, levels=2)), ('coords/strip3', dict(topo='strip3', axes=0, levels=2)),
           ('tri', dict(topo='tri', axes=1, levels=2)), ('one', dict(topo='strip3', axes=1, levels=1))]
    out += [('signs2/sheet12', dict(topo='sheet12', axes=2, levels=2, free=1)), ('signs3/sheet24/l4', dict(topo='sheet24', axes=3, levels=4, free=0))]
    out += [('signs5/two', dict(topo='two', axes=5, levels=2, free=1))]
    if tier == 'thorough':
        out += [('signs3/strip3', dict(topo='strip3', axes=3, levels=2)), ('signs2/fan4', dict(topo='fan4', axes=2, levels=2)),
                ('signs2/tetra', dict(topo='tetra', axes=2, levels=2)), ('signs1/tetra/l3', dict(topo='tetra', axes=1, levels=3)),
                ('signs1/octa', dict(topo='strip4', axes=1, levels=3)), ('coords/fan3', dict(topo='fan3', axes=0, levels=2)),
                ('signs1/apart', dict(topo='apart', axes=2, levels=2))]
    return out


def run(h, topo, axes, levels, free=99):
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    if axes:
        signs = [[h.real('s%d_%d' % (a, i), -9, 9) if i < free else float((i * (5 + 2 * a) + a) % (nf + 1 + a)) * 0.5 - 4 for i in range(nf)] for a in range(axes)]
        g = mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces))
        where = mesh.idx(g.Faces)
        funs = [(lambda f, a=a: signs[a][where[id(f)]]) for a in range(axes)]
        g.decompose_hierarchical(funs, levels=levels)
    else:
        pts = [tuple((h.real('p%d_%d' % (i, c), -9, 9) if i < 2 and c < 2 else h.const(mesh.PTS[i][c])) for c in range(3)) for i in range(nn)]
        g = mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces))
        for n, p in zip(g.Nodes, pts):
            n.P = h.mod('geom').Vect(*p)
        where = mesh.idx(g.Faces)
        signs = [[sum(pts[n][c] for n in f) / 3 for f in faces] for c in range(3)]
        axes = 3
        g.decompose_hierarchical(levels=levels)
    groups = sorted(sorted(where[id(f)] for f in z.Faces) for z in g.Zones)
    h.check(sorted(sum(groups, [])) == list(range(nf)) and 1 <= len(groups) <= 2 ** (levels - 1), 'zones')
    h.check(all(groups), 'nonempty')
    if levels == 1:
        h.check(len(groups) == 1, 'zones')
        return
    # undo the last splits: a zone of the previous level is one or two zones of the result
    by = {z.Name: sorted(where[id(f)] for f in z.Faces) for z in g.Zones}
    judge(h, g, signs, axes, list(range(nf)), groups, levels - 1)


def judge(h, g, signs, axes, fs, groups, depth):
    """groups is a legal result of `depth` rounds of splitting fs."""
    if depth == 0:
        h.check(groups == [fs], 'zones')
        return
    n = len(fs)
    if n < 2:
        h.check(groups == [fs], 'unsplit')
        return
    # face i goes left on axis a: no more than n // 2 faces have a sign not above its sign
    left = []
    for a in range(axes):
        row = {}
        for i in fs:
            cnt = 0
            for j in fs:
                cnt = cnt + h.ite(signs[a][j] <= signs[a][i], 1, 0)
            row[i] = cnt <= n // 2
        left.append(row)
    ok = [h.any(*[left[a][i] for i in fs]) for a in range(axes)]
    cut = []
    for a in range(axes):
        c = 0
        for e in g.Edges:
            ij = [k for k, f in enumerate(g.Faces) if mesh.has(e.Faces, f)]
            if len(ij) == 2 and ij[0] in fs and ij[1] in fs:
                c = c + h.ite(h.iff(left[a][ij[0]], left[a][ij[1]]), 0, 1)
        cut.append(c)
    if len(groups) == 1:
        h.check(h.neg(h.any(*ok)), 'unsplit')
        return
    # which unions of the result can be the left half (depth 1: a single zone)
    def matches(lset, a):
        return h.both(*[(left[a][i] if i in lset else h.neg(left[a][i])) for i in fs])
    best = [h.both(ok[a], *[h.implies(ok[b], cut[a] <= cut[b]) for b in range(axes)]) for a in range(axes)]
    cand = []
    for mask in range(1, 2 ** len(groups) - 1):
        cand.append(sorted(sum([groups[k] for k in range(len(groups)) if mask >> k & 1], [])))
    h.check(h.any(*[matches(l, a) for l in cand for a in range(axes)]), 'median')
    h.check(h.any(*[h.both(best[a], matches(l, a)) for l in cand for a in range(axes)]), 'best axis')
    if depth == 1:
        return
    # descend into the halves the best axis gives
    for l in cand:
        for a in range(axes):
            if h.is_true(h.both(best[a], matches(l, a))):
                gl = [x for x in groups if set(x) <= set(l)]
                gr = [x for x in groups if not set(x) <= set(l)]
                judge(h, g, signs, axes, l, gl, depth - 1)
                judge(h, g, signs, axes, sorted(set(fs) - set(l)), gr, depth - 1)
                return
