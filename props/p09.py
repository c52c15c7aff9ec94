"""Zones adjacency matrix counts every edge once, by the zones on its sides."""
import contextlib
import io
import re

from symx import mesh

PROPERTY = 'P09'
BOUNDS = 'meshes of 1-8 faces, 1-4 zones, membership of the faces symbolic; 24 faces in 12 zones, three of them in symbolic zones; names of zones different or all the same'
OUTSIDE = 'larger meshes'
ASSUMPTIONS = []
LABELS = ['matrix', 'statistics', 'cross', 'print', 'classes', 'zone']


def cases(tier):
    ts = [('tri', 1), ('two', 2), ('strip3', 3), ('fan4', 2), ('tetra', 3), ('bowtie', 2), ('apart', 2)]
    if tier == 'thorough':
        ts += [('fan4', 3), ('octa', 2), ('star', 3), ('strip4', 4), ('quad8', 2), ('diamond', 2)]
    ts.append(('sheet24', 12))
    out = [('%s/%d' % t, dict(topo=t[0], nz=t[1])) for t in ts]
    return out + [('same/%s/%d' % t, dict(topo=t[0], nz=t[1], same=True)) for t in ts[1:4]]


def run(h, topo, nz, same=False):
    gsu = h.mod('gsu')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    if nf > 8:
        zone_of = [i * nz // nf for i in range(nf)]
        for i in (1, nf // 2, nf - 2):
            zone_of[i] = [zone_of[i], 0, nz - 1][int(h.int('zone%d' % i, 0, 2))]
    else:
        zone_of = [0] + [int(h.int('zone%d' % i, 0, nz - 1)) for i in range(1, nf)]
    used = sorted(set(zone_of))
    h.assume(used == list(range(len(used))))
    k = len(used)
    # zones of one file may have the same name
    spec = mesh.Spec(mesh.PTS[:nn], faces, zone_of, ['wall'] * k if same else None)
    g = mesh.load(h, spec)
    # from the description alone
    sides = {}
    for i, f in enumerate(faces):
        for a in range(3):
            for b in range(a):
                sides.setdefault(frozenset((f[a], f[b])), []).append(zone_of[i])
    M = [[0] * (k + 1) for _ in range(k + 1)]
    for zs in sides.values():
        a, b = (zs[0], zs[1]) if len(zs) == 2 else (zs[0], k)
        M[a][b] += 1
        if a != b:
            M[b][a] += 1
    zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
    h.check(zam.M == M, 'matrix')
    st = zam.edges_statistics()
    bo = sum(M[i][k] for i in range(k))
    inn = sum(M[i][i] for i in range(k))
    cr = sum(M[i][j] for i in range(k) for j in range(i))
    h.check(tuple(st[:4]) == (len(sides), bo, inn, cr), 'statistics')
    h.check(all(abs(p - 100.0 * v / len(sides)) < 1e-9 for p, v in zip(st[4:], (bo, inn, cr))), 'statistics')
    for i in range(k):
        row = [M[i][j] if j != i else 0 for j in range(k)] + [0]
        h.check(zam.zone_cross_edges_array(i) == row, 'cross')
        h.check(zam.zone_cross_edges_count(i) == sum(row), 'cross')
        h.check(zam.zone_cross_borders_count(i) == sum(1 for x in row if x), 'cross')
        h.check(zam.zone_max_cross_border_len(i) == max(row), 'cross')
    h.check(zam.max_cross_border_len() == max(M[i][j] for i in range(k) for j in range(k) if i != j) if k > 1 else zam.max_cross_border_len() == 0, 'cross')
    h.check(zam.M == M, 'matrix')
    for e in g.Edges:
        zs = [f.Zone for f in e.Faces]
        h.check(e.is_border() == (len(zs) == 1), 'classes')
        h.check(e.is_cross() == (len(zs) == 2 and zs[0] is not zs[1]), 'classes')
        h.check(e.is_inner() == (len(zs) == 2 and zs[0] is zs[1]), 'classes')
        for za in g.Zones:
            for zb in g.Zones:
                h.check(e.is_connect_zones(za, zb) == (len(zs) == 2 and {id(za), id(zb)} == {id(z) for z in zs}), 'classes')
    for i, z in enumerate(g.Zones):
        h.check(z.faces_count() == zone_of.count(i), 'zone')
        h.check(z.edges_count() == sum(M[i]), 'zone')
        h.check(z.outer_edges_count() == sum(M[i]) - M[i][i], 'zone')
    for i, z in enumerate(g.Zones):
        outer = sum(M[i]) - M[i][i]
        if outer:
            h.check(abs(z.zone_quality_factor() - zone_of.count(i) ** 0.5 / outer) < 1e-9, 'zone')
    for a in g.Edges:
        for b in g.Edges:
            h.check(a.is_adjacent_with(b) == any(n is m for n in a.Nodes for m in b.Nodes), 'classes')
    if all(sum(M[i]) - M[i][i] for i in range(k)):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            g.print_info(True, True, True)
        h.check(printed(out.getvalue(), g, M, k, len(sides), (bo, inn, cr), [zone_of.count(i) for i in range(k)]), 'print')


NUM = re.compile(r'-?\d+\.?\d*')


def printed(text, g, M, k, ec, counts, sizes):
    """The numbers of the text are those of the grid, line by line (the words are free)."""
    # names of zones of the mesh hold numbers: compare without them
    lines = []
    for l in text.replace(g.Name, '').split('\n'):
        for z in sorted(g.Zones, key=lambda z: -len(z.Name)):
            l = l.replace(z.Name, '')
        if NUM.search(l):
            lines.append([float(x) for x in NUM.findall(l)])
    q = [sizes[i] ** 0.5 / (sum(M[i]) - M[i][i]) for i in range(k)]
    mean = sum(sizes) / k
    want = [[len(g.Nodes), ec, sum(sizes), k]]
    want += [[x for c in counts for x in (c, 100.0 * c / ec)]]
    want += [[sizes[i], sum(M[i]) - M[i][i], q[i]] for i in range(k)]
    want += [[max(sizes), 100.0 * (max(sizes) - mean) / mean], [min(q), max(q)]]
    want += [list(r) for r in M]
    want += [[max([M[i][j] for i in range(k) for j in range(k) if i != j] or [0])]]
    return len(want) == len(lines) and all(len(a) == len(b) and all(abs(x - y) <= 0.0051 for x, y in zip(a, b)) for a, b in zip(want, lines))
