"""Calculated data reach the faces of their ids."""
from symx import mesh

PROPERTY = 'P13'
RANDOM = True
BOUNDS = ('meshes of 2-6 faces and of 24, possibly after an edge was collapsed or faces were reordered; files with any (symbolic) subset of the ids in any order, '
          '1-3 symbolic columns')
OUTSIDE = 'larger meshes; malformed files; ids that are not in the grid'
ASSUMPTIONS = ['random.random() returns any value of [0, 1)']
STUBS = ['text of a float with >= 17 significant digits is a lossless token']
LABELS = ['loaded', 'kept', 'stored', 'clean', 'stall']


def cases(tier):
    out = [('load/two', dict(topo='two', rows=2)), ('load/fan3', dict(topo='fan3', rows=2)), ('load/edit', dict(topo='strip4', rows=2, edit=True)),
           ('load/sheet24', dict(topo='sheet24', rows=2)), ('store/fan3', dict(topo='fan3', rows=0)), ('clean', dict(topo='two', rows=-1))]
    if tier == 'thorough':
        out += [('load/strip4', dict(topo='strip4', rows=3)), ('load/star', dict(topo='star', rows=4)),
                ('load/octa/edit', dict(topo='octa', rows=3, edit=True)), ('store/octa', dict(topo='octa', rows=0, edit=True))]
    return out


def run(h, topo, rows, edit=False):
    gsu = h.mod('gsu')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    names = ['T', 'Hw', 'Hi']
    extra = ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ', 'Beta', 'StallT', 'VX', 'Sta']
    data = {v: [h.real('%s%d' % (v, i), -99, 99) for i in range(nf)] for v in names}
    if rows < 0:
        data.update({v: [h.real('%s%d' % (v, i), -99, 99) for i in range(nf)] for v in extra})
    g = mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces, [i % 2 for i in range(nf)], None, list(data), data))
    if edit:
        # the ids of the faces no longer follow the list
        g.collapse_edge(next(e for e in g.Edges if len(e.Faces) == 2 and gsu.Grid.is_edge_collapsible(e))
                        if hasattr(gsu.Grid, 'is_edge_collapsible') else g.Edges[0])
        nf = len(g.Faces)
    g.Faces.reverse()
    old = {id(f): (f.GloId, dict(f.Data)) for f in g.Faces}
    if rows < 0:
        g.convert_grid_stall_to_check_point()
        for f in g.Faces:
            o = old[id(f)][1]
            h.check(sorted(f.Data) == sorted(names + extra[5:]), 'stall')
            h.check(h.both(*[f[v] == o[v] for v in names + extra[5:]]), 'stall')
        g.clean_t_hw_hi()
        for f in g.Faces:
            h.check(h.both(*[f[v] == 0 for v in names] + [f[v] == old[id(f)][1][v] for v in extra[5:]]), 'clean')
        return
    if rows == 0:
        g.store_faces_calc_data(h.tmp('c.txt'))
        g.load_faces_calc_data(h.tmp('c.txt'))
        for f in g.Faces:
            o = old[id(f)]
            h.check(f.GloId == o[0] and sorted(f.Data) == sorted(names), 'stored')
            for v in names:
                # the test data added while storing is a number of [0, 1)
                h.check(f[v] >= o[1][v] - 1e-9, 'stored')
                h.check(f[v] <= o[1][v] + 1 + 1e-9, 'stored')
        return
    n = int(h.int('n', 1, rows))
    ids = [int(h.int('id%d' % k, 0, nf - 1)) if nf < 9 or not k else h.choice('id%d' % k, [0, 10, nf - 1]) for k in range(n)]
    h.assume(len(set(ids)) == n)
    nv = int(h.int('nv', 1, 2 if rows == 2 else 3))
    # the columns of the file: any order, other variables than the grid has
    cols = h.choice('cols', [names, ['Hi', 'T', 'Hw'], ['Hw', 'Beta', 'T'], ['MImp', 'T', 'Hi']])[:nv]
    val = [[h.real('v%d_%d' % (k, j), -99, 99) for j in range(nv)] for k in range(n)]
    text = 'VARIABLES="GloId", ' + ', '.join('"%s"' % c for c in cols) + '\n'
    for i, row in zip(ids, val):
        text += ' '.join([str(i)] + [h.txt(x) for x in row]) + '\n'
    g.load_faces_calc_data(mesh.write(h, 'd.txt', text))
    h.check(len(g.Faces) == nf, 'kept')
    for f in g.Faces:
        gid, o = old[id(f)]
        h.check(f.GloId == gid, 'kept')
        if gid in ids:
            h.check(h.both(*[f[c] == x for c, x in zip(cols, val[ids.index(gid)])]), 'loaded')
        else:
            h.check(h.both(*[f[v] == o[v] for v in names]), 'kept')
