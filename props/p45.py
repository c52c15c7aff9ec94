"""Conversion of Lazurit blocks."""
import os
from symx import mesh

PROPERTY = 'P45'
MODULES = ('utils',)
BOUNDS = '1-2 blocks of 2-4 x 2-4 nodes, symbolic data of all cells, numbers broken into lines in any of 3 ways; directories with missing, unpaired or wrong files'
OUTSIDE = 'larger blocks; blocks with more than one layer (refused by an assertion)'
ASSUMPTIONS = []
STUBS = ['text of a float is a lossless token']
LABELS = ['zones', 'cells', 'cover', 'corners', 'data', 'shear', 'refused']
OPT = {'loose': True}
VARS = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ')


def cases(tier):
    out = [('3x2', dict(blocks=[(3, 2)])), ('2x3+2x2', dict(blocks=[(2, 3), (2, 2)])), ('bad', dict(blocks=[(2, 2), (2, 2)], bad=True))]
    if tier == 'thorough':
        out += [('4x3', dict(blocks=[(4, 3)])), ('3x4+4x2', dict(blocks=[(3, 4), (4, 2)])), ('2x2+3x3+2x2', dict(blocks=[(2, 2), (3, 3), (2, 2)]))]
    return out


def wrap(L, w):
    return '\n'.join('  ' + '  '.join(L[i:i + w]) for i in range(0, len(L), w)) + '\n'


def run(h, blocks, bad=False):
    os.makedirs(h.tmp('d'))
    w = h.choice('wrap', [1, 3, 5])
    spec = []
    for b, (ni, nj) in enumerate(blocks):
        pts = [(4.0 * i + j + 50.0 * b, 3.0 * j - 0.5 * i, 0.25 * i * j) for j in range(nj) for i in range(ni)]
        nc = (ni - 1) * (nj - 1)
        data = {v: [h.real('%s%d_%d' % (v, b, c), -99, 99) for c in range(nc)] for v in VARS}
        name = 'T-15000_B-%d%s.TEC' % (b + 1, '.5' if b else '')
        G = 'FILETYPE = GRID\nVARIABLES = X Y Z\nZONE T="1_Block-1"\nI= %5d J= %5d K=     1\nZONETYPE = Ordered, DATAPACKING = BLOCK\n STRANDID= 1 SOLUTIONTIME= 2.0\n' % (ni, nj)
        mesh.write(h, 'd/TEC_WALL_Grid_' + name, G + wrap([h.txt(p[c]) for c in range(3) for p in pts], w))
        mesh.write(h, 'd/TEC_WALL_Solution_' + name, '1\n2\n3\n4\n5\n6\n' + wrap([h.txt(x) for v in VARS for x in data[v]], w))
        spec.append((ni, nj, pts, data))
    mesh.write(h, 'd/readme.txt', 'x')
    if bad:
        k = h.choice('bad', ['odd', 'unpaired', 'moment', 'grids', 'solutions', 'none'])
        names = sorted(os.listdir(h.tmp('d')))
        g, s = [x for x in names if 'Grid' in x], [x for x in names if 'Sol' in x]
        if k == 'odd':
            os.remove(h.tmp('d/' + s[0]))
        elif k == 'unpaired':
            os.rename(h.tmp('d/' + s[1]), h.tmp('d/TEC_WALL_Solution_T-15000_B-7.TEC'))
        elif k == 'moment':
            os.rename(h.tmp('d/' + s[1]), h.tmp('d/TEC_WALL_Solution_T-20000_B-2.5.TEC'))
        elif k == 'grids':
            os.rename(h.tmp('d/' + s[1]), h.tmp('d/TEC_WALL_Grid_T-15000_B-7.TEC'))
        elif k == 'solutions':
            os.rename(h.tmp('d/' + g[1]), h.tmp('d/TEC_WALL_Solution_T-15000_B-7.TEC'))
        src = h.tmp('d') if k != 'none' else h.tmp('nowhere')
        try:
            h.script('convert/lazurit_to_crystal.py', src, h.tmp('o.dat'))
        except Exception as e:
            h.check(type(e) is Exception, 'refused')
            return
        h.fail('refused')
        return
    rc = h.script('convert/lazurit_to_crystal.py', h.tmp('d'), h.tmp('o.dat'))
    h.check(not rc, 'zones')
    g = h.mod('gsu').Grid()
    g.load(h.tmp('o.dat'))
    h.check([z.Name for z in g.Zones] == ['B-%d%s' % (b + 1, '.5' if b else '') for b in range(len(blocks))], 'zones')
    for z, (ni, nj, pts, data) in zip(g.Zones, spec):
        at = {p: i for i, p in enumerate(pts)}
        h.check(len(z.Faces) == 2 * (ni - 1) * (nj - 1), 'cells')
        cells = {}
        for f in z.Faces:
            ids = [at.get(tuple(n.P[c] for c in range(3))) for n in f.Nodes]
            h.check(None not in ids and len(set(ids)) == 3, 'corners')
            i, j = min(x % ni for x in ids), min(x // ni for x in ids)
            h.check(max(x % ni for x in ids) == i + 1 and max(x // ni for x in ids) == j + 1, 'corners')
            cells.setdefault((i, j), []).append(ids)
            c = i + j * (ni - 1)
            h.check(sorted(f.Data) == sorted(VARS), 'data')
            for v in VARS[:5]:
                h.check(f[v] == data[v][c], 'data')
            for v in VARS[5:]:
                h.check(f[v] == -data[v][c], 'shear')
        h.check(len(cells) == (ni - 1) * (nj - 1), 'cells')
        for (i, j), t in cells.items():
            h.check(len(t) == 2, 'cells')
            a, b, c, d = i + j * ni, i + 1 + j * ni, i + 1 + (j + 1) * ni, i + (j + 1) * ni
            sides = {(x[k], x[(k + 1) % 3]) for x in t for k in range(3)}
            # the same direction for all cells: i first, then j, turned over
            rim = {(a, d), (d, c), (c, b), (b, a)}
            h.check(rim <= sides and len(sides) == 6, 'cover')
