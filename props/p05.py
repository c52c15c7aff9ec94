"""Sizes of the zones of linear and Farhat decompositions."""
from symx import mesh
from props.p04 import snapshot

PROPERTY = 'P05'
BOUNDS = 'meshes of 1-9 and of 24 faces (linear: 48), any (symbolic) zone count from 1 to faces + 2, any initial zones (symbolic)'
OUTSIDE = 'larger meshes'
ASSUMPTIONS = []
LABELS = ['zones', 'balance', 'contiguous', 'all faces', 'connected']


def cases(tier):
    out = [('linear/strip%d' % n, dict(n=n, kind='linear')) for n in (1, 2, 3, 4, 5, 7)]
    out += [('farhat/%s' % t, dict(topo=t, kind='farhat')) for t in ('tri', 'strip3', 'fan4', 'octa', 'apart', 'sheet24')]
    out.append(('linear/sheet48', dict(topo='sheet48', kind='linear')))
    if tier == 'thorough':
        out += [('linear/strip%d' % n, dict(n=n, kind='linear')) for n in (6, 8, 9)]
        out += [('farhat/%s' % t, dict(topo=t, kind='farhat')) for t in ('two', 'tetra', 'bowtie', 'strip4', 'star', 'quad8', 'diamond', 'sheet48')]
    return out


def strip(n):
    return n + 2, [((i, i + 1, i + 2) if i % 2 == 0 else (i + 1, i, i + 2)) for i in range(n)]


def run(h, kind, n=None, topo=None):
    gsu = h.mod('gsu')
    nn, faces = strip(n) if n else mesh.TOPO[topo]
    pts = [(float(i), float(i * i), float(i % 3)) for i in range(nn)]
    nf = len(faces)
    zone_of = [0] + [int(h.int('zone%d' % i, 0, 1)) for i in range(1, min(3, nf))] + [1 % min(nf, 2)] * max(0, nf - 3)
    used = sorted(set(zone_of))
    h.assume(used == list(range(len(used))))
    g = mesh.load(h, mesh.Spec(pts, faces, zone_of))
    cnt = h.int('count', 1, nf + 2)
    c = int(cnt)
    if kind == 'linear':
        g.decompose_linear(c)
    else:
        g.decompose_farhat(c)
    sizes = [len(z.Faces) for z in g.Zones]
    h.check(len(sizes) == c, 'zones')
    h.check(sum(sizes) == nf and len({id(f) for z in g.Zones for f in z.Faces}) == nf, 'all faces')
    h.check(max(sizes) - min(sizes) <= 1 and sorted(sizes, reverse=True) == sizes, 'balance')
    if kind == 'linear':
        order = [id(f) for z in g.Zones for f in z.Faces]
        h.check(order == [id(f) for f in g.Faces], 'contiguous')
    if kind == 'farhat':
        # each zone is cut from the faces left over by a breadth first walk: it is connected unless the
        # leftover component was smaller than the zone
        left = list(g.Faces)
        for z in g.Zones:
            comp_sizes = components(left)
            mine = components(z.Faces)
            if len(z.Faces) and len(mine) > 1:
                # all but one of its components are whole components of what was left
                whole = [sorted(map(id, c)) for c in comp_sizes]
                n = sum(1 for c in mine if sorted(map(id, c)) not in whole)
                h.check(n <= 1, 'connected')
            else:
                h.check(True, 'connected')
            left = [f for f in left if not mesh.has(z.Faces, f)]


def components(fs):
    fs = list(fs)
    out = []
    while fs:
        comp, i = [fs.pop(0)], 0
        while i < len(comp):
            for e in comp[i].Edges:
                for f in e.Faces:
                    if mesh.has(fs, f):
                        fs = [x for x in fs if x is not f]
                        comp.append(f)
            i += 1
        out.append(comp)
    return out
