"""Loading builds a consistent mesh, and refuses one that is not a surface."""
from symx import mesh

PROPERTY = 'P02'
BOUNDS = ('files with 3-5 distinct points and 2-3 triangles whose corners are arbitrary (symbolic) points of the file, '
          'in any order, in one zone or in two zones (symbolic); 5 points two of which have the same place, without merging')
OUTSIDE = 'larger meshes; triangles with a repeated corner; malformed text'
ASSUMPTIONS = ['points of the file are pairwise different unless nodes are not merged (merging of equal points: P03)']
STUBS = ['integers of the connectivity lists are lossless tokens']
LABELS = ['accepted', 'incidence', 'refused', 'geometry']


def cases(tier):
    out = [('p4f2z2', dict(np=4, nf=2, nz=2)), ('p4f3z1', dict(np=4, nf=3, nz=1)), ('p5f3z1s', dict(np=5, nf=3, nz=1, sort=True)),
           ('p4f3z2s', dict(np=4, nf=3, nz=2, sort=True)), ('seam', dict(np=5, nf=2, nz=1, seam=True))]
    if tier == 'thorough':
        out += [('p5f3z1', dict(np=5, nf=3, nz=1)), ('p5f4z1s', dict(np=5, nf=4, nz=1, sort=True)),
                ('p5f3z2', dict(np=5, nf=3, nz=2, sort=True)), ('p5f4z2s', dict(np=5, nf=4, nz=2, sort=True))]
    return out


def run(h, np, nf, nz, sort=False, seam=False):
    # along a seam points of the file have the same coordinates and stay apart when nodes are not merged
    pts = list(mesh.PTS[:np])
    if seam:
        pts[np - 1] = pts[0]
    gsu = h.mod('gsu')
    faces = [(0, 1, 2)]
    zone_of = [0]
    for i in range(1, nf):
        t = [h.int('c%d_%d' % (i, k), 0, np - 1) for k in range(3)]
        h.assume(h.both(t[0] != t[1], t[0] != t[2], t[1] != t[2]))
        if sort:
            h.assume(h.both(t[0] < t[1], t[0] < t[2]))
        faces.append(tuple(t))
        zone_of.append(int(h.int('z%d' % i, 0, nz - 1)))
    # the number of faces on each pair of points, as a term over the symbolic corners
    worst = 0
    for a in range(np):
        for b in range(a):
            n = 0
            for f in faces:
                on = lambda p: h.any(*[c == p for c in f])
                n = n + h.ite(h.both(on(a), on(b)), 1, 0)
            worst = h.ite(n > worst, n, worst)
    # the text: points of a zone are listed by their global number; corners are written as symbolic integers
    out = ['# x', 'TITLE="t"', 'VARIABLES="X", "Y", "Z", "T"']
    for z in range(nz):
        fs = [i for i in range(nf) if zone_of[i] == z]
        out += ['ZONE T="z%d"' % z, 'NODES=%d' % np, 'ELEMENTS=%d' % len(fs), 'DATAPACKING=BLOCK',
                'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-4]=CELLCENTERED)']
        for c in range(3):
            out.append(' '.join(h.txt(pts[n][c]) for n in range(np)))
        out.append(' '.join(h.txt(float(i)) for i in fs))
        for i in fs:
            out.append(' '.join(h.itxt(c + 1) for c in faces[i]))
    g = gsu.Grid()
    p = mesh.write(h, 'a.dat', '\n'.join(out) + '\n')
    try:
        g.load(p, is_merge_same_nodes=not seam)
    except Exception:
        h.check(worst > 2, 'refused')
        return
    h.check(worst <= 2, 'accepted')
    errs = [e for e in mesh.incidence_errors(g) if e not in ('node without faces',)]
    h.check(errs == [], 'incidence')
    h.check(len(g.Faces) == nf and len(g.Nodes) == np, 'geometry')
    order = [i for z in range(nz) for i in range(nf) if zone_of[i] == z]
    for f, i in zip(g.Faces, order):
        ks = [h.both(*[n.P[c] == pts[int(k)][c] for c in range(3)]) for n, k in zip(f.Nodes, faces[i])]
        h.check(h.both(*ks), 'geometry')
        h.check(f['T'] == float(i), 'geometry')
    # the number of edges is the number of pairs of points on some face
    pairs = set()
    for f in faces:
        for a in range(3):
            for b in range(a):
                pairs.add(frozenset((int(f[a]), int(f[b]))))
    h.check(len(g.Edges) == len(pairs), 'incidence')
