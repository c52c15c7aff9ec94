"""Breadth first paths over faces."""
from symx import mesh

PROPERTY = 'P08'
BOUNDS = 'meshes of 1-8 faces (24 with five free faces), symbolic predicate on faces, symbolic start face, marks left by earlier walks symbolic'
OUTSIDE = 'larger meshes'
ASSUMPTIONS = []
LABELS = ['covers', 'once', 'order', 'component']


def cases(tier):
    ts = ('tri', 'strip3', 'fan4', 'apart', 'bowtie', 'tetra') if tier == 'quick' else \
        ('tri', 'two', 'strip3', 'strip4', 'fan4', 'apart', 'bowtie', 'tetra', 'star', 'octa', 'quad8', 'diamond')
    out = [(t, dict(topo=t)) for t in ts]
    out.append(('sheet24', dict(topo='sheet24', free=5)))
    if tier == 'thorough':
        out += [('sheet24/9', dict(topo='sheet24', free=9)), ('sheet48', dict(topo='sheet48', free=8))]
    return out


def run(h, topo, free=0):
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    g = mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces))
    # in a big mesh some faces are out, some may be (they cut the sheet into parts)
    keep = [h.bool('p%d' % i) if not free or i % (nf // free) == 3 else i % 4 != 1 for i in range(nf)]
    where = mesh.idx(g.Faces)
    s = int(h.int('start', 0, nf - 1)) if not free else h.choice('start', [0, nf // 2, nf - 1])
    for k, f in enumerate(g.Faces):
        f.bfs_mark = bool(k % 2)
    path = g.bfs_path(g.Faces[s], lambda f: keep[where[id(f)]])
    p = [where[id(f)] for f in path]
    keep = [h.is_true(b) for b in keep]
    h.check(len(set(p)) == len(p), 'once')
    h.check(sorted(p) == [i for i in range(nf) if keep[i]], 'covers')
    adj = {i: [] for i in range(nf)}
    for e in g.Edges:
        if len(e.Faces) == 2:
            a, b = where[id(e.Faces[0])], where[id(e.Faces[1])]
            adj[a].append(b)
            adj[b].append(a)
    # components come one after another, the first is that of the start
    if keep[s]:
        h.check(p[0] == s, 'order')
    seen, i = set(), 0
    while i < len(p):
        dist, q = {p[i]: 0}, [p[i]]
        for x in q:
            for y in adj[x]:
                if keep[y] and y not in dist:
                    dist[y] = dist[x] + 1
                    q.append(y)
        block = p[i:i + len(q)]
        h.check(sorted(block) == sorted(q), 'component')
        ds = [dist.get(x, -1) for x in block]
        h.check(ds == sorted(ds), 'order')
        i += len(q)
