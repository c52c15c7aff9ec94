"""Count of remeshing steps."""
from symx import mesh

PROPERTY = 'P34'
MODULES = ('utils', 'remeshing')
BOUNDS = 'grids of 1-5 faces of fixed shapes with symbolic heights; symbolic least and greatest counts in 0..12; part of faces to ignore any of 6 values, side factor any of 3'
OUTSIDE = 'negative heights; heights above 8 times the side factor of the shortest side; heights within 1e-6 (relative) of a multiple of the step'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['bounds', 'refused', 'ignored', 'largest need', 'a need', 'greatest']
OPT = {'loose': True}


def cases(tier):
    out = [('tri', dict(topo='tri')), ('two', dict(topo='two')), ('fan3', dict(topo='fan3')), ('bad', dict(topo='tri', bad=True))]
    if tier == 'thorough':
        out += [('tetra', dict(topo='tetra')), ('strip3', dict(topo='strip3'))]
    return out


def run(h, topo, bad=False):
    remeshing = h.mod('remeshing')
    nn, faces = mesh.TOPO[topo]
    nf = len(faces)
    g = mesh.load(h, mesh.Spec(mesh.PTS[:nn], faces, variables=['Hi'], data={'Hi': [0.0] * nf}))
    fact = h.choice('fact', [0.1, 1.0, 0.5])
    hi, need = [], []
    for i, f in enumerate(g.Faces):
        P = [n.P for n in f.Nodes]
        side = min(P[a].dist_to(P[b]) for a, b in ((0, 1), (1, 2), (0, 2))) * fact
        # the height in units of the step: a count and a part of it
        k = int(h.int('k%d' % i, 0, 7 if nf < 3 else 3))
        r = h.real('r%d' % i, 1e-6, 1 - 1e-6)
        f['Hi'] = (k + r) * side
        need.append(k + 1)
    lo, hi = h.int('lo', 0, 12), h.int('hi', 0, 12)
    part = h.choice('part', [0.05, 0.34, 0.5, 0.67, 0.0, 0.99])
    T = remeshing.TongRemesher('g.dat', None, '.')
    T.grid = g
    T.nsteps_min, T.nsteps_max, T.nsteps_hi_side_fact, T.nsteps_ignore_part = lo, hi, fact, part
    if bad:
        h.assume(lo > hi)
        try:
            T.calculate_nsteps()
        except Exception as e:
            h.check('nsteps' in str(e), 'refused')
            return
        h.fail('refused')
        return
    h.assume(lo <= hi)
    n = T.calculate_nsteps()
    h.check(h.both(n >= lo, n <= hi), 'bounds')
    m = int(nf * part)
    srt = sorted(need, reverse=True)
    # no count within the limit serves all but the ignored faces
    if h.is_true(srt[m] > hi):
        h.check(n == hi, 'greatest')
        return
    h.check(h.any(n == hi, n == lo, *[n == k for k in need]), 'a need')
    more = 0
    for k in need:
        more = more + h.ite(n < k, 1, 0)
    h.check(more <= m, 'ignored')
    if m > 0:
        h.check(h.implies(srt[0] <= hi, n == h.ite(lo > srt[0], lo, srt[0])), 'largest need')
