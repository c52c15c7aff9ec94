"""One step of a flying drop."""
import math

PROPERTY = 'P31'
MODULES = ('utils', 'drops')
BOUNDS = ('any point and velocity in [-100, 100], air velocity differing from that of the drop by any multiple (up to 100) of 3 fixed directions or not at all, '
          'any diameter in [1e-6, 1e-2] and time step in (0, 1]')
OUTSIDE = 'other directions of the relative velocity; exactness of the powers of the drag law (an unknown monotone function)'
ASSUMPTIONS = ['exact-real arithmetic', 'math.pow(x, c) is a positive, strictly monotone function of x for each exponent']
LABELS = ['position', 'low', 'high', 'toward air', 'rest']
OPT = {'loose': True, 'inc_ms': 5000, 'query_ms': 40000}
DIRS = [(0.6, 0.0, -0.8), (0.0, -1.0, 0.0), (2 / 3.0, 1 / 3.0, 2 / 3.0)]


def cases(tier):
    return [('%s/%d' % (k, i), dict(k=k, i=i)) for k in ('low', 'high') for i in ((0, 1) if tier == 'quick' else (0, 1, 2))] + [('rest', dict(k='rest', i=0))]


def run(h, k, i):
    geom, drops = h.mod('geom'), h.mod('drops')
    V = geom.Vect
    sp = drops.Space([(V(0.0, 0.0, 0.0), V(0.0, 0.0, 0.0))], [(0.0, 0.0, 0.0)])
    p = [h.real('p%s' % c, -100, 100) for c in 'xyz']
    v = [h.real('v%s' % c, -100, 100) for c in 'xyz']
    d, dt = h.real('d', 1e-6, 1e-2), h.real('dt', 1e-9, 1)
    if k == 'rest':
        np, nv = sp.fly_step(V(*p), V(*v), V(*v), d, dt)
        for j in range(3):
            h.close(np[j], p[j] + v[j] * dt, 'position')
            h.close(nv[j], v[j], 'rest')
        return
    s = h.real('s', 1e-6, 100)
    from fractions import Fraction
    u = [h.const(Fraction(x).limit_denominator(30)) if h.symbolic else x for x in DIRS[i]]
    va = [v[j] + u[j] * s for j in range(3)]
    re = s * d / 1.736e-5
    h.assume(re <= 349.99 if k == 'low' else re >= 350.01)
    np, nv = sp.fly_step(V(*p), V(*v), V(*va), d, dt)
    if k == 'low':
        cd = (24 / re) * (1 + 0.166 * math.pow(re, 0.33))
    else:
        cd = 0.178 * math.pow(re, 0.217)
    kap = dt * 0.75 * cd * 1.292 / (d * 1000.0) * s
    h.le(0, kap, 'toward air')
    for j in range(3):
        h.close(np[j], p[j] + v[j] * dt, 'position')
        h.close(nv[j], v[j] + (u[j] * s) * kap, k, tol=1e-6)
