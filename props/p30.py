"""Outcome and trajectory of a flying drop."""
import math

PROPERTY = 'P30'
MODULES = ('utils', 'drops')
BOUNDS = ('air of 2-8 points with fixed velocities, drops of 2-3 fixed velocities (moving with the air, slower, across) from a start on any symbolic place of a line or of a plane, '
          'one or two triangles in the way, 1-5 steps of 0.3 s, 1e-7 s and 1e-10 s at most')
OUTSIDE = 'starts within 1e-6 of a border of the box or of equal distance to two air points; hits within 1e-3 of the rim; more steps'
ASSUMPTIONS = ['exact-real arithmetic for positions']
LABELS = ['start', 'steps', 'limit', 'too long', 'out', 'stop', 'hit', 'missed', 'face', 'nearest']
OPT = {'loose': True, 'inc_ms': 3000, 'query_ms': 20000}
# air: points and velocities
AIR = [((-4.0, -4.0, -4.0), (8.0, 0.0, 0.0)), ((6.0, 4.0, 4.0), (0.0, 8.0, 0.0)), ((6.0, -4.0, 4.0), (0.0, 0.0, 0.0)), ((-4.0, 4.0, 0.0), (8.0, 1.0, 0.0))]
VEL = {'with': (8.0, 0.0, 0.0), 'slow': (2.0, 1.0, 0.5), 'stop': (0.0, 0.0, 0.0), 'back': (-8.0, -6.0, 0.0)}
TRI = [((2.0, -3.0, -3.0), (2.0, 5.0, -3.0), (2.0, 0.0, 6.0)), ((-1.0, -3.0, -3.0), (-1.0, -3.0, 3.0), (-1.0, 4.0, 0.0))]

FAR = [((-3.9, -3.9, -3.9), (-3.9, -3.0, -3.9), (-3.9, -3.9, -3.0))]


def cases(tier):
    out = [('with/1', dict(vel='with', na=2, nt=1, steps=3, dim=1)), ('slow/2', dict(vel='slow', na=2, nt=2, steps=2, dim=1)),
           ('turn', dict(vel='with', na=2, nt=1, steps=3, dim=1, off=True)), ('back', dict(vel='back', na=3, nt=1, steps=2, dim=1)), ('stop', dict(vel='stop', na=1, nt=1, steps=2, dim=2)), ('plane', dict(vel='with', na=1, nt=1, steps=2, dim=2)),
           ('long', dict(vel='slow', na=2, nt=1, steps=5, dim=1, off=True)), ('short', dict(vel='slow', na=2, nt=1, steps=2, dim=1, off=True, dt=1e-7)), ('shortest', dict(vel='with', na=2, nt=1, steps=2, dim=1, off=True, dt=1e-10)), ('none', dict(vel='with', na=2, nt=1, steps=0, dim=1)), ('nearest', dict(vel='', na=4, nt=0, steps=0, dim=3))]
    if tier == 'thorough':
        out += [('with/2', dict(vel='with', na=3, nt=2, steps=4, dim=1)), ('slow/2/4', dict(vel='slow', na=3, nt=2, steps=4, dim=1)),
                ('plane/2', dict(vel='with', na=2, nt=2, steps=3, dim=2)), ('back/5', dict(vel='back', na=4, nt=2, steps=5, dim=1))]
    return out


class Back:
    pass


def dist2(p, a):
    return sum([(p[i] - a[i]) * (p[i] - a[i]) for i in range(3)])


def run(h, vel, na, nt, steps, dim, off=False, dt=0.3):
    geom, drops = h.mod('geom'), h.mod('drops')
    V = geom.Vect
    air = AIR[:na]
    if na == 1:
        air = [((-4.0, -4.0, -4.0), VEL[vel]), ((6.0, 4.0, 4.0), VEL[vel])]
    sp = drops.Space([(V(*a), V(*b)) for a, b in air], [a for a, b in air])
    lo = [min(a[i] for a, _ in air) for i in range(3)]
    hi = [max(a[i] for a, _ in air) for i in range(3)]
    if not vel:
        p = [h.real('p%s' % c, -9, 9) for c in 'xyz']
        r = sp.find_nearest(V(*p))
        k = [i for i in range(len(air)) if r is sp.Ds[i]]
        h.check(len(k) == 1, 'nearest')
        h.check(h.both(*[dist2(p, air[k[0]][0]) <= dist2(p, a) + 1e-9 for a, _ in air]), 'nearest')
        h.check(h.iff(sp.inside(V(*p)), h.both(*[h.both(p[i] >= lo[i], p[i] <= hi[i]) for i in range(3)])), 'nearest')
        return
    t = h.real('t', -9, 9)
    p = [-3.0 + 0.5 * t, -1.0 + t, 0.5 + 0.25 * t] if dim == 1 else [h.real('q', -3.5, 5), -1.0 + t, 0.25]
    tris = []
    TR = FAR if off else TRI
    for T in TR[:nt]:
        tr = geom.Triangle(*[V(*x) for x in T])
        tr.BackRef = Back()
        tris.append(tr)
    d = 1e-3
    tol = min(1e-9, max(1e-14, 1e-6 * dt))
    out, face, traj = sp.fly(V(*p), V(*VEL[vel]), d, dt, geom.TrianglesCloud(list(tris)), steps)
    P = traj.Points
    n = len(P)
    h.check(h.both(*[P[0][i] == p[i] for i in range(3)]), 'start')
    h.check(out in ('N', 'O', 'S', 'C'), 'limit')
    inb = lambda x: h.both(*[h.both(x[i] >= lo[i], x[i] <= hi[i]) for i in range(3)])
    v = VEL[vel]
    last = n - 1 if out in ('N', 'O') else n
    for k in range(n):
        for i in range(3):
            h.assume(h.both(abs(P[k][i] - lo[i]) >= 1e-6, abs(P[k][i] - hi[i]) >= 1e-6))
        if k < last and not (out == 'C' and k == n - 1):
            h.check(inb(P[k]), 'out')
        if k == n - 1 and out != 'S':
            break
        # the step from here, by the air around
        for i in range(len(air)):
            for j in range(i):
                h.assume(abs(dist2(P[k], air[i][0]) - dist2(P[k], air[j][0])) >= 1e-6)
        near = [j for j in range(len(air)) if all(h.is_true(dist2(P[k], air[j][0]) < dist2(P[k], air[m][0])) for m in range(len(air)) if m != j)]
        va = air[near[0]][1]
        w = [va[i] - v[i] for i in range(3)]
        s = math.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2])
        nxt = [P[k][i] + v[i] * dt for i in range(3)]
        if s > 0:
            re = s * d / 1.736e-5
            cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33)) if re <= 350.0 else 0.178 * math.pow(re, 0.217)
            v = [v[i] + w[i] * (dt * 0.75 * cd * 1.292 / (d * 1000.0) * s) for i in range(3)]
        if k < n - 1:
            h.check(h.both(*[abs(P[k + 1][i] - nxt[i]) <= max(tol, 1e-6 * min(dt, 1.0)) for i in range(3)]), 'steps')
        else:
            h.check(h.both(*[abs(P[k][i] - nxt[i]) <= tol for i in range(3)]), 'stop')
    if out == 'N':
        h.check(n == steps + 1, 'too long')
    else:
        h.check(n <= steps + (1 if out == 'C' else 0), 'limit')
    if out == 'O':
        h.check(h.neg(inb(P[-1])), 'out')
    h.check((face is None) == (out != 'C'), 'face')
    # which segments go through the triangles
    for k in range(n - 1):
        hits = []
        for tr, T in zip(tris, TR):
            # both triangles lie in planes x = const
            x = T[0][0]
            a, b = P[k], P[k + 1]
            h.assume(h.both(abs(a[0] - x) >= 1e-3, abs(b[0] - x) >= 1e-3))
            if not h.is_true((a[0] < x) != (b[0] < x) if not h.symbolic else h.neg(h.iff(a[0] < x, b[0] < x))):
                continue
            f = (x - a[0]) / (b[0] - a[0])
            y, z = a[1] + (b[1] - a[1]) * f, a[2] + (b[2] - a[2]) * f
            sg = []
            for i in range(3):
                (y0, z0), (y1, z1) = T[i][1:], T[(i + 1) % 3][1:]
                sg.append((y1 - y0) * (z - z0) - (z1 - z0) * (y - y0))
            for c in sg:
                h.assume(abs(c) >= 0.05)
            if h.is_true(h.any(h.both(*[c > 0 for c in sg]), h.both(*[c < 0 for c in sg]))):
                hits.append(tr)
        if out == 'C' and k == n - 2:
            h.check(any(face is tr.BackRef for tr in hits), 'hit')
        else:
            h.check(hits == [], 'missed')
