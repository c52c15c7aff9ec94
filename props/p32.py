"""Secondary impingement from file to file."""
import math
from symx import mesh

PROPERTY = 'P32'
MODULES = ('utils', 'drops')
BOUNDS = ('4 faces that are not joined, two of them with drops; symbolic stall values and threshold, symbolic start distance and time step (drops that move with the air) or fixed ones (drag); '
          'velocities of 4 kinds; 0-3 steps at most')
OUTSIDE = 'two drops that reach the same face; the accumulation of values over several drops; faces of a grid without MImp2'
ASSUMPTIONS = ['exact-real arithmetic']
STUBS = ['text of a float is a lossless token']
LABELS = ['faces', 'variables', 'zero', 'kept', 'hit', 'not hit', 'trajectories', 'way']
OPT = {'loose': True}
E0, E1 = [(0.0, -1.0, -1.0), (0.0, 2.0, -1.0), (0.0, -1.0, 2.0)], [(0.0, 9.0, -1.0), (0.0, 12.0, -1.0), (0.0, 9.0, 2.0)]
T0, T1 = [(3.0, -4.0, -4.0), (3.0, 4.0, -4.0), (3.0, 0.0, 6.0)], [(3.0, 6.0, -4.0), (3.0, 14.0, -4.0), (3.0, 10.0, 6.0)]
VELS = [(4.0, 0.0, 0.0), (3.0, 10.0, 0.25), (1.0, -8.0, 0.0), (0.0, 0.0, 0.0)]


def cases(tier):
    out = [('sym/%d' % v, dict(vel=v, steps=2, drag=False)) for v in (0, 1)] + [('drag/%d' % v, dict(vel=v, steps=3, drag=True)) for v in (0, 2)] + [('none', dict(vel=0, steps=0, drag=False)), ('dry', dict(vel=0, steps=1, drag=False, water=0.0))]
    if tier == 'thorough':
        out += [('sym3/%d' % v, dict(vel=v, steps=3, drag=False)) for v in (0, 1, 2, 3)] + [('drag/%d' % v, dict(vel=v, steps=3, drag=True)) for v in (1, 3)]
    return out


def run(h, vel, steps, drag, water=1.0):
    drops = h.mod('drops')
    gsu = h.mod('gsu')
    stall = [h.real('stall%d' % i, 0, 10) for i in range(2)]
    thr = h.real('thr', 0, 10)
    first = h.choice('first', [0, 1])
    faces, pts, kind = [], [], ['E0', 'E1', 'T0', 'T1'] if first == 0 else ['T1', 'E1', 'T0', 'E0']
    geo = dict(E0=E0, E1=E1, T0=T0, T1=T1)
    for i, k in enumerate(kind):
        faces.append((3 * i, 3 * i + 1, 3 * i + 2))
        pts += geo[k]
    v = VELS[vel]
    names = ['T', 'Hw', 'Hi', 'Beta', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ', 'MImp2']
    data = {n: [] for n in names}
    for i, k in enumerate(kind):
        e = k[0] == 'E'
        row = [3.0 + i, water, 2.0, h.real('beta%d' % i, -9, 9), stall[int(k[1])] if e else 0.0, 1e-3] + \
            list(v) + [h.real('m%d' % i, -9, 9)]
        if not e:
            h.assume(thr >= 0)
        for n, x in zip(names, row):
            data[n].append(x)
    gf = mesh.write(h, 'g.dat', mesh.Spec(pts, faces, [0, 0, 0, 0], None, names, data).text(h))
    va = (1.0, 0.5, 0.0) if drag else v
    box = [(-1.0, -20.0, -20.0), (5.0, 20.0, 20.0)]
    L = ['TITLE="air"', 'VARIABLES="X", "Y", "Z"', 'ZONE ET=FEBRICK T a DATA Nodes 2 Elements is 0 F']
    for b in box:
        L.append(' '.join(h.txt(x) for x in b + (0.0, 0.0) + va))
    af = mesh.write(h, 'air.dat', '\n'.join(L) + '\n')
    if drag:
        d, dt = 0.125, 0.5
    else:
        # the start may lie within the emitters' sides, past them, or past the targets
        d, dt = h.real('dist', 1e-6, 4.5), h.real('dt', 0.01, 2)
    drops.drops(gf, af, h.tmp('o.dat'), d, dt, thr, steps)
    # what every wet face reaches
    new = {}
    ways = []
    for i, k in enumerate(kind):
        if k[0] != 'E' or not h.is_true(stall[int(k[1])] > thr):
            continue
        p = [0.0 + d, 10.0 if k == 'E1' else 0.0, 0.0]
        w = list(v)
        way = [p]
        ways.append(way)
        for s in range(steps):
            if not all(h.is_true(h.both(p[c] >= box[0][c], p[c] <= box[1][c])) for c in range(3)):
                break
            if not any(w):
                # a drop at rest stays
                break
            q = [p[c] + w[c] * dt for c in range(3)]
            r = [va[c] - w[c] for c in range(3)]
            m = math.sqrt(sum(x * x for x in r))
            if m > 0:
                re = m * 1e-3 / 1.736e-5
                cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33)) if re <= 350.0 else 0.178 * math.pow(re, 0.217)
                w = [w[c] + r[c] * (dt * 0.75 * cd * 1.292 / (1e-3 * 1000.0) * m) for c in range(3)]
            way.append(q)
            hit = None
            h.assume(h.both(abs(p[0] - 3) >= 1e-4, abs(q[0] - 3) >= 1e-4))
            # only the targets are ahead: no drop starts or returns behind the emitters
            if h.is_true(p[0] < 3) and h.is_true(q[0] > 3):
                f = (3.0 - p[0]) / (q[0] - p[0])
                y, z = p[1] + (q[1] - p[1]) * f, p[2] + (q[2] - p[2]) * f
                for j, kk in enumerate(kind):
                    if kk[0] != 'T':
                        continue
                    sg = []
                    for c in range(3):
                        (y0, z0), (y1, z1) = geo[kk][c][1:], geo[kk][(c + 1) % 3][1:]
                        sg.append((y1 - y0) * (z - z0) - (z1 - z0) * (y - y0))
                    for c in sg:
                        h.assume(abs(c) >= 0.05)
                    if all(h.is_true(c > 0) for c in sg):
                        hit = j
            if hit is not None:
                h.assume(hit not in new)
                new[hit] = stall[int(k[1])] / 40.0
                break
            p = q
    g = gsu.Grid()
    g.load(h.tmp('o.dat'))
    h.check(len(g.Faces) == 4, 'faces')
    for i, f in enumerate(g.Faces):
        h.check([tuple(n.P[c] for c in range(3)) for n in f.Nodes] == geo[kind[i]], 'faces')
        h.check(sorted(f.Data) == ['Beta', 'Hi', 'Hw', 'MImp2', 'T'], 'variables')
        h.check(h.both(f['T'] == 0, f['Hw'] == 0, f['Hi'] == 0), 'zero')
        h.check(f['Beta'] == data['Beta'][i], 'kept')
        if i in new:
            h.close(f['MImp2'], new[i], 'hit')
        else:
            h.close(f['MImp2'], data['MImp2'][i], 'not hit')
    t = open(h.tmp('o.dat.tr.dat')).read()
    zones = t.split('ZONE T="Trajectory-')[1:]
    h.check(len(zones) == len(ways), 'trajectories')
    for z, way in zip(zones, ways):
        L = [x for x in z.split('\n')[1:] if x.strip()]
        k = [i for i, x in enumerate(L) if '=' not in x][0]
        head = [x.replace(' ', '') for x in L[:k]]
        h.check('NODES=%d' % len(way) in head and 'ELEMENTS=%d' % (len(way) - 1) in head, 'trajectories')
        cols = [[h.num(x) for x in l.split()] for l in L[k:k + 3]]
        h.check(all(len(c) == len(way) and None not in c for c in cols), 'trajectories')
        h.check(h.both(*[abs(cols[c][i] - q[c]) <= 1e-9 for i, q in enumerate(way) for c in range(3)]), 'way')
        h.check([[int(x) for x in l.split()] for l in L[k + 3:]] == [[i + 1, i + 2, i + 2] for i in range(len(way) - 1)], 'trajectories')
