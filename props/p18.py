"""Order and equality of vectors."""
PROPERTY = 'P18'
BOUNDS = ('all triples of vectors in [-100, 100]; in each coordinate any two are either equal (pairs: up to 1e-11) or at least 1e-9 apart '
          '(the tolerance of the code, 1e-10, lies between)')
OUTSIDE = 'other differences below 1e-9, where a relation with a tolerance cannot be transitive'
ASSUMPTIONS = ['exact-real arithmetic']
LABELS = ['less', 'equal', 'asymmetric', 'transitive', 'total', 'sorted']


def cases(tier):
    return [('pair', dict(k='pair')), ('triple', dict(k='triple')), ('sort', dict(k='sort', n=3))] + \
        ([('sort4', dict(k='sort', n=4))] if tier == 'thorough' else [])


def rel(h, a, b):
    """-1, 0, 1 as a forked value of each coordinate."""
    if h.is_true(abs(a - b) <= 1e-11):
        return 0
    return -1 if h.is_true(a < b) else 1


def run(h, k, n=2):
    V = h.mod('geom').Vect
    n = {'pair': 2, 'triple': 3, 'sort': n}[k]
    dims = 3 if k == 'pair' else 2
    # each coordinate repeats an earlier one (in pairs: up to 1e-11), or is at least 1e-9 away from all of them
    xs = [[0.0] * 3 for _ in range(n)]
    for c in range(dims if n < 4 else 1):
        of = []
        for i in range(n):
            k0 = h.choice('of%d%d' % (c, i), list(range(i + 1)))
            if k0 < i:
                h.assume(of[k0] == k0)
                xs[i][c] = xs[k0][c] + h.real('d%d%d' % (c, i), -1e-11, 1e-11) if k == 'pair' else xs[k0][c]
            else:
                xs[i][c] = h.real('%s%d' % ('xyz'[c], i), -100, 100)
                for j in range(i):
                    if of[j] == j:
                        h.assume(abs(xs[i][c] - xs[j][c]) >= 1e-9)
            of.append(k0)
    vs = [V(*x) for x in xs]
    R = {}
    for i in range(n):
        for j in range(n):
            if i < j:
                r = 0
                for c in range(3):
                    r = rel(h, vs[i][c], vs[j][c])
                    if r:
                        break
                R[i, j], R[j, i] = r, -r
    for i in range(n):
        for j in range(n):
            if i == j:
                h.check(h.neg(vs[i] < vs[i]), 'less')
                h.check(vs[i] == vs[i], 'equal')
                continue
            lt = h.is_true(vs[i] < vs[j])
            if R[i, j] != 0:
                h.check(lt == (R[i, j] < 0), 'less')
                h.check(h.neg(vs[i] == vs[j]), 'equal')
                h.check(lt != h.is_true(vs[j] < vs[i]), 'total')
            else:
                h.check(vs[i] == vs[j], 'equal')
            h.check(not (lt and h.is_true(vs[j] < vs[i])), 'asymmetric')
    if k == 'triple':
        if R[0, 1] < 0 and R[1, 2] < 0:
            h.check(vs[0] < vs[2], 'transitive')
    if k == 'sort':
        s = sorted(vs)
        p = [next(i for i in range(n) if vs[i] is v) for v in s]
        h.check(sorted(p) == list(range(n)), 'sorted')
        for x in range(n):
            for y in range(x):
                h.check(R[p[y], p[x]] <= 0, 'sorted')
