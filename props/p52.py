"""Laws of the materials follow their tables."""


PROPERTY = 'P52'
MODULES = ('phys.laws',)
BOUNDS = 'linear laws over the tables of the module and over tables of 3-5 symbolic values, at any argument within the table; fits of a cubic and a quartic to each table of the module against any other coefficients'
OUTSIDE = 'arguments outside of the table; fitting itself (scipy) except for its result'
ASSUMPTIONS = ['exact-real arithmetic', 'scipy evaluates a spline as the sum of its basis functions']
STUBS = ['scipy.interpolate splines: evaluation by de Boor from their knots and coefficients']
LABELS = ['table', 'between', 'fit', 'polynomial', 'constant', 'monotone', 'range']
OPT = {'loose': True, 'query_ms': 60000, 'nra_first': True}
# name of the table -> range of values, how they change with temperature
TABLES = {'_water_dynamic_viscosity_data': (2e-4, 2e-3, -1), '_water_specific_heat_capacity_data': (4000, 4400, -1), '_ice_specific_heat_capacity_data': (1800, 2100, 1),
          '_air_specific_heat_capacity_data': (1000, 1110, 0), '_vaporization_specific_heat_data': (0, 2600, -1), '_sublimation_specific_heat_data': (2.8e6, 2.95e6, -1)}


def cases(tier):
    return [(k.strip('_'), dict(kind='linear', table=k)) for k in TABLES] + [('fit/' + k.strip('_'), dict(kind='fit', table=k)) for k in TABLES] + [('rest', dict(kind='rest'))]


def value(X, Y, x, h):
    """Straight lines between the points of the table."""
    for i in range(len(X) - 1):
        if i == len(X) - 2 or h.is_true(x <= X[i + 1]):
            return i, Y[i] + (x - X[i]) * ((Y[i + 1] - Y[i]) / (X[i + 1] - X[i]))


def run(h, kind, table=None):
    laws = h.mod('phys.laws')
    if kind == 'rest':
        c, x = h.real('c', -99, 99), h.real('x', -99, 99)
        h.check(laws.ConstLaw(c)(x) == c, 'constant')
        k = [h.real('k%d' % i, -9, 9) for i in range(5)]
        near = lambda a, b: h.both(a - b <= 1e-3, b - a <= 1e-3)
        h.assume(h.both(x >= -3, x <= 3))
        h.check(near(laws._cubic(x, *k[:4]), ((k[0] * x + k[1]) * x + k[2]) * x + k[3]), 'polynomial')
        h.check(near(laws._quadro(x, *k), (((k[0] * x + k[1]) * x + k[2]) * x + k[3]) * x + k[4]), 'polynomial')
        return
    T = getattr(laws, table)
    X, Y = list(T['x']), list(T['y'])
    lo, hi, way = TABLES[table]
    s = max(abs(y) for y in Y)
    if kind == 'linear':
        h.check(len(X) == len(Y) and all(a < b for a, b in zip(X, X[1:])), 'table')
        x = h.real('x', X[0], X[-1])
        law = laws.LinearLaw(T)
        i, w = value(X, Y, x, h)
        v = law(x)
        h.check(h.both(v - w <= 1e-6 * s, w - v <= 1e-6 * s), 'between')
        h.check(h.both(v >= lo - 1e-6 * s, v <= hi), 'range')
        h.check((Y[i + 1] - Y[i]) * way >= 0, 'monotone')
        for a, b in zip(X, Y):
            d = float(law(a)) - b
            h.check(abs(d) <= 1e-6 * s, 'table')
        return
    for f, n in ((laws._cubic, 4), (laws._quadro, 5)):
        law = laws.FuncLaw(T, f)
        p = [float(q) for q in law.popt]
        h.check(len(p) == n, 'fit')
        x = h.real('x', X[0], X[-1])
        v, w = law(x), 0.0
        for q in p:
            w = w * x + q
        h.check(h.both(v - w <= 1e-6 * s, w - v <= 1e-6 * s), 'polynomial')
        # no other coefficients come nearer to the table: residuals of any combination of the basis are not lower
        r = [float(law(a)) - b for a, b in zip(X, Y)]
        m = max(abs(a) for a in X)
        d = [h.real('d%d' % j, -1, 1) for j in range(n)]
        # scale: each basis function is at most one
        tot, base = 0.0, sum((q / s) ** 2 for q in r)
        for a, q in zip(X, r):
            u = sum(d[j] * ((a / m) ** (n - 1 - j)) for j in range(n)) + q / s
            tot = tot + u * u
        h.check(tot >= base - 1e-6, 'fit')
