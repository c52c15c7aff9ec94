"""Zones and variables of an Ansys file are filtered."""
from symx import mesh

PROPERTY = 'P43'
MODULES = ('gsu_converter', 'ansys_to_crystal')
BOUNDS = ('files of 1-4 zones of 1-3 nodes and 0-2 elements, names out of a family in which names may be equal or one the beginning of another, any subset of the zones asked for; '
          'up to 9 variables in any of several orders, with or without units, symbolic numbers')
OUTSIDE = 'names with spaces before them; names that hold TITLE, ZONE or VARIABLES'
ASSUMPTIONS = []
STUBS = ['text of a float is a lossless token']
LABELS = ['zones', 'lines', 'names', 'columns', 'elements', 'head']
OPT = {'loose': True}
FULL = ['X', 'Y', 'Z', 'Pressure (N/m^2)', 'Static temperature (K)', 'SF1 - shear (Pa)', 'SF2 - shear (Pa)', 'Xtra', 'SF3 - shear (Pa)', 'Classical heat flux (W/m^2)']


def cases(tier):
    out = [('zones/2', dict(kind='zones', nz=2)), ('zones/3', dict(kind='zones', nz=3)), ('vars', dict(kind='vars', nz=2))]
    if tier == 'thorough':
        out += [('zones/4', dict(kind='zones', nz=4)), ('vars/3', dict(kind='vars', nz=3))]
    return out


def run(h, kind, nz):
    A = h.mod('ansys_to_crystal')
    if kind == 'zones':
        names = []
        for i in range(nz):
            # wing, then a free character, then the end or one more character
            c = h.choice('c%d' % i, ['1', '2', 'w'])
            names.append('wing' + c + ('0' if h.choice('long%d' % i, [True, False]) else ''))
        ask = [n for i, n in enumerate(['wing1', 'wing20', 'wingw']) if h.choice('ask%d' % i, [True, False])]
        variables = FULL[:4]
    else:
        names = ['zone %d' % i for i in range(nz)]
        ask = names
        k = h.choice('shift', [0, 3, 8])
        variables = FULL[:3] + FULL[3 + k:] + FULL[3:3 + k]
        variables = variables[:-1] if variables[-1] in 'XYZ' else variables
    L, Z = ['TITLE = "t"', 'VARIABLES="%s"' % '","'.join(variables)], []
    for i, n in enumerate(names):
        nn, ne = 1 + (i + nz) % 3, i % 3
        rows = [[h.real('z%d_%d_%d' % (i, j, c), -9, 9) for c in range(len(variables))] for j in range(nn)]
        els = ['1 1 1 %d' % (j + 1) for j in range(ne)]
        L.append('ZONE T="%s", N=%d, E=%d, F=FEPOINT' % (n, nn, ne))
        L += [' '.join(h.txt(x) for x in r) for r in rows] + els
        Z.append((n, L[-1 - ne - nn], rows, els))
    fn = mesh.write(h, 'in.dat', '\n'.join(L) + '\n')
    if kind == 'zones':
        A.zones_to_extract = ask
        A.filter_zones(fn, h.tmp('out.dat'))
        keep = [z for z in Z if z[0] in ask]
        sel = list(range(len(variables)))
    else:
        want = h.choice('want', [A.fensap_variables_to_extract, A.adiabatic_variables_to_extract, ['X', 'Y', 'Z', 'SF2']])
        A.filter_variables(fn, h.tmp('out.dat'), list(want))
        keep = Z
        sel = [i for i, v in enumerate(variables) if any(v == w if len(w) == 1 else v.startswith(w) for w in want)]
    got = open(h.tmp('out.dat')).read().split('\n')
    h.check(got[-1] == '', 'head')
    got = got[:-1]
    h.check(got[0] == L[0], 'head')
    if kind == 'zones':
        h.check(got[1] == L[1], 'head')
    else:
        v = [x.strip().strip('"') for x in got[1].split('=', 1)[1].split(',')]
        h.check(v == [[w for w in want if variables[i] == w or len(w) > 1 and variables[i].startswith(w)][0] for i in sel], 'names')
    p = 2
    heads = [g for g in got if g.startswith('ZONE')]
    h.check(heads == [z[1] for z in keep], 'zones')
    for n, head, rows, els in keep:
        h.check(got[p] == head, 'zones')
        p += 1
        for r in rows:
            cells = got[p].split()
            p += 1
            h.check(len(cells) == len(sel), 'columns')
            h.check(cells == [h.txt(r[i]) for i in sel], 'columns')
        h.check(got[p:p + len(els)] == els, 'elements')
        p += len(els)
    h.check(p == len(got), 'lines')
