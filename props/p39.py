"""Options of the remesher."""
from symx import mesh

PROPERTY = 'P39'
MODULES = ('utils', 'remeshing')
BOUNDS = 'any value of any one option, of all but any one, of all, of none and of unknown keys; no file of options'
OUTSIDE = 'other subsets of the keys; values of wrong types'
ASSUMPTIONS = []
STUBS = ['text of a float is a lossless token']
LABELS = ['value', 'default', 'verbose']
KEYS = {'export_stl': ('export_stl', False), 'remesh_verbose': ('verbose', False), 'remesh_nsteps_min': ('nsteps_min', 0), 'remesh_nsteps_max': ('nsteps_max', 10),
        'remesh_nsteps_hi_side_fact': ('nsteps_hi_side_fact', 0.1), 'remesh_nsteps_ignore_part': ('nsteps_ignore_part', 0.05), 'remesh_nsmooth_steps': ('nsmooth_steps', 0),
        'remesh_nsmooth_s': ('nsmooth_s', 10.0), 'remesh_nsmooth_k': ('nsmooth_k', 0.15), 'remesh_hsmooth_steps': ('hsmooth_steps', 0), 'remesh_hsmooth_alfa': ('hsmooth_alfa', 0.2),
        'remesh_hsmooth_beta': ('hsmooth_beta', 0.1), 'remesh_rest_volume_redistr': ('rest_volume_redistr', True), 'remesh_nss_steps': ('nss_steps', 0), 'remesh_nss_epsilon': ('nss_epsilon', 0.01),
        'remesh_nss_st': ('nss_st', 0.2), 'remesh_nss_fix_nodes': ('nss_fix_nodes', True), 'remesh_pseudo_2d_oz': ('pseudo_2d_oz', False)}


def cases(tier):
    return [(k, dict(kind=k)) for k in ('one', 'but one', 'all', 'none', 'no file', 'unknown')]


def run(h, kind):
    remeshing = h.mod('remeshing')
    names = list(KEYS)
    if kind in ('one', 'but one'):
        k = h.choice('key', names)
        keys = [k] if kind == 'one' else [x for x in names if x != k]
    else:
        keys = names if kind == 'all' else []
    vals, L = {}, []
    for k in keys:
        d = KEYS[k][1]
        if isinstance(d, bool):
            vals[k] = h.choice('flag', [True, False])
            L.append('"%s": %s' % (k, 'true' if vals[k] else 'false'))
        elif isinstance(d, int):
            vals[k] = h.int(k, 0, 99)
            L.append('"%s": %s' % (k, h.itxt(vals[k])))
        else:
            vals[k] = h.real(k, -99, 99)
            L.append('"%s": %s' % (k, h.txt(vals[k])))
    if kind == 'unknown':
        L = ['"nsteps_max": 7', '"remesh_unknown": 3', '"split_strategy": "h4"']
    p = None if kind == 'no file' else mesh.write(h, 'o.json', '{%s}' % ', '.join(L))
    verb = h.choice('verb', [None, False, True])
    T = remeshing.TongRemesher('g.dat', p, 'dir') if verb is None else remeshing.TongRemesher('g.dat', p, 'dir', verbose=verb)
    for k in names:
        a, d = KEYS[k]
        want = vals.get(k, d)
        if a == 'verbose':
            h.check(T.verbose == (want or bool(verb)), 'verbose')
        else:
            h.same(getattr(T, a), want, 'value' if k in vals else 'default')
