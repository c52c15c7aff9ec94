"""
Library shims and the loader of the code under test (symbolic mode only; replay uses neither).

* modules under REPO/crysgsu are compiled from the current source; the only rewriting is `a % b`,
  which becomes a call that also understands text formatting of proxies;
* `float` and `int` in these modules also read the text tokens of symbolic values;
* math / numpy / statistics / random / json functions get wrappers that act only on proxies.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import math
import os
import random
import re
import statistics
import sys
import types
from fractions import Fraction

import numpy as np

from . import core, symstr
from .core import SymNum, SymBool, sym_sqrt, sym_pow, Unsupported

REPO = os.environ.get('SYMX_REPO', '/repo')
SRC = os.path.join(REPO, 'crysgsu')


# -- text formatting with % ----------------------------------------------------------------------

_spec = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def has_sym(x, depth=3):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if depth == 0:
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e, depth - 1) for e in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (SymNum, SymBool)) for e in x.flat)
    return False


def mod_op(a, b):
    if isinstance(a, str) and has_sym(b):
        args = b if isinstance(b, tuple) else (b,)
        it = iter(args)

        def rep(m):
            if m.group(5) == '%':
                return '%'
            v = b[m.group(1)] if m.group(1) else next(it)
            if isinstance(v, SymBool):
                v = bool(v)
            t = m.group(5)
            if isinstance(v, SymNum):
                if t in 'sra':
                    return str(v)
                if t in 'diu':
                    return ('%' + (m.group(2) or '') + (m.group(3) or '') + t) % int(v)
                p = m.group(4)
                v = v.as_float()
                return format(v, ('.' + p if p is not None else '.6') + t)
            return m.group(0) % (v,) if not m.group(1) else m.group(0) % b
        return _spec.sub(rep, a)
    return a % b


class _ModRewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            new = ast.Call(func=ast.Name(id='__symx_mod__', ctx=ast.Load()),
                           args=[node.left, node.right], keywords=[])
            return ast.copy_location(new, node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_ModRewrite().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        inject(module)
        super().exec_module(module)


def inject(module):
    d = module.__dict__
    d['__symx_mod__'] = mod_op
    d['float'] = FloatShim
    d['int'] = IntShim


def run_script(path, argv):
    path = os.path.join(SRC, path)
    with open(path, 'rb') as f:
        tree = ast.parse(f.read(), path)
    code = compile(ast.fix_missing_locations(_ModRewrite().visit(tree)), path, 'exec', dont_inherit=True)
    m = types.ModuleType('__main__')
    m.__file__ = path
    inject(m)
    old = sys.argv
    sys.argv = [path] + [str(a) for a in argv]
    try:
        exec(code, m.__dict__)
    except SystemExit as e:
        return e.code or 0
    finally:
        sys.argv = old
    return 0


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        parts = name.split('.')
        for base in (SRC, os.path.join(SRC, 'convert')):
            p = os.path.join(base, *parts)
            if os.path.isfile(os.path.join(p, '__init__.py')):
                f = os.path.join(p, '__init__.py')
                return importlib.util.spec_from_file_location(
                    name, f, loader=_Loader(name, f), submodule_search_locations=[p])
            if os.path.isfile(p + '.py'):
                return importlib.util.spec_from_file_location(name, p + '.py', loader=_Loader(name, p + '.py'))
            if base == SRC and len(parts) == 1 and os.path.isdir(p):
                # a package without __init__
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                spec.submodule_search_locations = [p]
                return spec
        return None


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or (isinstance_sym(x) and x.kind == 'f')

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is FloatShim

    def __hash__(cls):
        return hash(builtins.float)


def isinstance_sym(x):
    return type(x) is SymNum


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance_sym(x):
            return x.as_float()
        if type(x) is SymBool:
            return x.num().as_float()
        if isinstance(x, str) and core.ENG is not None:
            r = core.ENG.parse(x)
            if r is not None:
                return r.as_float()
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or (isinstance_sym(x) and x.kind == 'i')

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is builtins.int or o is IntShim

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance_sym(x):
            return x.trunc()
        if type(x) is SymBool:
            return x.num()
        if type(x) is symstr.SymStr and not a:
            return x.to_int()
        if isinstance(x, str) and core.ENG is not None and not a:
            r = core.ENG.parse(x)
            if r is not None:
                return r.trunc()
        return builtins.int(x, *a)


# -- numeric library -----------------------------------------------------------------------------

_orig = {}


def _patch(mod, name, make):
    orig = getattr(mod, name)
    _orig[(mod.__name__, name)] = orig
    setattr(mod, name, make(orig))


def _un(fn):
    """Wrapper for a one-argument function."""
    def make(orig):
        def w(x, *a, **k):
            if type(x) is SymNum:
                return fn(x, *a, **k)
            return orig(x, *a, **k)
        w.__name__ = getattr(orig, '__name__', 'w')
        return w
    return make


def _isclose(orig):
    def w(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not has_sym([a, b, rel_tol, abs_tol]):
            return orig(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
            return a == b
        a, b = SymNum.lift(a), SymNum.lift(b)
        import z3
        if a.nn and b.nn and isinstance(rel_tol, float) and 0 < rel_tol < 1 and not isinstance(abs_tol, SymNum) and abs_tol == 0:
            q = 1 - Fraction(rel_tol)
            return bool(SymBool(z3.And((a * q <= b).e, (b * q <= a).e)))
        d = abs(a - b)
        aa, bb = abs(a), abs(b)
        rt = SymNum.lift(rel_tol)
        at = SymNum.lift(abs_tol)
        return bool(SymBool(z3.Or((d <= rt * aa).e, (d <= rt * bb).e, (d <= at).e)))
    return w


def _caller_in_repo(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(SRC)


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = 0
    for j in range(n):
        sub = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = m[0][j] * _det(sub)
        s = s + t if j % 2 == 0 else s - t
    return som(s)


def som(x):
    if isinstance(x, SymNum) and x.sq is None:
        import z3
        return SymNum(z3.simplify(x.e, som=True), x.kind, nn=x.nn)
    return x


def _rows(a):
    return [list(r) for r in a]


def _inv(m):
    m = _rows(m)
    n = len(m)
    d = _det(m)
    if d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            co = _det(sub) if n > 1 else 1
            out[i, j] = (co if (i + j) % 2 == 0 else -co) / d
    return out


def _norm(orig):
    def w(x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            return orig(x, ord, axis, keepdims)
        if keepdims:
            raise Unsupported('norm keepdims')
        x = np.asarray(x, dtype=object)
        if x.ndim > 1 and axis is None and ord is not None:
            raise Unsupported('norm ord')
        if ord == 1:
            return abs(x).sum(axis=axis)
        if ord == np.inf:
            return np.max(abs(x), axis=axis)
        if ord not in (None, 2):
            raise Unsupported('norm ord')
        s = (x * x).sum(axis=axis)
        if isinstance(s, np.ndarray):
            out = np.empty(s.shape, dtype=object)
            for i, v in np.ndenumerate(s):
                out[i] = sym_sqrt(v)
            return out
        return sym_sqrt(s)
    return w


def _narrow(t):
    if t is None or t is object:
        return False
    t = np.dtype(t)
    return t.kind in 'iu' or t.kind == 'f' and t.itemsize < 8


def _narrowed(r, t):
    if _narrow(t):
        kind = np.dtype(t).type
        for i, v in np.ndenumerate(r):
            r[i] = core.narrow(v, t) if isinstance(v, SymNum) else kind(v)
    return r


class _Narrow(np.ndarray):
    """Array of symbolic numbers. If it holds fewer digits than a double, what is stored in it is narrowed."""
    narrow = None

    def __array_finalize__(self, o):
        self.narrow = getattr(o, 'narrow', None)

    def __setitem__(self, k, v):
        if self.narrow is not None:
            v = _narrowed(np.asarray(v, dtype=object).copy(), self.narrow)
            v = v[()] if v.shape == () else v
        np.ndarray.__setitem__(self, k, v)

    def astype(self, t, *a, **k):
        r = np.ndarray.astype(self, object)
        r.narrow = t if _narrow(t) else None
        return _narrowed(r, t)


def _arr(orig):
    def w(data, *a, **k):
        if has_sym(data, 4):
            k = dict(k)
            t = a[0] if a else k.get('dtype')
            k['dtype'] = object
            r = orig(data, **{kk: v for kk, v in k.items() if kk in ('dtype', 'copy', 'ndmin')})
            r = _narrowed(r, t).view(_Narrow)
            r.narrow = t if _narrow(t) else None
            return r
        return orig(data, *a, **k)
    return w


def _alloc(fill):
    def make(orig):
        def w(shape, *a, **k):
            if core.ENG is not None and _caller_in_repo():
                r = orig(shape, dtype=object)
                r[...] = fill
                t = a[0] if a else k.get('dtype')
                if _narrow(t):
                    r[...] = np.dtype(t).type(fill)
                r = r.view(_Narrow)
                r.narrow = t if _narrow(t) else None
                return r
            return orig(shape, *a, **k)
        return w
    return make


class Rand:
    """Scripted randomness: every call is an unconstrained input of the harness."""
    source = None


def _rand(name):
    def make(orig):
        def w(*a, **k):
            if Rand.source is not None:
                return Rand.source(name, *a, **k)
            return orig(*a, **k)
        return w
    return make


def _genfromtxt(orig):
    def w(fname, *a, **k):
        if core.ENG is None or not core.ENG.tokens:
            return orig(fname, *a, **k)
        delim = k.get('delimiter')
        skip = int(k.get('skip_header', 0))
        with open(fname) as f:
            lines = f.read().split('\n')[skip:]
        rows = [[FloatShim(t) for t in l.split(delim)] for l in lines if l.strip()]
        if not has_sym(rows):
            return orig(fname, *a, **k)
        r = np.array(rows, dtype=object)
        return r.reshape(-1) if len(rows) == 1 or r.shape[1] == 1 else r
    return w


def _savetxt(orig):
    def w(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
        if not has_sym(X):
            if isinstance(X, np.ndarray) and X.dtype == object:
                X = X.astype(float)
            return orig(fname, X, fmt=fmt, delimiter=delimiter, newline=newline, header=header,
                        footer=footer, comments=comments, encoding=encoding)
        with open(fname, 'w') as f:
            if header:
                f.write(comments + header + newline)
            X = np.atleast_2d(X)
            for row in X:
                f.write(delimiter.join(mod_op(fmt, (v,)) if isinstance(v, SymNum) else fmt % float(v)
                                       for v in row) + newline)
            if footer:
                f.write(comments + footer + newline)
    return w


def _json(orig):
    def w(*a, **k):
        if core.ENG is not None and core.ENG.tokens:
            k.setdefault('parse_float', FloatShim)
        return orig(*a, **k)
    return w


def _mean(orig):
    def w(data, *a, **k):
        data = list(data)
        if has_sym(data):
            s = data[0]
            for v in data[1:]:
                s = s + v
            return s / len(data)
        return orig(data, *a, **k)
    return w


def _fsum(orig):
    def w(data):
        data = list(data)
        if has_sym(data):
            return sum(data)
        return orig(data)
    return w


def _hypot(orig):
    def w(*xs):
        if has_sym(xs):
            return sym_sqrt(sum(x * x for x in xs))
        return orig(*xs)
    return w


def _dist(orig):
    def w(p, q):
        if has_sym([p, q]):
            return sym_sqrt(sum((a - b) * (a - b) for a, b in zip(p, q)))
        return orig(p, q)
    return w


def _pow(orig):
    def w(x, y):
        if has_sym([x, y]):
            return SymNum.lift(x) ** y
        return orig(x, y)
    return w


def _eig(orig, ascending=False):
    def w(m, *a, **k):
        m = np.asarray(m)
        if not has_sym(m):
            return orig(m.astype(float), *a, **k)
        n = m.shape[0]
        for i in range(n):
            for j in range(n):
                c = m[i, j].const() if isinstance(m[i, j], SymNum) else m[i, j]
                if i != j and c != 0:
                    raise Unsupported('eigenvectors of a symbolic matrix that is not diagonal')
        ev = np.empty(n, dtype=object)
        for i in range(n):
            ev[i] = m[i, i]
        if not ascending:
            return ev, np.eye(n)
        order = sorted(range(n), key=lambda i: ev[i])
        return ev[order], np.eye(n)[:, order]
    return w


class _Tree:
    """Nearest neighbours by comparing all distances."""

    def __init__(self, orig, data):
        self.orig, self.data = orig, np.asarray(data)
        self.n = len(self.data)

    def query(self, x, k=1, **kw):
        x = np.asarray(x)
        if not has_sym(self.data) and not has_sym(x):
            return self.orig(self.data.astype(float)).query(x.astype(float), k=k, **kw)
        # all points of a few lie in one leaf, where eps changes nothing
        if kw.get('eps') and self.n <= 10:
            kw = dict(kw, eps=0)
        if k != 1 or any(kw.get(n, v) != v for n, v in (('eps', 0), ('p', 2), ('distance_upper_bound', float('inf')))):
            raise Unsupported('KDTree.query')
        if x.ndim == 2:
            r = [self.query(p) for p in x]
            return _arrays([a for a, _ in r]), np.array([b for _, b in r])
        best = None
        for i, p in enumerate(self.data):
            d = sum([(a - b) * (a - b) for a, b in zip(p, x)])
            if best is None or d < best[0]:
                best = (d, i)
        return sym_sqrt(best[0]), best[1]


def _arrays(L):
    a = np.empty(len(L), dtype=object)
    a[:] = L
    return a


def _kdtree(orig):
    return lambda data, *a, **k: _Tree(orig, data)


class _Spline:
    """A spline of scipy, evaluated by de Boor at symbolic arguments (the end pieces go on outside of the knots, as in scipy)."""

    def __init__(self, s):
        self.s = s

    def __getattr__(self, n):
        return getattr(self.s, n)

    def __call__(self, x, *a, **kw):
        if isinstance(x, np.ndarray) and x.dtype == object and x.shape:
            return _arrays([self(v) for v in x])
        if not isinstance(x, SymNum):
            return self.s(x, *a, **kw)
        t, c, k = [float(v) for v in self.s.t], [float(v) for v in self.s.c], int(self.s.k)
        n = len(c)
        i = k
        while i < n - 1 and not x < t[i + 1]:
            i += 1
        d = [c[j + i - k] for j in range(k + 1)]
        for r in range(1, k + 1):
            for j in range(k, r - 1, -1):
                w = t[j + 1 + i - r] - t[j + i - k]
                u = (x - t[j + i - k]) * (1.0 / w)
                d[j] = u * d[j] + (1 - u) * d[j - 1]
        return SymNum.lift(d[k])


class Angle:
    """arccos of a symbolic value, in some unit: known by its cosine, compared by it."""

    def __init__(self, c, unit=1.0):
        self.c, self.unit = c, unit

    def __mul__(self, k):
        return Angle(self.c, self.unit * k)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return Angle(self.c, self.unit / k)

    def _lim(self, o):
        if isinstance(o, Angle):
            if o.unit != self.unit:
                raise Unsupported('angles of different units')
            return o.c
        a = float(o) / self.unit
        return math.cos(min(max(a, 0.0), math.pi)) + (2.0 if a < 0 else -2.0 if a > math.pi else 0.0)

    def __lt__(self, o): return self.c > self._lim(o)
    def __le__(self, o): return self.c >= self._lim(o)
    def __gt__(self, o): return self.c < self._lim(o)
    def __ge__(self, o): return self.c <= self._lim(o)


def _arccos(orig):
    return lambda x, *a, **k: Angle(x) if isinstance(x, SymNum) else orig(x, *a, **k)


def _degrees(orig):
    return lambda x, *a, **k: x * (180.0 / math.pi) if isinstance(x, Angle) else orig(x, *a, **k)


def _fabs(x):
    return abs(x)


installed = False


def install():
    """Patch the libraries and install the loader. Must run before the code under test is imported."""
    global installed
    if installed:
        return
    installed = True
    sys.dont_write_bytecode = True
    import scipy.linalg
    import scipy.spatial
    import sympy  # noqa  (imported by geom.triangle; keep its import out of the patched world)
    _patch(math, 'sqrt', _un(sym_sqrt))
    _patch(math, 'fabs', _un(_fabs))
    _patch(math, 'floor', _un(lambda x: x.__floor__()))
    _patch(math, 'ceil', _un(lambda x: x.__ceil__()))
    _patch(math, 'trunc', _un(lambda x: x.trunc()))
    _patch(math, 'isnan', _un(lambda x: False))
    _patch(math, 'isinf', _un(lambda x: False))
    _patch(math, 'isfinite', _un(lambda x: True))
    _patch(math, 'isclose', _isclose)
    _patch(math, 'hypot', _hypot)
    _patch(math, 'dist', _dist)
    _patch(math, 'pow', _pow)
    _patch(math, 'fsum', _fsum)
    _patch(statistics, 'mean', _mean)
    _patch(statistics, 'fmean', _mean)
    _patch(np.linalg, 'det', lambda o: lambda m: _det(_rows(m)) if has_sym(np.asarray(m)) else o(np.asarray(m, dtype=float)))
    _patch(np.linalg, 'inv', lambda o: lambda m: _inv(m) if has_sym(np.asarray(m)) else o(np.asarray(m, dtype=float)))
    _patch(np.linalg, 'solve', lambda o: lambda m, b: _inv(m).dot(np.asarray(b, dtype=object))
           if has_sym(np.asarray(m)) or has_sym(np.asarray(b)) else o(m, b))
    _patch(np.linalg, 'norm', _norm)
    _patch(scipy.linalg, 'det', lambda o: lambda m, *a, **k: _det(_rows(m)) if has_sym(np.asarray(m)) else o(np.asarray(m, dtype=float), *a, **k))
    for m in (scipy.linalg, np.linalg):
        _patch(m, 'eig', _eig)
        _patch(m, 'eigh', lambda o: _eig(o, True))
    _patch(scipy.spatial, 'KDTree', _kdtree)
    _patch(scipy.spatial, 'cKDTree', _kdtree)
    import scipy.interpolate
    _patch(scipy.interpolate, 'make_interp_spline', lambda o: lambda *a, **k: _Spline(o(*a, **k)))
    for m, n in ((np, 'arccos'), (math, 'acos')):
        _patch(m, n, _arccos)
    for m, n in ((np, 'rad2deg'), (np, 'degrees'), (math, 'degrees')):
        _patch(m, n, _degrees)
    _patch(np, 'real', lambda o: lambda x: x if isinstance(x, SymNum) else o(x))
    _patch(np, 'array', _arr)
    _patch(np, 'asarray', _arr)
    _patch(np, 'zeros', _alloc(0.0))
    _patch(np, 'empty', _alloc(0.0))
    _patch(np, 'ones', _alloc(1.0))
    _patch(np, 'genfromtxt', _genfromtxt)
    _patch(np, 'savetxt', _savetxt)
    _patch(np, 'isclose', lambda o: lambda a, b, rtol=1e-05, atol=1e-08, equal_nan=False:
           (abs(a - b) <= atol + rtol * abs(b)) if has_sym([a, b]) else o(a, b, rtol, atol, equal_nan))
    for n in ('random', 'randint', 'choice', 'shuffle', 'uniform', 'randrange', 'sample'):
        _patch(random, n, _rand(n))
    _patch(json, 'load', _json)
    _patch(json, 'loads', _json)
    symstr.install(_patch, lambda: _caller_in_repo(3))
    sys.meta_path.insert(0, _Finder())


def load(*names):
    """Import modules of the code under test (packages geom and gsu first, as the build does)."""
    install()
    mods = {}
    for n in ('geom', 'gsu') + tuple(names):
        mods[n] = importlib.import_module(n)
        f = mods[n].__file__
        if not f.startswith(SRC):
            raise RuntimeError('%s imported from %s' % (n, f))
    return mods
