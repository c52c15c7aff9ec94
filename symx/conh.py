"""
Concrete harness handle: the same harness, run on plain values against the unpatched code.
No solver, no shims: used for replaying counterexamples and path witnesses.
"""
import importlib
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import types

REPO = os.environ.get('SYMX_REPO', '/repo')
SRC = os.path.join(REPO, 'crysgsu')


class AssumeFailed(BaseException):
    pass


def _close(a, b, tol):
    if a is b:
        return True
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))


class ConH:
    symbolic = False

    def __init__(self, values, strict=False):
        self.values = values
        self.failed = []
        self.reached = []
        self.known_hits = {}
        self.dir = None
        self.nrand = 0

    # inputs
    def _get(self, name, default):
        v = self.values.get(name, default)
        if isinstance(v, list):
            from fractions import Fraction
            return float(Fraction(int(v[0]), int(v[1])))
        return v

    def real(self, name, lo=None, hi=None, nz=False):
        v = self._get(name, 0.0 if lo is None else float(lo))
        v = float(v)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def intreal(self, name, lo=None, hi=None):
        return float(self.int(name, lo, hi))

    def int(self, name, lo=None, hi=None):
        v = self._get(name, 0 if lo is None else lo)
        v = int(v)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[i]

    def string(self, name, n, lo=32, hi=126):
        return ''.join(chr(self.int('%s_%d' % (name, i), lo, hi)) for i in range(n))

    def str_eq(self, a, b):
        return a == b

    def is_digits(self, s):
        return all('0' <= c <= '9' for c in s)

    def str_int(self, s):
        v = 0
        for c in s:
            v = v * 10 + ord(c) - 48
        return v

    def const(self, x):
        return float(x)

    def txt(self, x):
        return repr(float(x))

    def itxt(self, x):
        return str(int(x))

    # logic
    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def both(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def neg(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x)

    def is_true(self, c):
        return bool(c)

    # assertions
    def check(self, c, label, known=()):
        self.reached.append(label)
        if not c:
            kf = None
            for k, rg in known:
                if rg:
                    kf = k
            self.failed.append((label, kf))
            return False
        return True

    def close(self, a, b, label, tol=1e-9, known=()):
        return self.check(_close(a, b, tol), label, known)

    def near(self, a, b, tol=1e-9):
        return _close(a, b, tol)

    def same(self, a, b, label, known=()):
        return self.check(a == b, label, known)

    def le(self, a, b, label, tol=1e-9, known=()):
        """a <= b (with room for rounding when run on floats)."""
        return self.check(a <= b + tol * (1.0 + max(abs(a), abs(b))), label, known)

    def cover(self, label):
        self.reached.append(label)

    def fail(self, label, known=()):
        self.check(False, label, known)

    # environment
    def tmp(self, name=''):
        return os.path.join(self.dir, name) if name else self.dir

    def mod(self, name):
        return importlib.import_module(name)

    def num(self, text):
        """The number a text stands for (None if it stands for none)."""
        try:
            return float(text)
        except ValueError:
            return None

    def script(self, path, *argv):
        import runpy
        old = sys.argv
        sys.argv = [path] + [str(a) for a in argv]
        try:
            runpy.run_path(os.path.join(SRC, path), run_name='__main__')
        except SystemExit as e:
            return e.code or 0
        finally:
            sys.argv = old
        return 0

    def random(self, name, *a, **k):
        self.nrand += 1
        n = 'rand%d' % self.nrand
        return rand_value(self, n, name, *a, **k)


def rand_value(h, n, name, *a, **k):
    if name == 'randint':
        return h.int(n, a[0], a[1])
    if name == 'randrange':
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return h.int(n, lo, hi - 1)
    if name == 'random':
        v = h.real(n, 0, 1)
        h.assume(v < 1)
        return v
    if name == 'uniform':
        return h.real(n, a[0], a[1])
    if name == 'choice':
        return a[0][int(h.int(n, 0, len(a[0]) - 1))]
    if name == 'shuffle':
        x = a[0]
        for i in range(len(x) - 1, 0, -1):
            j = int(h.int('%s_%d' % (n, i), 0, i))
            x[i], x[j] = x[j], x[i]
        return None
    raise AssumeFailed()


class Hang(BaseException):
    """40 s of computing in one run: the code does not seem to end."""


def _ring(*a):
    raise Hang()


def run_concrete(module, params, values):
    """-> dict(failed=[(label, kf)], reached=[...], assume_failed=bool)"""
    h = ConH(values)
    h.dir = tempfile.mkdtemp(prefix='symx_con_')
    saved = {}
    for n in ('random', 'randint', 'choice', 'shuffle', 'uniform', 'randrange', 'sample'):
        saved[n] = getattr(random, n)

    def wrap(n):
        return lambda *a, **k: h.random(n, *a, **k)
    cwd = os.getcwd()
    out = sys.stdout
    res = {}
    try:
        if getattr(module, 'RANDOM', False):
            for n in saved:
                setattr(random, n, wrap(n))
        os.chdir(h.dir)
        sys.stdout = open(os.devnull, 'w')
        try:
            signal.signal(signal.SIGVTALRM, _ring)
            signal.setitimer(signal.ITIMER_VIRTUAL, 40.0, 5.0)
            module.run(h, **params)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except AssumeFailed:
            res['assume_failed'] = True
        except Hang:
            h.failed.append(('hang', None))
        except Exception as e:
            import traceback
            h.failed.append(('exception', None))
            res['exception'] = '%s: %s' % (type(e).__name__, e)
            res['traceback'] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout.close()
        sys.stdout = out
        os.chdir(cwd)
        for n in saved:
            setattr(random, n, saved[n])
        shutil.rmtree(h.dir, ignore_errors=True)
    res['failed'] = h.failed
    res['reached'] = sorted(set(h.reached))
    return res


def prepare():
    """Make the code under test importable, the way its own build does."""
    sys.dont_write_bytecode = True
    sys.path[:0] = [SRC, os.path.join(SRC, 'convert')]
    importlib.import_module('geom')
    importlib.import_module('gsu')
