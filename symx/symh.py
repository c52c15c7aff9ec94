"""Symbolic harness handle."""
import os
import importlib

import z3

from . import core, symstr
from .core import SymNum, SymBool, boolexpr, sym_sqrt, Infeasible, Unsupported
from .conh import rand_value


class SymH:
    symbolic = True

    def __init__(self, engine, workdir):
        self.E = engine
        self.dir = workdir
        self.nrand = 0

    # inputs -------------------------------------------------------------------------------
    def _var(self, name, mk, kind):
        ent = self.E.inputs.get(name)
        if ent is not None:
            return ent[0]
        v = mk(name)
        self.E.inputs[name] = (v, kind, None)
        return v

    def _range(self, v, lo, hi):
        if lo is not None:
            self.E.add(v >= core.z3val(lo))
        if hi is not None:
            self.E.add(v <= core.z3val(hi))
        self.E.model = None

    def real(self, name, lo=None, hi=None, nz=False):
        v = self._var(name, z3.Real, 'f')
        self._range(v, lo, hi)
        return SymNum(v, 'f', nn=lo is not None and lo >= 0)

    def intreal(self, name, lo=None, hi=None):
        """A float that holds an integer."""
        v = self._var(name, z3.Int, 'i')
        self._range(v, lo, hi)
        return SymNum(v, 'f', nn=lo is not None and lo >= 0)

    def int(self, name, lo=None, hi=None):
        v = self._var(name, z3.Int, 'i')
        self._range(v, lo, hi)
        return SymNum(v, 'i', nn=lo is not None and lo >= 0)

    def bool(self, name):
        v = self._var(name, z3.Bool, 'b')
        return SymBool(v)

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def string(self, name, n, lo=32, hi=126, extra=()):
        """A string of n characters, each with a code in lo..hi."""
        return symstr.mk([self.int('%s_%d' % (name, i), lo, hi).e for i in range(n)])

    def str_eq(self, a, b):
        if isinstance(a, symstr.SymStr):
            return SymBool(a._eq(b))
        if isinstance(b, symstr.SymStr):
            return SymBool(b._eq(a))
        return a == b

    def is_digits(self, s):
        return self.both(*[SymBool(symstr.between(c, 48, 57)) for c in symstr.codes(s)])

    def str_int(self, s):
        v = 0
        for c in symstr.codes(s):
            v = v * 10 + (SymNum.lift(c) if isinstance(c, int) else SymNum(c, 'i')) - 48
        return v

    def const(self, x):
        return SymNum(core.z3val(x), 'f')

    def txt(self, x):
        if isinstance(x, SymNum):
            return self.E.token(x.as_float(), '')
        return repr(float(x))

    def itxt(self, x):
        if isinstance(x, SymNum):
            return self.E.token(SymNum(x.e, 'i'), '')
        return str(int(x))

    def num(self, text):
        """The number a text stands for (None if it stands for none)."""
        from . import shims
        try:
            return shims.FloatShim(text)
        except ValueError:
            return None

    # logic --------------------------------------------------------------------------------
    def assume(self, c):
        self.E.assume(boolexpr(c))

    def both(self, *cs):
        return SymBool(z3.And(*[boolexpr(c) for c in cs]))

    def any(self, *cs):
        return SymBool(z3.Or(*[boolexpr(c) for c in cs]))

    def neg(self, c):
        return SymBool(z3.Not(boolexpr(c)))

    def implies(self, a, b):
        return SymBool(z3.Implies(boolexpr(a), boolexpr(b)))

    def iff(self, a, b):
        return SymBool(boolexpr(a) == boolexpr(b))

    def ite(self, c, a, b):
        a, b = SymNum.lift(a), SymNum.lift(b)
        x, y = a._pair(b)
        return SymNum(z3.If(boolexpr(c), x, y), a._kind(b), nn=a.nn and b.nn)

    def sqrt(self, x):
        return sym_sqrt(x)

    def is_true(self, c):
        """Fork on c."""
        return bool(c) if isinstance(c, (SymBool, SymNum)) else bool(c)

    # assertions ---------------------------------------------------------------------------
    def check(self, c, label, known=()):
        self.E.check(c, label, [(k, rg) for k, rg in known])
        return True

    def _eq(self, a, b):
        if isinstance(a, (SymNum, SymBool)) or isinstance(b, (SymNum, SymBool)):
            r = (SymNum.lift(a) == SymNum.lift(b)) if SymNum.lift(a) is not None and SymNum.lift(b) is not None else False
            return r
        if isinstance(a, float) or isinstance(b, float):
            try:
                return core.ideal(float(a)) == core.ideal(float(b)) or abs(a - b) <= 1e-12 * (1 + abs(a))
            except (TypeError, ValueError, OverflowError):
                return a == b
        return a == b

    def near(self, a, b, tol=1e-9):
        return SymBool(boolexpr(self._eq(a, b)))

    def close(self, a, b, label, tol=1e-9, known=()):
        return self.check(self._eq(a, b), label, known)

    def same(self, a, b, label, known=()):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            return self.check(self._eq(a, b), label, known)
        return self.check(a == b, label, known)

    def le(self, a, b, label, tol=1e-9, known=()):
        return self.check(SymNum.lift(a) <= b, label, known)

    def cover(self, label):
        self.E.labels.setdefault(label, [0, 0, 0])[0] += 1

    def fail(self, label, known=()):
        self.check(False, label, known)

    # environment --------------------------------------------------------------------------
    def tmp(self, name=''):
        return os.path.join(self.dir, name) if name else self.dir

    def mod(self, name):
        return importlib.import_module(name)

    def script(self, path, *argv):
        """Run a script of the code under test as the main program; -> exit code."""
        from . import shims
        return shims.run_script(path, argv)

    def random(self, name, *a, **k):
        self.nrand += 1
        return rand_value(self, 'rand%d' % self.nrand, name, *a, **k)
