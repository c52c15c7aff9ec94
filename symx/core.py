"""
symx.core -- dynamic symbolic execution of the real Python code with Z3.

The code under test runs in this interpreter, unchanged, on proxy numbers (SymNum) that carry a
Z3 term.  Every truth test on a proxy becomes a branch whose two sides are decided by the solver;
the path is re-executed with another decision prefix until every feasible side has been taken.
"""
import math
import time
import sys
from fractions import Fraction

import z3

z3.set_param('model.completion', True)


class Steer(BaseException):
    """Engine control flow: never caught by `except Exception` in the code under test."""


class Infeasible(Steer):
    """The path constraints became unsatisfiable."""


class Unsupported(Steer):
    """The code did something the encoding has no meaning for: inconclusive."""


class Diverged(Steer):
    """Re-execution took another path than recorded: inconclusive."""


class OutOfTime(Steer):
    """The budget of the worker ran out."""


class Hang(Steer):
    """The code under test does not seem to end."""


ENG = None  # the engine of the path being executed (None: concrete)


def eng():
    if ENG is None:
        raise Unsupported('symbolic value used outside of a path')
    return ENG


# --------------------------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------------------------

_frac_cache = {}


def ideal(x):
    """Concrete float -> the rational it stands for (1/3 for 0.333.., 1/10 for 0.1)."""
    r = _frac_cache.get(x)
    if r is None:
        f = Fraction(x)
        if f.denominator != 1:
            g = f.limit_denominator(1000)
            if float(g) == x:
                f = g
            else:
                f = Fraction(repr(float(x)))
        _frac_cache[x] = r = f
    return r


def z3val(x):
    """Concrete python number -> z3 numeral (Int sort when integer valued)."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    f = x if isinstance(x, Fraction) else ideal(float(x))
    if f.denominator == 1:
        return z3.IntVal(f.numerator)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def to_frac(v):
    """z3 numeral -> Fraction (algebraic numbers are approximated)."""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported('model value %s' % v)


# --------------------------------------------------------------------------------------------
# symbolic booleans
# --------------------------------------------------------------------------------------------

class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, boolexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, boolexpr(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, boolexpr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == boolexpr(o))
        return self.num() == o

    def __ne__(self, o):
        return SymBool(z3.Not(boolexpr(self == o)))

    def __hash__(self):
        return hash(bool(self))

    def num(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 'i')

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o): return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    def __rmul__(self, o): return o * self.num()
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def boolexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


# --------------------------------------------------------------------------------------------
# symbolic numbers
# --------------------------------------------------------------------------------------------

CONST_HASH = 0x5E11


def canon(e):
    """Sum of monomials (option canon): terms that cancel disappear."""
    if ENG is None or not ENG.opt.get('canon'):
        return e
    return z3.simplify(e, som=True)


def _is_np_number(x):
    return hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(x, 'shape', None) == ()


class SymNum:
    """kind 'i': stands for a python int; kind 'f': stands for a python float."""
    __slots__ = ('e', 'kind', 'sq', 'nn')

    def __init__(self, e, kind='f', sq=None, nn=False):
        self.e = e
        self.kind = kind
        self.sq = sq    # this is sqrt(sq): comparisons are done on squares
        self.nn = nn    # known to be non-negative

    # -- helpers ---------------------------------------------------------------------------

    @property
    def isint(self):
        return self.e.sort_kind() == z3.Z3_INT_SORT

    def real(self):
        return z3.ToReal(self.e) if self.isint else self.e

    def const(self):
        """Fraction if the term is a numeral, else None."""
        e = self.e
        if z3.is_int_value(e):
            return Fraction(e.as_long())
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        return None

    @staticmethod
    def lift(x):
        """-> SymNum, or float inf/nan, or None if not a number."""
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, bool):
            return SymNum(z3.IntVal(int(x)), 'i')
        if isinstance(x, int):
            return SymNum(z3.IntVal(x), 'i', nn=x >= 0)
        if isinstance(x, Fraction):
            return SymNum(z3val(x), 'f', nn=x >= 0)
        if isinstance(x, float):
            if math.isinf(x) or math.isnan(x):
                return x
            return SymNum(z3val(x), 'f', nn=x >= 0)
        if isinstance(x, complex):
            if x.imag != 0:
                raise Unsupported('complex number')
            return SymNum.lift(x.real)
        if _is_np_number(x):
            return SymNum.lift(x.item())
        return None

    def _pair(self, o):
        a, b = self.e, o.e
        ia, ib = self.isint, o.isint
        if ia and not ib:
            a = z3.ToReal(a)
        elif ib and not ia:
            b = z3.ToReal(b)
        return a, b

    def _kind(self, o):
        return 'i' if self.kind == 'i' and o.kind == 'i' else 'f'

    # -- arithmetic ------------------------------------------------------------------------

    def __add__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        a, b = self._pair(o)
        if o.const() == 0:
            return SymNum(a, self._kind(o), self.sq, self.nn)
        if self.const() == 0:
            return SymNum(b, self._kind(o), o.sq, o.nn)
        return SymNum(canon(a + b), self._kind(o), nn=self.nn and o.nn)

    def __radd__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return o + self

    def __neg__(self):
        return SymNum(-self.e, self.kind)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        if o.const() == 0:
            a, _ = self._pair(o)
            return SymNum(a, self._kind(o), self.sq, self.nn)
        a, b = self._pair(o)
        return SymNum(canon(a - b), self._kind(o))

    def __rsub__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return o - self

    def __mul__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._times_inf(o)
        a, b = self._pair(o)
        k = self._kind(o)
        ca, cb = self.const(), o.const()
        if ca == 0 or cb == 0:
            return SymNum(z3.IntVal(0), k, nn=True)
        if cb == 1:
            return SymNum(a, k, self.sq, self.nn)
        if ca == 1:
            return SymNum(b, k, o.sq, o.nn)
        sq = None
        nn = self.nn and o.nn
        if cb is not None:
            if cb > 0 and self.sq is not None:
                sq = self.sq * z3.RealVal(str(cb * cb))
        elif ca is not None:
            if ca > 0 and o.sq is not None:
                sq = o.sq * z3.RealVal(str(ca * ca))
        elif self.sq is not None and o.sq is not None:
            if self.e.eq(o.e):
                return SymNum(self.sq, 'f', nn=True)
            sq = self.sq * o.sq
        if not nn and a.eq(b):
            nn = True
        return SymNum(canon(a * b), k, sq, nn)

    def __rmul__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._times_inf(o)
        return o * self

    def _times_inf(self, o):
        if math.isnan(o):
            return o
        if self > 0:
            return o
        if self < 0:
            return -o
        return math.nan

    def __truediv__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return SymNum(z3.IntVal(0), 'f') if math.isinf(o) else o
        cb = o.const()
        if cb is not None:
            if cb == 0:
                raise ZeroDivisionError('float division by zero')
            if cb == 1:
                return SymNum(self.e, 'f', self.sq, self.nn)
            ca = self.const()
            if ca is not None:
                return SymNum(z3val(ca / cb), 'f')
            inv = z3.RealVal(str(1 / cb))
            sq = self.sq * z3.RealVal(str(1 / (cb * cb))) if (self.sq is not None and cb > 0) else None
            return SymNum(canon(self.real() * inv), 'f', sq, self.nn and cb > 0)
        if SymBool(o.e == 0):
            raise ZeroDivisionError('float division by zero')
        if self.const() == 0:
            return SymNum(z3.IntVal(0), 'f', nn=True)
        if ENG is not None and ENG.opt.get('canon'):
            x, y = self.real(), o.real()
            if x.eq(y):
                return SymNum(z3.RealVal(1), 'f', nn=True)
            if canon(x + y).eq(z3.RealVal(0)):
                return SymNum(z3.RealVal(-1), 'f')
        sq = None
        if self.sq is not None and o.sq is not None:
            sq = self.sq / o.sq
        return SymNum(self.real() / o.real(), 'f', sq, self.nn and o.nn)

    def __rtruediv__(self, o):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._times_inf(o)
        return o / self

    def __floordiv__(self, o):
        o = SymNum.lift(o)
        if o is None or isinstance(o, float):
            raise Unsupported('//')
        if SymBool(o.e == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        k = self._kind(o)
        if self.isint and o.isint:
            if SymBool(o.e > 0):
                return SymNum(self.e / o.e, k)
            return SymNum((-self.e) / (-o.e), k)
        return SymNum(z3.ToInt(self.real() / o.real()), k)

    def __rfloordiv__(self, o):
        return SymNum.lift(o) // self

    def __mod__(self, o):
        o = SymNum.lift(o)
        if o is None or isinstance(o, float):
            raise Unsupported('%')
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return SymNum.lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        o = SymNum.lift(o)
        if o is None or isinstance(o, float):
            raise Unsupported('**')
        c = o.const()
        if c is None:
            raise Unsupported('symbolic exponent')
        if c.denominator == 1:
            n = int(c)
            r = SymNum(z3.IntVal(1), self.kind)
            for _ in range(abs(n)):
                r = r * self
            if o.kind == 'f':
                r = SymNum(r.e, 'f', r.sq, r.nn)
            return r if n >= 0 else 1 / r
        if c == Fraction(1, 2):
            return sym_sqrt(self)
        return sym_pow(self, c)

    def __rpow__(self, o):
        n = self.__index__()
        return o ** n

    def __abs__(self):
        if self.nn:
            return self
        c = self.const()
        if c is not None:
            return SymNum(z3val(abs(c)), self.kind, nn=True)
        e = self.e
        if ENG is not None and ENG.opt.get('canon'):
            # fork: no case distinctions inside of terms
            if SymBool(e >= 0):
                return SymNum(e, self.kind, self.sq, nn=True)
            return SymNum(canon(-e), self.kind, nn=True)
        return SymNum(z3.If(e >= 0, e, -e), self.kind, nn=True)

    # -- comparison ------------------------------------------------------------------------

    def _cmp(self, o, op, inf_pos, inf_neg):
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return op == 'ne'
            return inf_pos if o > 0 else inf_neg
        a, b = self._pair(o)
        if self.sq is not None or o.sq is not None:
            sa, sb = self.sq, o.sq
            ca, cb = self.const(), o.const()
            if sa is None and ca is not None:
                if ca < 0:   # negative constant against a square root
                    return {'lt': True, 'le': True, 'gt': False, 'ge': False, 'eq': False, 'ne': True}[op]
                sa = z3.RealVal(str(ca * ca))
            if sb is None and cb is not None:
                if cb < 0:
                    return {'lt': False, 'le': False, 'gt': True, 'ge': True, 'eq': False, 'ne': True}[op]
                sb = z3.RealVal(str(cb * cb))
            if sa is None and self.nn:
                sa = self.real() * self.real()
            if sb is None and o.nn:
                sb = o.real() * o.real()
            if sa is not None and sb is not None:
                a, b = sa, sb
        if op == 'lt':
            r = a < b
        elif op == 'le':
            r = a <= b
        elif op == 'gt':
            r = a > b
        elif op == 'ge':
            r = a >= b
        elif op == 'eq':
            r = a == b
        else:
            r = a != b
        return SymBool(r)

    def __lt__(self, o): return self._cmp(o, 'lt', True, False)
    def __le__(self, o): return self._cmp(o, 'le', True, False)
    def __gt__(self, o): return self._cmp(o, 'gt', False, True)
    def __ge__(self, o): return self._cmp(o, 'ge', False, True)

    def __eq__(self, o):
        r = self._cmp(o, 'eq', False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne', True, True)
        return True if r is NotImplemented else r

    def __hash__(self):
        if self.kind == 'i':
            return hash(self.__index__())
        return CONST_HASH

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return eng().branch(self.e != 0 if self.sq is None else self.sq != 0)

    # -- conversion ------------------------------------------------------------------------

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        if self.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return eng().concretise(self.e)

    def trunc(self):
        if self.isint:
            return SymNum(self.e, 'i', nn=self.nn)
        c = self.const()
        if c is not None:
            return SymNum(z3.IntVal(math.trunc(c)), 'i')
        e = self.e
        if self.nn:
            return SymNum(z3.ToInt(e), 'i', nn=True)
        return SymNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)), 'i')

    def __int__(self):
        return self.trunc().__index__()

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return SymNum(self.e if self.isint else z3.ToInt(self.e), 'i')

    def __ceil__(self):
        return SymNum(self.e if self.isint else -z3.ToInt(-self.e), 'i')

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic number at a C boundary')

    def as_float(self):
        return SymNum(self.e, 'f', self.sq, self.nn)

    def __round__(self, n=None):
        if self.isint:
            return SymNum(self.e, 'i' if n is None else self.kind, nn=self.nn)
        r = sym_round(self, 0 if n is None else int(n))
        return r.trunc() if n is None else r

    # numpy element methods
    def sqrt(self): return sym_sqrt(self)
    def conjugate(self): return self
    def item(self): return self
    @property
    def T(self): return self
    @property
    def real_part(self): return self

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic number')

    def __format__(self, spec):
        if self.kind == 'i':
            return format(self.__index__(), spec)
        c = self.const()
        return eng().token(self, spec)

    def __str__(self):
        return self.__format__('')

    def __repr__(self):
        if ENG is None:
            return 'SymNum(%s)' % self.e
        return self.__format__('')


# --------------------------------------------------------------------------------------------
# functions with axioms
# --------------------------------------------------------------------------------------------

def sym_sqrt(x):
    x = SymNum.lift(x)
    if isinstance(x, float):
        return math.sqrt(x)
    c = x.const()
    if c is not None and c >= 0:
        import math as _m
        n, d = _m.isqrt(c.numerator), _m.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return SymNum(z3val(Fraction(n, d)), 'f', nn=True)
    if not x.nn:
        if x < 0:
            raise ValueError('math domain error')
    e = x.e
    if e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        return abs(SymNum(e.arg(0), 'f'))
    E = eng()
    sq = z3.simplify(x.real(), som=True) if E.opt.get('som', False) else x.real()
    key = ('sqrt', sq.get_id())
    r = E.memo.get(key)
    if r is None:
        s = E.fresh_real('sqrt')
        E.add(s >= 0)
        E.add(s * s == sq)
        r = SymNum(s, 'f', sq=sq, nn=True)
        E.memo[key] = r
        E.keep.append(sq)
    return r


def sym_pow(x, c):
    """x ** c for a non-integer constant exponent: uninterpreted, positive, monotone facts only."""
    E = eng()
    if x < 0:
        raise ValueError('math domain error')
    key = ('pow', x.real().get_id(), c)
    r = E.memo.get(key)
    if r is None:
        p = E.fresh_real('pow')
        E.keep.append(x.real())
        xr = x.real()
        if c > 0:
            E.add(p >= 0)
            E.add((p == 0) == (xr == 0))
            E.add(z3.Implies(xr >= 1, p >= 1))
            E.add(z3.Implies(xr <= 1, p <= 1))
            if c < 1:
                E.add(z3.Implies(xr >= 1, p <= xr))
                E.add(z3.Implies(xr <= 1, p >= xr))
        else:
            E.add(p > 0)
        # one function: equal arguments give equal powers, and it is monotone
        same = E.memo.setdefault(('pows', c), [])
        for y, q in same:
            E.add(z3.And(z3.Implies(xr == y, p == q), z3.Implies(xr < y, p < q if c > 0 else p > q), z3.Implies(xr > y, p > q if c > 0 else p < q)))
        same.append((xr, p))
        r = SymNum(p, 'f', nn=True)
        E.memo[key] = r
    return r


def round_expr(E, x, n):
    """z3 Int k with k = round-half-even(x * 10**n)."""
    key = ('round', x.get_id(), n)
    k = E.memo.get(key)
    if k is None:
        k = E.fresh_int('rnd')
        E.keep.append(x)
        sc = z3.RealVal(10 ** n) if n >= 0 else z3.RealVal('1/%d' % 10 ** (-n))
        d = x * sc - z3.ToReal(k)
        E.add(z3.And(2 * d <= 1, 2 * d >= -1))
        E.add(z3.Implies(z3.Or(2 * d == 1, 2 * d == -1), k % 2 == 0))
        E.memo[key] = k
    return k


def narrow(x, dtype):
    """x as an element of an array of the dtype."""
    import numpy as np
    if not isinstance(x, SymNum) or dtype is None:
        return x
    t = np.dtype(dtype)
    if t.kind in 'iu':
        return x.trunc()
    if t.kind != 'f' or t.itemsize >= 8:
        return x
    # single (or half) precision: exact for some numbers; numbers of 26 bits, the last of them set, lose it (three sizes of them are explored)
    c = x.const()
    if c is not None:
        return float(t.type(float(c)))
    e = eng()
    key = ('narrow', x.e.get_id())
    if key not in e.memo:
        k, y, xr = e.fresh_int('f32'), e.fresh_real('f32'), x.real()
        near = [z3.And(k > 2 ** 23, k < 2 ** 24 - 1, xr == (z3.ToReal(k) * 4 + 1) / 2 ** s, y == z3.ToReal(k) * 4 / 2 ** s) for s in (30, 24, 20)]
        near += [z3.And(k > 2 ** 23, k < 2 ** 24 - 1, xr == -(z3.ToReal(k) * 4 + 1) / 2 ** s, y == -z3.ToReal(k) * 4 / 2 ** s) for s in (30, 24, 20)]
        e.add(z3.Or(y == xr, *near))
        e.memo[key] = (x, SymNum(y, 'f'))
    return e.memo[key][1]


def sym_round(x, n):
    E = eng()
    if n > 0 and E.opt.get('relaxed_round'):
        # what is known of a rounded value without its being on the grid (a superset of the behaviours)
        xr = x.real()
        key = ('rround', xr.get_id(), n)
        r = E.memo.get(key)
        if r is None:
            r = E.fresh_real('rr')
            E.keep.append(xr)
            half, one = z3.RealVal('1/%d' % (2 * 10 ** n)), z3.RealVal('1/%d' % 10 ** n)
            E.add(z3.And(r - xr <= half, xr - r <= half))
            E.add(z3.If(z3.And(xr <= half, xr >= -half), r == 0, z3.If(xr > 0, r >= one, r <= -one)))
            E.memo[key] = r
        return SymNum(r, x.kind)
    k = round_expr(E, x.real(), n)
    if n <= 0:
        return SymNum(k * (10 ** (-n)), x.kind)
    return SymNum(z3.ToReal(k) * z3.RealVal('1/%d' % 10 ** n), x.kind)


# --------------------------------------------------------------------------------------------
# engine: one path
# --------------------------------------------------------------------------------------------

class Stats:
    FIELDS = ('queries', 'solver_s', 'sat', 'unsat', 'unknown', 'decisions', 'forks', 'nra_fallback')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def dump(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, prefix, stats, opt=None, deadline=None):
        self.opt = opt or {}
        self.prefix = prefix
        self.trail = []
        self.pending = []
        self.stats = stats
        self.solver = z3.Solver()
        self.qto = self.opt.get('query_ms', 10000)
        self.solver.set('timeout', self.opt.get('inc_ms', 2000))
        self.cons = []
        self.memo = {}
        self.keep = []
        self.model = None
        self.nfresh = 0
        self.inputs = {}          # name -> (z3 var, kind, meta)
        self.tokens = {}
        self.ntok = 0
        self.failures = []
        self.unknown_checks = []
        self.labels = {}
        self.deadline = deadline
        self.events = []
        self.alive = None         # called at every query, see runner

    # -- variables -------------------------------------------------------------------------

    def fresh_real(self, tag):
        self.nfresh += 1
        return z3.Real('_%s%d' % (tag, self.nfresh))

    def fresh_int(self, tag):
        self.nfresh += 1
        return z3.Int('_%s%d' % (tag, self.nfresh))

    # -- solving ---------------------------------------------------------------------------

    def add(self, c):
        """Add a constraint that is known to keep the path satisfiable or is an assumption."""
        if z3.is_true(c):
            return
        self.cons.append(c)
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, extra):
        """sat / unsat / unknown of path + extra; keeps the model of the last sat."""
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime()
        if self.alive is not None:
            self.alive()
        st = self.stats
        st.queries += 1
        t = time.time()
        if self.opt.get('nra_first'):
            r, m = self._fresh_check(extra)
        else:
            r = self.solver.check(*extra)
            m = self.solver.model() if r == z3.sat else None
            if r == z3.unknown:
                st.nra_fallback += 1
                r, m = self._fresh_check(extra)
        dt = time.time() - t
        st.solver_s += dt
        if r == z3.sat:
            st.sat += 1
            self.last_model = m
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    def _fresh_check(self, extra, seed=None):
        tried = []
        for name in self.opt.get('solvers', ('qfnra', 'default')):
            if name == 'qfnra':
                s = z3.SolverFor('QF_NRA')
            elif name == 'nlsat':
                s = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
            else:
                s = z3.Solver()
            s.set('timeout', self.qto)
            if seed is not None:
                s.set('random_seed', seed)
            s.add(*self.cons)
            s.add(*extra)
            r = s.check()
            tried.append((name, r))
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        return z3.unknown, None

    def _retry(self, extra):
        """An assertion no solver decided in the usual time: longer, with other random seeds."""
        t, q = time.time(), self.qto
        try:
            for seed in (1, 2, 3):
                self.qto = 2 * q
                r, m = self._fresh_check(extra, seed)
                if r != z3.unknown:
                    if r == z3.sat:
                        self.last_model = m
                    return r
        finally:
            self.qto = q
            self.stats.solver_s += time.time() - t
        return z3.unknown

    def feasible(self):
        if self.model is not None:
            return True
        r = self._check([])
        if r == z3.unsat:
            return False
        if r == z3.sat:
            self.model = self.last_model
        return True

    def assume(self, c):
        c = boolexpr(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if len(self.trail) >= len(self.prefix) and not self.feasible():
            raise Infeasible()

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        known = self.memo.get(('br', key))
        if known is not None:
            return known
        h = 0 if self.opt.get('loose') else c.hash()
        i = len(self.trail)
        if i < len(self.prefix):
            ph, d = self.prefix[i]
            if ph != h:
                raise Diverged('decision %d' % i)
            self.trail.append((h, d))
            self._take(c, d, key)
            return d
        self.stats.decisions += 1
        # which sides are feasible?
        t_ok = f_ok = None
        if self.model is None:
            r = self._check([])
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.last_model
        mt = mf = None
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                t_ok, mt = True, self.model
            elif z3.is_false(v):
                f_ok, mf = True, self.model
        if t_ok is None:
            r = self._check([c])
            t_ok = r != z3.unsat
            if r == z3.sat:
                mt = self.last_model
        if f_ok is None:
            nc = z3.Not(c)
            r = self._check([nc])
            f_ok = r != z3.unsat
            if r == z3.sat:
                mf = self.last_model
        if not t_ok and not f_ok:
            raise Infeasible()
        if t_ok and f_ok:
            self.stats.forks += 1
            self.pending.append(self.trail + [(h, False)])
        d = bool(t_ok)
        self.trail.append((h, d))
        self.model = mt if d else mf
        self._take(c, d, key)
        return d

    def _take(self, c, d, key):
        self.keep.append(c)
        self.memo[('br', key)] = d
        e = c if d else z3.Not(c)
        self.cons.append(e)
        self.solver.add(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def concretise(self, e):
        """Fork over the feasible values of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ('idx', e.get_id())
        v = self.memo.get(key)
        if v is not None:
            return v
        # values are proposed by the solver, and recorded in the trail so that re-execution agrees
        for _ in range(self.opt.get('max_values', 80)):
            i = len(self.trail)
            if i < len(self.prefix):
                val, d = self.prefix[i]
                self.trail.append((val, d))
                c = e == val
                self._take(c, d, c.get_id())
                if d:
                    break
                continue
            if self.model is None:
                r = self._check([])
                if r == z3.unsat:
                    raise Infeasible()
                if r == z3.sat:
                    self.model = self.last_model
                else:
                    raise Unsupported('unknown while choosing a value')
            val = self.model.eval(e, model_completion=True).as_long()
            c = e == val
            r = self._check([z3.Not(c)])
            self.stats.decisions += 1
            if r != z3.unsat:
                self.stats.forks += 1
                self.pending.append(self.trail + [(val, False)])
            self.trail.append((val, True))
            self._take(c, True, c.get_id())
            break
        else:
            raise Unsupported('too many values for an index')
        self.memo[key] = val
        self.keep.append(e)
        return val

    # -- text ------------------------------------------------------------------------------

    def token(self, x, spec=''):
        """A float literal that stands for the printed value of x."""
        c = x.const()
        key = ('tok', x.e.get_id(), spec)
        t = self.memo.get(key)
        if t is None:
            self.ntok += 1
            t = '%d.%06d1371742112e+211' % (1 + self.ntok % 9, self.ntok)
            self.memo[key] = t
            self.keep.append(x.e)
            self.tokens[t] = (x, spec)
        # honour the sign column / padding only when asked for by an explicit width
        return t

    def parse(self, s):
        """Text -> SymNum if it is a token, else None."""
        ent = self.tokens.get(s.strip())
        if ent is None:
            return None
        x, spec = ent
        return self.printed_value(x, spec)

    def printed_value(self, x, spec):
        import re
        if spec == '' or x.isint and x.kind == 'i':
            return x
        m = re.match(r'^[-+ ]?#?0?(\d+)?(?:\.(\d+))?([eEfFgGn%]?)$', spec)
        if m is None:
            raise Unsupported('format spec %r' % spec)
        prec = m.group(2)
        typ = m.group(3)
        prec = 6 if prec is None and typ else (None if prec is None else int(prec))
        if prec is None:
            return x
        key = ('pv', x.e.get_id(), spec)
        r = self.memo.get(key)
        if r is not None:
            return r
        if typ in 'eE' and typ:
            digs = prec + 1
        elif typ in 'fF' and typ:
            if x.isint:
                r = x
                self.memo[key] = r
                return r
            r = sym_round(x, prec)
            self.memo[key] = r
            return r
        else:
            digs = max(prec, 1)
        if digs >= 17:
            return x
        # precision loss: round to `digs` significant digits; the exponent is decided by forking
        ax = abs(x)
        exp = None
        if x == 0:
            r = x
        else:
            for ex in range(12, -13, -1):
                if ax >= Fraction(10) ** ex:
                    exp = ex
                    break
            if exp is None:
                exp = -12
            r = sym_round(SymNum(x.real(), 'f'), digs - 1 - exp)
        self.memo[key] = r
        return r

    # -- assertions ------------------------------------------------------------------------

    def check(self, c, label, known=()):
        """Assert c on this path. known: list of (finding id, region)."""
        lab = self.labels.setdefault(label, [0, 0, 0])   # discharged, failed, unknown
        replaying = len(self.trail) < len(self.prefix)
        c = boolexpr(c)
        c = z3.simplify(c)
        if replaying:
            # already decided on the path that recorded this prefix
            if not z3.is_true(c):
                if z3.is_false(c):
                    raise Infeasible()
                self.add(c)
            return
        if z3.is_true(c):
            lab[0] += 1
            return
        neg = [z3.Not(c)]
        regions = [(k, boolexpr(rg)) for k, rg in known]
        out = neg + [z3.Not(rg) for _, rg in regions]
        r = self._check(out)
        if r == z3.unknown:
            r = self._retry(out)
        if r == z3.unknown:
            lab[2] += 1
            self.unknown_checks.append(label)
        elif r == z3.sat:
            lab[1] += 1
            self.failures.append(dict(label=label, kf=None, models=self.models(out, self.last_model)))
        else:
            lab[0] += 1
        if r != z3.sat and regions:
            for k, rg in regions:
                ex = neg + [rg]
                r2 = self._check(ex)
                if r2 == z3.sat:
                    self.failures.append(dict(label=label, kf=k, models=self.models(ex, self.last_model)))
                elif r2 == z3.unknown:
                    self.unknown_checks.append(label)
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if not self.feasible():
            raise Infeasible()

    # -- models ----------------------------------------------------------------------------

    def values(self, m):
        out = {}
        for name, (v, kind, _) in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if kind == 'b':
                out[name] = bool(z3.is_true(x))
            elif kind == 'i':
                out[name] = int(to_frac(x))
            else:
                f = to_frac(x)
                out[name] = [str(f.numerator), str(f.denominator)]
        return out

    def models(self, extra, first):
        """Models preferred for replay, which runs on floats: away from the boundaries of the path and
        with small dyadic inputs first; what the solver gave comes last."""
        res = []
        reals = [v for (v, kind, _) in self.inputs.values() if kind == 'f' and v.sort_kind() == z3.Z3_REAL_SORT]
        if reals:
            hard = list(self.cons) + list(extra)
            t_end = time.time() + self.opt.get('models_s', 12)

            def ask(cs, ms=2500):
                s = z3.Solver()
                s.set('timeout', ms)
                s.add(*hard)
                s.add(*cs)
                t = time.time()
                r = s.check()
                self.stats.solver_s += time.time() - t
                self.stats.queries += 1
                return s.model() if r == z3.sat else None

            def grid(den, lim):
                cs = []
                for j, v in enumerate(reals):
                    k = z3.Int('_nice%d' % j)
                    cs += [v * den == z3.ToReal(k), k <= lim * den, k >= -lim * den]
                return cs
            slack = []
            for eps in ('1/4', '1/64', '1/10000'):
                sl = []
                for c in hard:
                    _interior(c, z3.RealVal(eps), sl)
                kept = self._keep_slack(hard, sl, t_end)
                if kept is None:
                    break
                slack = kept
                if len(kept) == len(sl) or time.time() > t_end:
                    break
            for cs in ([slack + grid(1, 16), slack + grid(8, 64), slack + grid(1024, 1000), slack] if slack else []) + \
                    [grid(1, 16), grid(64, 64), grid(4096, 4096)]:
                if time.time() > t_end or len(res) >= 3:
                    break
                m = ask(cs)
                if m is not None:
                    res.append(self.values(m))
            # a generic value for each input, away from special points
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*hard)
            s.add(*slack)
            import random as _r
            rng = _r.Random(len(self.cons))
            for v in reals:
                if time.time() > t_end:
                    break
                c = z3.RealVal(str(Fraction(rng.randint(-4000, 4000), 1024)))
                s.push()
                s.add(v >= c, v <= c + z3.RealVal('1/64'))
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                res.append(self.values(s.model()))
        res.append(self.values(first))
        return res

    def _keep_slack(self, hard, sl, t_end):
        """A large subset of the strengthened constraints that is satisfiable with the hard ones."""
        kept = list(sl)
        for _ in range(12):
            if time.time() > t_end:
                return None
            s = z3.Solver()
            s.set('timeout', 2500)
            s.add(*hard)
            lits = []
            for j, c in enumerate(kept):
                b = z3.Bool('_slk%d' % j)
                s.add(z3.Implies(b, c))
                lits.append(b)
            t = time.time()
            r = s.check(*lits)
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            if r == z3.sat:
                return kept
            if r == z3.unknown:
                return None
            core = {str(b) for b in s.unsat_core()}
            if not core:
                return None
            kept = [c for j, c in enumerate(kept) if '_slk%d' % j not in core]
        return kept


def _interior(c, eps, out, pos=True):
    """Strengthened forms of the inequalities asserted by c."""
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        _interior(c.arg(0), eps, out, not pos)
    elif k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
        for a in c.children():
            _interior(a, eps, out, pos)
    elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = c.arg(0), c.arg(1)
        if a.sort_kind() != z3.Z3_REAL_SORT:
            return
        le = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        if le != pos:
            a, b = b, a
        out.append(a + eps <= b)
    elif k == z3.Z3_OP_EQ and not pos and c.arg(0).sort_kind() == z3.Z3_REAL_SORT:
        a, b = c.arg(0), c.arg(1)
        out.append(z3.Or(a + eps <= b, b + eps <= a))
    elif k == z3.Z3_OP_DISTINCT and pos and c.num_args() == 2 and c.arg(0).sort_kind() == z3.Z3_REAL_SORT:
        a, b = c.arg(0), c.arg(1)
        out.append(z3.Or(a + eps <= b, b + eps <= a))
