"""Strings of fixed length whose characters are symbolic; a small matcher for regular expressions over them."""
import re
import z3

from . import core
from .core import SymNum, SymBool, Unsupported

try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:   # older versions
    import sre_parse
    import sre_constants as sc


def codes(s):
    return s.c if isinstance(s, SymStr) else [ord(ch) for ch in s]


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return a == b


def between(c, lo, hi):
    if isinstance(c, int):
        return z3.BoolVal(lo <= c <= hi)
    return z3.And(c >= lo, c <= hi)


class SymStr:
    """Stands for a str; every character is a code (int or z3 Int)."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = list(c)

    def __len__(self):
        return len(self.c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk(self.c[k])
        return mk([self.c[k]])

    def __iter__(self):
        return iter([mk([c]) for c in self.c])

    def _eq(self, o):
        if not isinstance(o, (str, SymStr)):
            return z3.BoolVal(False)
        b = codes(o)
        if len(b) != len(self.c):
            return z3.BoolVal(False)
        return z3.And(*[ceq(x, y) for x, y in zip(self.c, b)]) if b else z3.BoolVal(True)

    def __eq__(self, o):
        return bool(SymBool(self._eq(o)))

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return core.CONST_HASH

    def __add__(self, o):
        return mk(self.c + codes(o))

    def __radd__(self, o):
        return mk(codes(o) + self.c)

    def __contains__(self, s):
        return self.find(s) >= 0

    def find(self, s, start=0, end=None):
        b = codes(s)
        n = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, n - len(b) + 1):
            if self[i:i + len(b)] == s:
                return i
        return -1

    def rfind(self, s):
        b = codes(s)
        for i in range(len(self.c) - len(b), -1, -1):
            if self[i:i + len(b)] == s:
                return i
        return -1

    def index(self, s):
        i = self.find(s)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, s):
        i = self.rfind(s)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, s):
        n, i = 0, self.find(s)
        while i >= 0:
            n += 1
            i = self.find(s, i + len(codes(s)))
        return n

    def startswith(self, p, *a):
        if a:
            return self[a[0]:].startswith(p)
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return self[:len(p)] == p if len(p) <= len(self.c) else False

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        if len(p) == 0:
            return True
        return self[-len(p):] == p if len(p) <= len(self.c) else False

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if p and self.endswith(p) else self

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split by spaces')
        out, rest = [], self
        while maxsplit != 0:
            i = rest.find(sep) if isinstance(rest, SymStr) else rest.find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split by spaces')
        out, rest = [], self
        while maxsplit != 0:
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + out

    def partition(self, sep):
        i = self.find(sep)
        return (self, '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ('', '', self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def _all(self, f):
        return len(self.c) > 0 and bool(SymBool(z3.And(*[f(c) for c in self.c])))

    def isdigit(self):
        return self._all(lambda c: between(c, 48, 57))
    isdecimal = isnumeric = isdigit

    def isascii(self):
        return True

    def isalpha(self):
        return self._all(lambda c: z3.Or(between(c, 65, 90), between(c, 97, 122)))

    def isalnum(self):
        return self._all(lambda c: z3.Or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122)))

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        s = self
        while len(s) and isinstance(s, SymStr) and any(s[0] == x for x in (chars or ' \t\n\r\x0b\x0c')):
            s = s[1:]
        return s

    def rstrip(self, chars=None):
        s = self
        while len(s) and isinstance(s, SymStr) and any(s[-1] == x for x in (chars or ' \t\n\r\x0b\x0c')):
            s = s[:-1]
        return s

    def to_int(self):
        s = self.strip()
        if isinstance(s, str):
            return int(s)
        sign = 1
        if s[0] == '-':
            sign, s = -1, s[1:]
        elif s[0] == '+':
            s = s[1:]
        if not len(s) or not s.isdigit():
            raise ValueError('invalid literal for int()')
        v = z3.IntVal(0)
        for c in codes(s):
            v = v * 10 + (c - 48)
        return SymNum(z3.simplify(sign * v), 'i')

    def replace(self, old, new, count=-1):
        if not len(old):
            raise Unsupported('replace of an empty string')
        out, i = mk([]), 0
        while i < len(self.c):
            if count and i + len(old) <= len(self.c) and self[i:i + len(old)] == old:
                out, i, count = out + new, i + len(old), count - 1
            else:
                out, i = out + self[i:i + 1], i + 1
        return out

    def isspace(self):
        return self._all(lambda c: z3.Or(between(c, 9, 13), c == 32))

    def __mul__(self, n):
        return mk(self.c * n)
    __rmul__ = __mul__

    def join(self, parts):
        out = mk([])
        for i, x in enumerate(parts):
            out = out + (self if i else '') + x
        return out

    def ljust(self, n, ch=' '):
        return self + ch * max(0, n - len(self.c))

    def rjust(self, n, ch=' '):
        return ch * max(0, n - len(self.c)) + self

    def zfill(self, n):
        if self.startswith(('-', '+')):
            return self[:1] + mk([48] * max(0, n - len(self.c))) + self[1:]
        return self.rjust(n, '0')

    def _map(self, lo, hi, d):
        return mk([c + d if isinstance(c, int) and lo <= c <= hi else c if isinstance(c, int) else z3.If(between(c, lo, hi), c + d, c) for c in self.c])

    def lower(self):
        return self._map(65, 90, 32)
    casefold = lower

    def upper(self):
        return self._map(97, 122, -32)

    def __str__(self):
        raise Unsupported('text of a symbolic string')

    def __repr__(self):
        return '<SymStr %d>' % len(self.c)

    def __format__(self, spec):
        raise Unsupported('format of a symbolic string')

    def __lt__(self, o):
        raise Unsupported('order of strings')
    __gt__ = __le__ = __ge__ = __lt__


def mk(c):
    if all(isinstance(x, int) for x in c):
        return ''.join(map(chr, c))
    return SymStr(c)


# -- regular expressions -----------------------------------------------------------------------------

def _cat(c, cat):
    if cat == sc.CATEGORY_DIGIT:
        return between(c, 48, 57)
    if cat == sc.CATEGORY_NOT_DIGIT:
        return z3.Not(between(c, 48, 57))
    if cat in (sc.CATEGORY_WORD, sc.CATEGORY_NOT_WORD):
        w = z3.Or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122), ceq(c, 95))
        return w if cat == sc.CATEGORY_WORD else z3.Not(w)
    if cat in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
        w = z3.Or(ceq(c, 32), between(c, 9, 13))
        return w if cat == sc.CATEGORY_SPACE else z3.Not(w)
    raise Unsupported('regex category')


def _set(c, items):
    neg = False
    out = []
    for op, av in items:
        if op == sc.NEGATE:
            neg = True
        elif op == sc.LITERAL:
            out.append(ceq(c, av))
        elif op == sc.RANGE:
            out.append(between(c, av[0], av[1]))
        elif op == sc.CATEGORY:
            out.append(_cat(c, av))
        else:
            raise Unsupported('regex set')
    r = z3.Or(*out)
    return z3.Not(r) if neg else r


class Match:
    def __init__(self, s, spans, names):
        self.string, self.spans, self.names = s, spans, names

    def _i(self, k):
        return self.names[k] if isinstance(k, str) else k

    def span(self, k=0):
        return self.spans.get(self._i(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def group(self, *ks):
        ks = ks or (0,)
        r = [self.string[slice(*self.span(k))] if self._i(k) in self.spans else None for k in ks]
        return r[0] if len(r) == 1 else tuple(r)
    __getitem__ = group

    def groups(self, default=None):
        n = self.ngroups
        return tuple(self.group(i) if i in self.spans else default for i in range(1, n + 1))

    def groupdict(self):
        return {k: self.group(k) for k in self.names}

    def __bool__(self):
        return True


def _run(seq, i, s, pos, gr, cond):
    """All ways to match seq[i:] from pos, in order of preference: (condition, end, groups)."""
    if i == len(seq):
        yield cond, pos, gr
        return
    op, av = seq[i]
    n = len(s)

    def one(c):
        c = z3.simplify(c)
        if not z3.is_false(c):
            yield from _run(seq, i + 1, s, pos + 1, gr, cond if z3.is_true(c) else cond + [c])
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        if pos >= n:
            return
        ch = s[pos]
        yield from one(ceq(ch, av) if op == sc.LITERAL else z3.Not(ceq(ch, av)) if op == sc.NOT_LITERAL
                       else z3.Not(ceq(ch, 10)) if op == sc.ANY else _set(ch, av))
    elif op == sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if pos == 0:
                yield from _run(seq, i + 1, s, pos, gr, cond)
        elif av in (sc.AT_END_STRING, sc.AT_END):
            if pos == n:
                yield from _run(seq, i + 1, s, pos, gr, cond)
            elif av == sc.AT_END and pos == n - 1:
                yield from _run(seq, i + 1, s, pos, gr, cond + [ceq(s[pos], 10)])
        else:
            raise Unsupported('regex anchor')
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(cnt, p, g, cd):
            def more():
                if cnt < hi and cnt <= max(n, lo):
                    for c2, p2, g2 in _run(sub, 0, s, p, g, cd):
                        if p2 > p or cnt < lo:
                            yield from rep(cnt + 1, p2, g2, c2)
            if cnt < lo:
                yield from more()
            elif op == sc.MAX_REPEAT:
                yield from more()
                yield from _run(seq, i + 1, s, p, g, cd)
            else:
                yield from _run(seq, i + 1, s, p, g, cd)
                yield from more()
        yield from rep(0, pos, gr, cond)
    elif op == sc.SUBPATTERN:
        gid, add, dele, sub = av
        if add or dele:
            raise Unsupported('regex flags')
        for c2, p2, g2 in _run(list(sub), 0, s, pos, gr, cond):
            if gid is not None:
                g2 = dict(g2)
                g2[gid] = (pos, p2)
            yield from _run(seq, i + 1, s, p2, g2, c2)
    elif op == sc.BRANCH:
        for alt in av[1]:
            for c2, p2, g2 in _run(list(alt), 0, s, pos, gr, cond):
                yield from _run(seq, i + 1, s, p2, g2, c2)
    else:
        raise Unsupported('regex %s' % op)


def match(pattern, s, how):
    if isinstance(pattern, re.Pattern):
        if pattern.flags & ~(re.UNICODE | re.ASCII):
            raise Unsupported('regex flags')
        pattern = pattern.pattern
    if not isinstance(pattern, str):
        raise Unsupported('pattern')
    tree = sre_parse.parse(pattern)
    seq = list(tree)
    c = codes(s)
    starts = range(len(c) + 1) if how == 'search' else [0]
    for st in starts:
        for cond, end, gr in _run(seq, 0, c, st, {}, []):
            if how == 'fullmatch' and end != len(c):
                continue
            if cond and not SymBool(z3.And(*cond)):
                continue
            spans = dict(gr)
            spans[0] = (st, end)
            m = Match(s, spans, dict(tree.state.groupdict))
            m.ngroups = tree.state.groups - 1
            return m
    return None


class Pattern:
    """A compiled pattern of the code under test."""

    def __init__(self, p):
        self.p = p

    def _go(self, how, s, *a):
        if isinstance(s, SymStr):
            return match(self.p, s, how)
        return getattr(self.p, how)(s, *a)

    def search(self, s, *a):
        return self._go('search', s, *a)

    def match(self, s, *a):
        return self._go('match', s, *a)

    def fullmatch(self, s, *a):
        return self._go('fullmatch', s, *a)

    def __getattr__(self, n):
        return getattr(self.p, n)


def install(patch, in_repo):
    for how in ('search', 'match', 'fullmatch'):
        def mkw(orig, how=how):
            def w(pattern, string, flags=0):
                if isinstance(string, SymStr):
                    if flags:
                        raise Unsupported('regex flags')
                    return match(pattern.p if isinstance(pattern, Pattern) else pattern, string, how)
                return orig(pattern.p if isinstance(pattern, Pattern) else pattern, string, flags)
            return w
        patch(re, how, mkw)

    def mkc(orig):
        def w(pattern, flags=0):
            r = orig(pattern, flags)
            return Pattern(r) if in_repo() and isinstance(r.pattern, str) else r
        return w
    patch(re, 'compile', mkc)
