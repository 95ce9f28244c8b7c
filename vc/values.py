"""Values of the symbolic machine.

bool   python bool or z3 Bool          float  Fraction, z3 Real, or NAN / PINF / NINF / ANY
int    python int or z3 Int            struct, tuple, closure: python tuple of fields
enum   En(variant, fields)             array, Vec: VecV(list of elements) or a symbolic sequence
ref    Ref(cell, path, slice)
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """A construct outside the supported subset: the obligation is undecided, never a violation."""


class Budget(Exception):
    """A path or time budget ran out: undecided."""


class Special:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN, PINF, NINF, ANY = Special('NaN'), Special('+inf'), Special('-inf'), Special('any')


class En:
    __slots__ = ('v', 'f')

    def __init__(self, v, f=()):
        self.v, self.f = v, tuple(f)

    def __repr__(self):
        return 'En%d%r' % (self.v, self.f)


class VecV:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return 'Vec%r' % (list(self.e),)


class Ref:
    __slots__ = ('c', 'p', 's')

    def __init__(self, c, p=(), s=None):
        self.c, self.p, self.s = c, tuple(p), s

    def __repr__(self):
        return '&%s%s%s' % (self.c, list(self.p), '' if self.s is None else '[%s..%s]' % self.s)


class FnVal:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


class StrV:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class SVec:
    """A sequence of symbolic length. `kind` is
       ('base', name, type id)              arbitrary elements, named so that reads can be cached
       ('ins', seq, position, value)        insertion
       ('set', seq, position, value)        update
       ('rem', seq, position)               removal
    """
    __slots__ = ('kind', 'n', 'facts')

    def __init__(self, kind, n, facts=()):
        self.kind, self.n, self.facts = kind, n, tuple(facts)

    def __repr__(self):
        return 'SVec(%s,n=%s)' % (self.kind[0:2], self.n)


class Opaque:
    """A value whose content is irrelevant (formatting, strings, events of unknown type)."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'opaque(%s)' % self.n


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_float(v):
    return isinstance(v, (Fraction, Special)) or (isinstance(v, z3.ArithRef) and v.is_real())


def q(v):
    """z3 term of a real value."""
    if isinstance(v, Fraction):
        return z3.RealVal(v) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
    return v


def zi(v):
    return z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def b_not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def b_and(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def leaves(v, path=()):
    """All scalar leaves of a value, as (path, leaf)."""
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    elif isinstance(v, En):
        for i, x in enumerate(v.f):
            yield from leaves(x, path + (i,))
    elif isinstance(v, VecV):
        for i, x in enumerate(v.e):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def same(a, b):
    """Syntactic equality of values."""
    if a is b:
        return True
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, En):
        return isinstance(b, En) and a.v == b.v and same(a.f, b.f)
    if isinstance(a, VecV):
        return isinstance(b, VecV) and same(a.e, b.e)
    if isinstance(a, Ref):
        return isinstance(b, Ref) and a.c == b.c and len(a.p) == len(b.p) and \
            all(same(x, y) for x, y in zip(a.p, b.p)) and same(a.s, b.s)
    if isinstance(a, SVec):
        return isinstance(b, SVec) and a.kind[0] == b.kind[0] and len(a.kind) == len(b.kind) and \
            all(same(x, y) for x, y in zip(a.kind, b.kind)) and same(a.n, b.n)
    if is_sym(a) or is_sym(b):
        return is_sym(a) and is_sym(b) and a.eq(b)
    if isinstance(a, FnVal):
        return isinstance(b, FnVal) and a.k == b.k
    if isinstance(a, StrV):
        return isinstance(b, StrV) and a.s == b.s
    if isinstance(a, Opaque):
        return isinstance(b, Opaque) and a.n == b.n
    return type(a) == type(b) and a == b
