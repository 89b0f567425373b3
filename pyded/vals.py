"""Symbolic values and the heap model of the verifier."""
from fractions import Fraction
import z3


class Undecided(Exception):
    """The construct is outside the verifier's subset."""


class UndefRead(Undecided):
    pass


I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Obj:
    __slots__ = ('cls', 'ref', 'heap')

    def __init__(self, cls, ref, heap=None):
        self.cls, self.ref, self.heap = cls, ref, heap


class Lst:
    __slots__ = ('elem', 'ref', 'heap', 'site')

    def __init__(self, elem, ref, heap=None, site=None):
        self.elem, self.ref, self.heap, self.site = elem, ref, heap, site


class SymStr:
    """A string known only by an identity; predicates on it are uninterpreted."""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class Opt:
    __slots__ = ('none', 'val')

    def __init__(self, none, val):
        self.none, self.val = none, val


class SetV:
    def __init__(self, items):
        self.items = items


class SetOf:
    """The members of a list; order: in the order of their first place."""

    def __init__(self, src, order=False):
        self.src, self.order = src, order


class MaybeUndef:
    __slots__ = ('cond', 'val')

    def __init__(self, cond, val):
        while isinstance(val, MaybeUndef):
            import z3
            b = [z3.BoolVal(x) if isinstance(x, bool) else x
                 for x in (cond, val.cond)]
            cond, val = z3.simplify(z3.And(*b)), val.val
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        self.cond, self.val = cond, val


class Opaque:
    """A value nothing is known about (messages, formatted strings)."""

    def __repr__(self):
        return 'Opaque'


class Fn:
    def __init__(self, info, recv=None):
        self.info, self.recv = info, recv


class Cls:
    def __init__(self, name):
        self.name = name


class Mod:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv


class LambdaV:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Iter:
    """An iterable: cond(k, st) is true while item k exists; item(k, st) is the
    k-th item; n is the static length if known."""

    def __init__(self, cond, item, n=None, src=None):
        self.cond, self.item, self.n, self.src = cond, item, n, src
        self.at_head = self.check = None


class OldNS:
    """The `old` namespace of a contract."""

    def __init__(self, args, heap):
        self.args, self.heap = args, heap


def isz(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    if isinstance(v, bool):
        return False
    return isinstance(v, (int, Fraction)) or \
        (isz(v) and v.sort() in (I, R))


def is_bool(v):
    return isinstance(v, bool) or (isz(v) and v.sort() == B)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or \
        (isz(v) and v.sort() == I)


def zi(v):
    if isz(v):
        return v
    return z3.IntVal(v)


def zr(v):
    if isz(v):
        return v if v.sort() == R else z3.ToReal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v.numerator)) / z3.RealVal(str(v.denominator)) \
            if v.denominator != 1 else z3.RealVal(v.numerator)
    return z3.RealVal(v)


def zb(v):
    if isz(v):
        return v
    return z3.BoolVal(bool(v))


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if a is False or b is True:
        return True
    if a is True:
        return b
    if b is False:
        return Not(a)
    return z3.Implies(zb(a), zb(b))


def simp_bool(x):
    if isinstance(x, bool):
        return x
    s = z3.simplify(x)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return x


def simp_num(x):
    """Simplify; numerals become Python numbers."""
    if not isz(x):
        return x
    s = z3.simplify(x)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return s


def sort_of(t):
    if t == 'real':
        return R
    if t == 'bool':
        return B
    return I           # int, references, strings


def data_key(elem):
    if elem == 'real':
        return 'data:R'
    if elem == 'bool':
        return 'data:B'
    if elem == 'int':
        return 'data:I'
    if elem == 'str':
        return 'data:S'
    return 'data:ref'
