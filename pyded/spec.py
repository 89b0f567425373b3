"""Run-time meaning of the contract language (plain CPython, real objects).
The verifier gives the same text a symbolic meaning."""
import math

TOL = 1e-9


class Contract(object):
    args = {}
    result = None
    modifies = ()
    fresh = False
    props = ()
    cases = None
    inline = ()
    bounded_only = False
    merge = False


class Lemma(object):
    args = {}
    props = ()


def forall(lo, hi, f):
    return all(f(i) for i in range(lo, hi))


def adjacent(lo, hi, f):
    return all(f(i, i + 1) for i in range(lo, hi - 1))


def exists(lo, hi, f):
    return any(f(i) for i in range(lo, hi))


def implies(a, b):
    return (not a) or b


def iff(a, b):
    return bool(a) == bool(b)


def close(a, b):
    """Equality of reals; at run time up to rounding."""
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def same(a, b):
    return a is b


def unchanged(xs, ys):
    """The same elements (of a list that the loop does not write to)."""
    return xs == ys


def is_none(x):
    return x is None


pi = math.pi
sin, cos, exp, log = math.sin, math.cos, math.exp, math.log
sqrt, asin, atan2 = math.sqrt, math.asin, math.atan2


def opaque(f):
    """The body is used only by contracts that name it in `reveal`."""
    return f


hidden = opaque


def total(lo, hi, f):
    return sum(f(i) for i in range(lo, hi))


def joined(xs, n):
    """The concatenation of the first n texts."""
    return ''.join(xs[:n])


def consider(x):
    return True


def is_number(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def is_whole(x):
    return abs(x - round(x)) < TOL


TEXTS = []


def every_text(f):
    """For every text (at run time: those of interest)."""
    return all(f(x) for x in TEXTS)


def every_number(f):
    return all(f(x) for x in ())


def line(path, i):
    return open(path).readlines()[i]


def line_count(path):
    return len(open(path).readlines())


def words_in(text):
    return len(text.split())


def word(text, i):
    return text.split()[i]
