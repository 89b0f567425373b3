"""Contracts: reading model files (C12)."""
from pyded.spec import *


def content(filename, j):
    """A line without its comment."""
    return line(filename, j).partition('#')[0]


@hidden
def sample(filename, j: int):
    """Line j holds a sample: it is not blank but for a comment."""
    return words_in(content(filename, j)) > 0


@opaque
def value(filename, j: int, i: int):
    return float(word(content(filename, j), i))


@hidden
def whole_sample(filename, j: int):
    """Depth, both velocities and a density; S is not above P."""
    return (words_in(content(filename, j)) == 4
            and value(filename, j, 2) <= value(filename, j, 1))


@hidden
def neighbours(filename, a: int, b: int):
    """Lines a and b are consecutive samples (the first two lines of the
    file are its header)."""
    return (2 <= a and a < b and sample(filename, a) and sample(filename, b)
            and forall(a + 1, b, lambda c: not sample(filename, c)))


@hidden
def ends_layer(filename, b: int):
    """Line b is a sample at another depth than the one before it."""
    return sample(filename, b) and exists(
        2, b, lambda a: neighbours(filename, a, b)
        and value(filename, a, 0) != value(filename, b, 0))


def layers_before(filename, b):
    return total(2, b, lambda j: 1 if ends_layer(filename, j) else 0)


@hidden
def is_layer(filename, i: int, td, bd, tp, bp, ts, bs, tr, br):
    """These are the values of the i-th pair of consecutive samples at
    different depths."""
    return exists(2, line_count(filename), lambda b: ends_layer(filename, b)
                  and i == layers_before(filename, b)
                  and bd == value(filename, b, 0)
                  and bp == value(filename, b, 1)
                  and bs == value(filename, b, 2)
                  and br == value(filename, b, 3)
                  and exists(2, b, lambda a: neighbours(filename, a, b)
                             and td == value(filename, a, 0)
                             and tp == value(filename, a, 1)
                             and ts == value(filename, a, 2)
                             and tr == value(filename, a, 3)))


@hidden
def last_sample(filename, n: int, d, p, s, r):
    """The last sample in the first n lines."""
    return exists(2, n, lambda a: sample(filename, a)
                  and forall(a + 1, n, lambda c: not sample(filename, c))
                  and d == value(filename, a, 0)
                  and p == value(filename, a, 1)
                  and s == value(filename, a, 2)
                  and r == value(filename, a, 3))


def layers_of(filename, ls):
    """Layer i lies between the i-th such pair."""
    return forall(0, len(ls), lambda i: is_layer(
        filename, i, ls[i].topDepth, ls[i].botDepth, ls[i].topPVelocity,
        ls[i].botPVelocity, ls[i].topSVelocity, ls[i].botSVelocity,
        ls[i].topDensity, ls[i].botDensity))


class ReadTVelFile(Contract):
    target = 'VelocityModel.readTVelFile'
    args = {'filename': 'str'}
    result = 'VelocityModel'
    fresh = True
    inline = ['VelocityModel.__init__', 'VelocityLayer.__init__']
    reveal = ['is_layer', 'last_sample', 'ends_layer', 'sample', 'value', 'neighbours', 'whole_sample']
    props = ['C12']

    def may_raise_TauPException():
        return True

    def may_raise_ValueError():
        return True

    def may_raise_IndexError():
        return True

    # the first sample
    def loop0_blank(filename, k):
        return forall(2, k + 2, lambda j: not sample(filename, j))

    def loop0_empty(columns):
        return len(columns) == 0

    def loop0_count(filename, k):
        return layers_before(filename, k + 2) == 0

    # the others
    def loop1_read(filename, k, pre, f):
        return (f.pos == pre.f.pos + k and 3 <= pre.f.pos
                and f.pos <= line_count(filename))

    def loop1_last(filename, f, topDepth, topPVel, topSVel, topDensity):
        return last_sample(filename, f.pos, topDepth, topPVel, topSVel,
                           topDensity)

    def loop1_whole(filename, f):
        return forall(2, f.pos, lambda j: implies(
            sample(filename, j), whole_sample(filename, j)))

    def loop1_count(filename, f, layers, myLayerNumber):
        return (len(layers) == layers_before(filename, f.pos)
                and myLayerNumber == len(layers))

    def loop1_number(layers):
        return forall(0, len(layers), lambda i: layers[i].layer_number == i)

    def loop1_pair(filename, layers):
        return layers_of(filename, layers)

    def ensures_count(filename, result):
        """As many layers as pairs of consecutive samples at different
        depths."""
        return len(result.layers) == layers_before(
            filename, line_count(filename))

    def ensures_pair(filename, result):
        return layers_of(filename, result.layers)

    def ensures_number(result):
        return forall(0, len(result.layers), lambda i:
                      result.layers[i].layer_number == i)

    def ensures_whole(filename):
        """Samples without density or with S above P are refused."""
        return forall(2, line_count(filename), lambda j: implies(
            sample(filename, j), whole_sample(filename, j)))

    def ensures_radius(filename, result):
        """The last depth is the radius."""
        return exists(2, line_count(filename), lambda a: sample(
            filename, a) and forall(
                a + 1, line_count(filename), lambda c: not sample(
                    filename, c))
            and result.radiusOfEarth == value(filename, a, 0)
            and result.maxRadius == value(filename, a, 0))


class ReadVelocityFile(Contract):
    target = 'VelocityModel.readVelocityFile'
    args = {'filename': 'str'}
    result = 'VelocityModel'
    fresh = True
    merge = False
    props = ['C12']

    def raises_NotImplementedError(filename):
        return filename.endswith('.nd')

    def may_raise_TauPException(filename):
        return not filename.endswith('.nd')

    def may_raise_ValueError(filename):
        return filename.endswith('.tvel')

    def may_raise_IndexError(filename):
        return filename.endswith('.tvel')

    def ensures_kind(filename):
        """Only tvel files are read."""
        return filename.endswith('.tvel')

    def ensures_layers(filename, result):
        return (len(result.layers) == layers_before(
                filename, line_count(filename))
                and layers_of(filename, result.layers))
