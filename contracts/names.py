"""Contracts: phase names (C09)."""
from pyded.spec import *


def number_from(leg, start):
    return len(leg) > start and is_number(leg[start:])


def valid_leg(leg):
    """A leg symbol, a surface wave velocity, or a boundary depth alone or
    after the sign of a reflection."""
    return (leg == 'K' or leg == 'k' or leg == 'I' or leg == 'i'
            or leg == 'J' or leg == 'p' or leg == 's' or leg == 'm'
            or leg == 'c' or leg == 'P' or leg == 'S'
            or leg == 'Pdiff' or leg == 'Sdiff'
            or len(leg) == 2 and (leg[0] == 'P' or leg[0] == 'S')
            and (leg[1] == 'g' or leg[1] == 'b' or leg[1] == 'n')
            or len(leg) == 2 and (leg[0] == '^' or leg[0] == 'v')
            and (leg[1] == 'm' or leg[1] == 'c' or leg[1] == 'i')
            or len(leg) >= 2 and (leg[0] == '^' or leg[0] == 'v')
            and digit(leg[1])
            or len(leg) >= 1 and digit(leg[0])
            or leg.endswith('kmps'))


def digit(char):
    return char.isdigit() or char == '.'


class LegPuller(Contract):
    target = 'SeismicPhase.legPuller'
    args = {'name': 'str'}
    result = 'list:str'
    fresh = True
    props = ['C09']

    def may_raise_TauModelError():
        return True

    def loop0_range(name, offset):
        return 0 <= offset and offset <= len(name)

    def loop0_nothing_lost(name, offset, legs):
        return joined(legs, len(legs)) == name[0:offset]

    def loop0_valid(legs):
        return forall(0, len(legs), lambda i: valid_leg(legs[i]))

    def decreases0(name, offset):
        return len(name) - offset

    def ensures_end(result):
        return len(result) >= 1 and result[len(result) - 1] == 'END'

    def ensures_nothing_lost(name, result):
        """The legs put together again are the name."""
        return joined(result, len(result) - 1) == name

    def ensures_valid(result):
        return forall(0, len(result) - 1, lambda i: valid_leg(result[i]))

    def loop1_range(name, offset, pre):
        return pre.offset <= offset and offset <= len(name)

    def loop1_text(name, offset, numString, pre):
        return numString == name[pre.offset - 1:offset]

    def decreases1(name, offset):
        return len(name) - offset

    def loop2_range(name, offset, pre):
        return pre.offset <= offset and offset <= len(name)

    def loop2_text(name, offset, numString, pre):
        return numString == name[pre.offset - 1:offset]

    def decreases2(name, offset):
        return len(name) - offset
