"""Contracts: discontinuities of velocity models (C16)."""
from pyded.spec import *


def jump(ls, i):
    """Whether P or S velocity jumps between layers i and i + 1."""
    return (ls[i].botPVelocity != ls[i + 1].topPVelocity
            or ls[i].botSVelocity != ls[i + 1].topSVelocity)


def far(a, b):
    return a - b if a >= b else b - a


def inner(ls, i):
    """Whether the jump below layer i is one from fluid to solid."""
    return (jump(ls, i) and ls[i].botSVelocity == 0
            and ls[i + 1].topSVelocity > 0)


class VGetNumLayers(Contract):
    target = 'VelocityModel.getNumLayers'
    args = {'self': 'VelocityModel'}
    result = 'int'
    props = ['C16']

    def ensures_len(self, result):
        return result == len(self.layers)


class GetDisconDepths(Contract):
    target = 'VelocityModel.getDisconDepths'
    args = {'self': 'VelocityModel'}
    result = 'list:real'
    fresh = True
    props = ['C16']

    def requires_layers(self):
        return len(self.layers) > 0

    def loop0_sound(self, k, discontinuities):
        return (len(discontinuities) >= 1
                and discontinuities[0] == self.layers[0].topDepth
                and forall(1, len(discontinuities), lambda i: exists(
                    0, k, lambda j: jump(self.layers, j)
                    and discontinuities[i] == self.layers[j].botDepth)))

    def loop0_complete(self, k, discontinuities):
        return forall(0, k, lambda j: implies(
            jump(self.layers, j), exists(
                1, len(discontinuities), lambda i:
                discontinuities[i] == self.layers[j].botDepth)))

    def ensures_ends(self, result):
        return (len(result) >= 2 and result[0] == self.layers[0].topDepth
                and result[len(result) - 1]
                == self.layers[len(self.layers) - 1].botDepth)

    def ensures_only_jumps(self, result):
        return forall(1, len(result) - 1, lambda i: exists(
            0, len(self.layers) - 1, lambda j: jump(self.layers, j)
            and result[i] == self.layers[j].botDepth))

    def ensures_every_jump(self, result):
        return forall(0, len(self.layers) - 1, lambda j: implies(
            jump(self.layers, j), exists(
                1, len(result) - 1, lambda i:
                result[i] == self.layers[j].botDepth)))


def closest_moho(ls, n, moho, depth, best):
    return (implies(best == 65, depth == 0 and forall(
                0, n, lambda j: implies(jump(ls, j), far(
                    moho, ls[j].botDepth) >= 65)))
            and implies(best != 65, best < 65
                        and far(moho, depth) == best and exists(
                            0, n, lambda j: jump(ls, j)
                            and ls[j].botDepth == depth))
            and forall(0, n, lambda j: implies(
                jump(ls, j), far(moho, ls[j].botDepth) >= best)))


def closest_cmb(ls, n, cmb, depth, best, radius):
    return (implies(best == radius, depth == radius)
            and implies(best != radius, best < radius
                        and far(cmb, depth) == best and exists(
                            0, n, lambda j: jump(ls, j)
                            and ls[j].botDepth == depth))
            and forall(0, n, lambda j: implies(
                jump(ls, j), far(cmb, ls[j].botDepth) >= best)))


def closest_iocb(ls, n, iocb, depth, best, radius):
    return (implies(best == radius - 100, depth == radius)
            and implies(best != radius - 100, best < radius - 100
                        and far(iocb, depth) == best and exists(
                            0, n, lambda j: inner(ls, j)
                            and ls[j].botDepth == depth))
            and forall(0, n, lambda j: implies(
                inner(ls, j), far(iocb, ls[j].botDepth) >= best)))


class FixDisconDepths(Contract):
    target = 'VelocityModel.fixDisconDepths'
    args = {'self': 'VelocityModel'}
    result = 'bool'
    modifies = ['self.mohoDepth', 'self.cmbDepth', 'self.iocbDepth']
    props = ['C16']

    def loop0_count(self, layerNum):
        return 0 <= layerNum and layerNum <= max(0, len(self.layers) - 1)

    def loop0_moho(self, layerNum, tempMohoDepth, mohoMin):
        return closest_moho(self.layers, layerNum, self.mohoDepth,
                            tempMohoDepth, mohoMin)

    def loop0_cmb(self, layerNum, tempCmbDepth, cmbMin):
        return closest_cmb(self.layers, layerNum, self.cmbDepth,
                           tempCmbDepth, cmbMin, self.radiusOfEarth)

    def loop0_iocb(self, layerNum, tempIocbDepth, iocbMin):
        return closest_iocb(self.layers, layerNum, self.iocbDepth,
                            tempIocbDepth, iocbMin, self.radiusOfEarth)

    def loop0_same(self, old):
        return (self.mohoDepth == old.self.mohoDepth
                and self.cmbDepth == old.self.cmbDepth
                and self.iocbDepth == old.self.iocbDepth)

    def ensures_moho_closest(self, old):
        """The moho is a discontinuity nearer than 65 km, none is nearer."""
        return implies(
            exists(0, len(self.layers) - 1, lambda j: jump(self.layers, j)
                   and far(old.self.mohoDepth, self.layers[j].botDepth)
                   < 65),
            exists(0, len(self.layers) - 1, lambda j: jump(self.layers, j)
                   and self.layers[j].botDepth == self.mohoDepth)
            and far(old.self.mohoDepth, self.mohoDepth) < 65
            and forall(0, len(self.layers) - 1, lambda j: implies(
                jump(self.layers, j),
                far(old.self.mohoDepth, self.layers[j].botDepth)
                >= far(old.self.mohoDepth, self.mohoDepth))))

    def ensures_moho_none(self, old):
        return implies(
            not exists(0, len(self.layers) - 1, lambda j:
                       jump(self.layers, j)
                       and far(old.self.mohoDepth, self.layers[j].botDepth)
                       < 65), self.mohoDepth == 0)

    def ensures_cmb_closest(self, old):
        return implies(
            exists(0, len(self.layers) - 1, lambda j: jump(self.layers, j)
                   and far(old.self.cmbDepth, self.layers[j].botDepth)
                   < self.radiusOfEarth),
            exists(0, len(self.layers) - 1, lambda j: jump(self.layers, j)
                   and self.layers[j].botDepth == self.cmbDepth)
            and forall(0, len(self.layers) - 1, lambda j: implies(
                jump(self.layers, j),
                far(old.self.cmbDepth, self.layers[j].botDepth)
                >= far(old.self.cmbDepth, self.cmbDepth))))

    def ensures_cmb_none(self, old):
        return implies(
            not exists(0, len(self.layers) - 1, lambda j:
                       jump(self.layers, j)
                       and far(old.self.cmbDepth, self.layers[j].botDepth)
                       < self.radiusOfEarth),
            self.cmbDepth == self.radiusOfEarth)

    def ensures_iocb_closest(self, old):
        return implies(
            self.iocbDepth != self.radiusOfEarth,
            self.iocbDepth != self.cmbDepth
            and exists(0, len(self.layers) - 1, lambda j:
                       inner(self.layers, j)
                       and self.layers[j].botDepth == self.iocbDepth)
            and forall(0, len(self.layers) - 1, lambda j: implies(
                inner(self.layers, j),
                far(old.self.iocbDepth, self.layers[j].botDepth)
                >= far(old.self.iocbDepth, self.iocbDepth))))

    def ensures_iocb_none(self, old):
        """The centre only if no fluid-to-solid discontinuity is near enough
        or the closest one is the core-mantle boundary."""
        return implies(
            self.iocbDepth == self.radiusOfEarth,
            forall(0, len(self.layers) - 1, lambda j: implies(
                inner(self.layers, j),
                far(old.self.iocbDepth, self.layers[j].botDepth)
                >= self.radiusOfEarth - 100))
            or exists(0, len(self.layers) - 1, lambda j:
                      inner(self.layers, j)
                      and (self.layers[j].botDepth == self.cmbDepth
                           or self.layers[j].botDepth == self.radiusOfEarth)
                      and forall(0, len(self.layers) - 1, lambda i: implies(
                          inner(self.layers, i),
                          far(old.self.iocbDepth, self.layers[i].botDepth)
                          >= far(old.self.iocbDepth,
                                 self.layers[j].botDepth))))
            or self.cmbDepth == self.radiusOfEarth)

    def ensures_reports(self, old, result):
        return implies(
            not result, self.mohoDepth == old.self.mohoDepth
            and self.cmbDepth == old.self.cmbDepth
            and (self.iocbDepth == old.self.iocbDepth
                 or old.self.iocbDepth == self.cmbDepth))
