"""Contracts: queries and splitting of slowness models (C04, C05, C13, C15,
C23)."""
from pyded.spec import *


def model_layers_ok(m, ls):
    return (len(ls) > 0 and ordered(ls) and ls[0].topDepth == 0
            and ls[len(ls) - 1].botDepth == m.radiusOfEarth
            and forall(0, len(ls), lambda i:
                       ls[i].topP > 0 and ls[i].botP >= 0
                       and implies(ls[i].botDepth < m.radiusOfEarth,
                                   ls[i].botP > 0)
                       and implies(ls[i].botDepth == m.radiusOfEarth,
                                   i == len(ls) - 1 and ls[i].botP == 0)))


class GetMinTurnRayParam(Contract):
    target = 'SlownessModel.getMinTurnRayParam'
    args = {'self': 'SlownessModel', 'depth': 'real', 'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    result = 'real'
    props = ['C24', 'C23']

    def requires_layers(self, depth, isPWave):
        return (model_layers_ok(self, s_layers(self, isPWave))
                and 0 < depth and depth <= self.radiusOfEarth)

    def requires_zones(self, isPWave):
        return zones_closed(high_zones(self, isPWave))

    def requires_not_in_centre_layer(self, depth, isPWave):
        """The innermost layer (down to r = 0) is not split."""
        ls = s_layers(self, isPWave)
        return (depth <= ls[len(ls) - 1].topDepth
                or depth == self.radiusOfEarth)

    def requires_small(self, isPWave):
        return forall(0, len(s_layers(self, isPWave)), lambda i:
                      s_layers(self, isPWave)[i].botP < 1e300)

    def loop0_min(self, k, isPWave, depth, minPSoFar):
        ls = s_layers(self, isPWave)
        return (forall(0, k, lambda i: minPSoFar <= ls[i].botP
                       and ls[i].botDepth < depth)
                and (minPSoFar == 1e300 and k == 0
                     or exists(0, k, lambda i: minPSoFar == ls[i].botP)))

    def ensures_at_sample(self, depth, isPWave, result):
        ls = s_layers(self, isPWave)
        return implies(
            not exists(0, len(high_zones(self, isPWave)), lambda i:
                       in_high(high_zones(self, isPWave)[i], depth, 1e300)),
            exists(0, len(ls), lambda i:
                   (ls[i].topDepth < depth or i == 0)
                   and ls[i].topDepth <= depth and depth <= ls[i].botDepth
                   and implies(depth == ls[i].botDepth,
                               result == ls[i].botP)))

    def ensures_high(self, depth, isPWave, result):
        """In a high slowness zone: the smallest slowness met so far."""
        ls = s_layers(self, isPWave)
        return implies(
            exists(0, len(high_zones(self, isPWave)), lambda i:
                   in_high(high_zones(self, isPWave)[i], depth, 1e300)),
            forall(0, len(ls), lambda i: implies(
                ls[i].botDepth < depth, result <= ls[i].botP)))


class GetMinRayParam(Contract):
    target = 'SlownessModel.getMinRayParam'
    args = {'self': 'SlownessModel', 'depth': 'real', 'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    result = 'real'
    props = ['C24', 'C23']

    def requires_layers(self, depth, isPWave):
        return (model_layers_ok(self, s_layers(self, isPWave))
                and 0 < depth and depth <= self.radiusOfEarth)

    def requires_zones(self, isPWave):
        return zones_closed(high_zones(self, isPWave))

    def requires_not_in_centre_layer(self, depth, isPWave):
        ls = s_layers(self, isPWave)
        return (depth <= ls[len(ls) - 1].topDepth
                or depth == self.radiusOfEarth)

    def requires_small(self, isPWave):
        return forall(0, len(s_layers(self, isPWave)), lambda i:
                      s_layers(self, isPWave)[i].botP < 1e300)

    def ensures_not_above_boundary_values(self, depth, isPWave, result):
        """At a boundary: neither the slowness above nor the one below it is
        smaller."""
        ls = s_layers(self, isPWave)
        return exists(0, len(ls), lambda i: exists(0, len(ls), lambda j:
                      ls[i].topDepth <= depth and depth <= ls[i].botDepth
                      and (ls[i].topDepth < depth or i == 0)
                      and ls[j].topDepth <= depth and depth <= ls[j].botDepth
                      and (depth < ls[j].botDepth or j == len(ls) - 1)
                      and implies(ls[i].botDepth == depth,
                                  result <= ls[i].botP
                                  and result <= ls[j].topP)))


class FixCriticalPoints(Contract):
    target = 'SlownessModel.fixCriticalPoints'
    args = {'self': 'SlownessModel'}
    modifies = ['CriticalDepth.pLayerNum', 'CriticalDepth.sLayerNum']
    props = ['C23']

    def requires_layers(self):
        return (model_layers_ok(self, self.PLayers)
                and model_layers_ok(self, self.SLayers))

    def requires_depths(self):
        """Critical depths are distinct objects at layer boundaries."""
        return (forall(0, len(self.criticalDepths), lambda i:
                       0 <= self.criticalDepths[i].depth
                       and self.criticalDepths[i].depth
                       <= self.radiusOfEarth)
                and forall(0, len(self.criticalDepths), lambda i:
                           forall(0, i, lambda j: not same(
                               self.criticalDepths[i],
                               self.criticalDepths[j]))))

    def loop0_done(self, k):
        return forall(0, k, lambda i: crit_layers(
            self, self.criticalDepths[i]))

    def ensures_layers(self):
        return forall(0, len(self.criticalDepths), lambda i:
                      crit_layers(self, self.criticalDepths[i]))


def starts_at(ls, n, depth):
    """Layer n is the last one whose top is at or above the depth (or n is
    one past the last layer for the bottom of the model)."""
    return (0 <= n and n <= len(ls)
            and implies(n < len(ls), ls[n].topDepth <= depth
                        and depth < ls[n].botDepth)
            and implies(n == len(ls), ls[len(ls) - 1].botDepth == depth))


def crit_layers(m, cd):
    return (starts_at(m.PLayers, cd.pLayerNum, cd.depth)
            and starts_at(m.SLayers, cd.sLayerNum, cd.depth))
