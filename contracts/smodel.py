"""Contracts: slowness model (C13, C14, C15, C19, C23)."""
from pyded.spec import *

FIELDS = {
    'SlownessModel': {
        'radiusOfEarth': 'real', 'vMod': 'VelocityModel',
        'minDeltaP': 'real', 'maxDeltaP': 'real',
        'maxDepthInterval': 'real', 'maxRangeInterval': 'real',
        'maxInterpError': 'real', 'allowInnerCoreS': 'bool',
        'slowness_tolerance': 'real',
        'criticalDepths': 'list:CriticalDepth',
        'highSlownessLayerDepthsP': 'list:DepthRange',
        'highSlownessLayerDepthsS': 'list:DepthRange',
        'fluidLayerDepths': 'list:DepthRange',
        'PLayers': 'list:SlownessLayer', 'SLayers': 'list:SlownessLayer'},
}


def s_layers(m, isPWave):
    return m.PLayers if isPWave else m.SLayers


def contiguous(ls):
    """The layers join without gap or overlap, from top to bottom."""
    return (forall(0, len(ls), lambda i: ls[i].topDepth <= ls[i].botDepth)
            and adjacent(0, len(ls), lambda i, j:
                         ls[i].botDepth == ls[j].topDepth))


def ordered(ls):
    """Consequence of contiguity (see lemma OrderedFromContiguous)."""
    return (contiguous(ls) and forall(0, len(ls), lambda i:
            forall(0, i, lambda j: ls[j].botDepth <= ls[i].topDepth)))


class ToSlowness(Contract):
    target = 'SlownessModel.toSlowness'
    args = {'self': 'SlownessModel', 'velocity': 'real', 'depth': 'real'}
    result = 'real'
    props = ['C13', 'C15']

    def raises_SlownessModelError(velocity):
        return velocity == 0

    def ensures_slowness(self, velocity, depth, result):
        return close(result * velocity, self.radiusOfEarth - depth)


class Interpolate(Contract):
    target = 'SlownessModel.interpolate'
    args = {'self': 'SlownessModel', 'p': 'real', 'topVelocity': 'real',
            'topDepth': 'real', 'slope': 'real'}
    result = 'real'
    props = ['C15']

    def raises_SlownessModelError(p, slope):
        return p * slope + 1 == 0

    def ensures_slowness_at_depth(self, p, topVelocity, topDepth, slope,
                                  result):
        """p is the slowness of the linear velocity law at the depth."""
        return close(p * (topVelocity + slope * (result - topDepth)),
                     self.radiusOfEarth - result)


class DepthInFluid(Contract):
    target = 'SlownessModel.depthInFluid'
    args = {'self': 'SlownessModel', 'depth': 'real'}
    result = 'bool'
    props = ['C13', 'C23']

    def requires_closed(self):
        return forall(0, len(self.fluidLayerDepths), lambda i:
                      not is_none(self.fluidLayerDepths[i].topDepth)
                      and not is_none(self.fluidLayerDepths[i].botDepth))

    def ensures_iff(self, depth, result):
        return iff(result, exists(
            0, len(self.fluidLayerDepths), lambda i:
            self.fluidLayerDepths[i].topDepth <= depth
            and depth < self.fluidLayerDepths[i].botDepth))


def high_zones(m, isPWave):
    return (m.highSlownessLayerDepthsP if isPWave
            else m.highSlownessLayerDepthsS)


def in_high(z, depth, rayParam):
    return (z.topDepth <= depth and depth <= z.botDepth
            and (rayParam > z.rayParam
                 or rayParam == z.rayParam and depth == z.topDepth))


class DepthInHighSlowness(Contract):
    target = 'SlownessModel.depthInHighSlowness'
    args = {'self': 'SlownessModel', 'depth': 'real', 'rayParam': 'real',
            'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    result = 'bool'
    props = ['C23', 'C24']

    def requires_closed(self, isPWave):
        return forall(0, len(high_zones(self, isPWave)), lambda i:
                      not is_none(high_zones(self, isPWave)[i].topDepth)
                      and not is_none(high_zones(self, isPWave)[i].botDepth))

    def ensures_iff(self, depth, rayParam, isPWave, result):
        return iff(result, exists(
            0, len(high_zones(self, isPWave)), lambda i:
            in_high(high_zones(self, isPWave)[i], depth, rayParam)))


class GetNumLayers(Contract):
    target = 'SlownessModel.getNumLayers'
    args = {'self': 'SlownessModel', 'isPWave': 'bool'}
    result = 'int'
    props = ['C13']

    def ensures_len(self, isPWave, result):
        return result == (len(self.PLayers) if isPWave
                          else len(self.SLayers))


class LayerNumForDepth(Contract):
    target = 'SlownessModel.layerNumForDepth'
    args = {'self': 'SlownessModel', 'depth': 'real', 'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    result = 'int'
    props = ['C14']

    def requires_layers(self, isPWave):
        return (len(s_layers(self, isPWave)) > 0
                and ordered(s_layers(self, isPWave)))

    def raises_SlownessModelError(self, depth, isPWave):
        return (depth < s_layers(self, isPWave)[0].topDepth
                or depth > s_layers(self, isPWave)[
                    len(s_layers(self, isPWave)) - 1].botDepth)

    def loop0_bounds(self, isPWave, tooSmallNum, tooLargeNum):
        return (0 <= tooSmallNum and tooSmallNum <= tooLargeNum
                and tooLargeNum < len(s_layers(self, isPWave)))

    def loop0_above(self, isPWave, depth, tooSmallNum):
        return implies(tooSmallNum > 0, s_layers(self, isPWave)[
            tooSmallNum].topDepth <= depth)

    def loop0_below(self, isPWave, depth, tooLargeNum):
        return depth <= s_layers(self, isPWave)[tooLargeNum].botDepth

    def loop0_top(self, isPWave, depth, tooSmallNum):
        return s_layers(self, isPWave)[tooSmallNum].topDepth <= depth

    def decreases0(tooSmallNum, tooLargeNum):
        return tooLargeNum - tooSmallNum

    def ensures_contains(self, depth, isPWave, result):
        return (0 <= result and result < len(s_layers(self, isPWave))
                and s_layers(self, isPWave)[result].topDepth <= depth
                and depth <= s_layers(self, isPWave)[result].botDepth)


class SLayerNumberAbove(Contract):
    target = 'SlownessModel.layerNumberAbove'
    args = {'self': 'SlownessModel', 'depth': 'real', 'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    result = 'int'
    props = ['C14']

    def requires_layers(self, isPWave):
        return (len(s_layers(self, isPWave)) > 0
                and ordered(s_layers(self, isPWave)))

    def raises_SlownessModelError(self, depth, isPWave):
        return (depth < s_layers(self, isPWave)[0].topDepth
                or depth > s_layers(self, isPWave)[
                    len(s_layers(self, isPWave)) - 1].botDepth)

    def loop0_contains(self, depth, isPWave, foundLayerNum, tempLayer):
        return (0 <= foundLayerNum
                and foundLayerNum < len(s_layers(self, isPWave))
                and same(tempLayer, s_layers(self, isPWave)[foundLayerNum])
                and tempLayer.topDepth <= depth
                and depth <= tempLayer.botDepth)

    def decreases0(foundLayerNum):
        return foundLayerNum

    def ensures_contains(self, depth, isPWave, result):
        return (0 <= result and result < len(s_layers(self, isPWave))
                and s_layers(self, isPWave)[result].topDepth <= depth
                and depth <= s_layers(self, isPWave)[result].botDepth)

    def ensures_ends_there(self, depth, isPWave, result):
        return (s_layers(self, isPWave)[result].topDepth < depth
                or result == 0)


class SLayerNumberBelow(Contract):
    target = 'SlownessModel.layerNumberBelow'
    args = {'self': 'SlownessModel', 'depth': 'real', 'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    result = 'int'
    props = ['C14']

    def requires_layers(self, isPWave):
        return (len(s_layers(self, isPWave)) > 0
                and ordered(s_layers(self, isPWave)))

    def raises_SlownessModelError(self, depth, isPWave):
        return (depth < s_layers(self, isPWave)[0].topDepth
                or depth > s_layers(self, isPWave)[
                    len(s_layers(self, isPWave)) - 1].botDepth)

    def loop0_contains(self, depth, isPWave, foundLayerNum, tempLayer):
        return (0 <= foundLayerNum
                and foundLayerNum < len(s_layers(self, isPWave))
                and same(tempLayer, s_layers(self, isPWave)[foundLayerNum])
                and tempLayer.topDepth <= depth
                and depth <= tempLayer.botDepth)

    def decreases0(self, isPWave, foundLayerNum):
        return len(s_layers(self, isPWave)) - foundLayerNum

    def ensures_contains(self, depth, isPWave, result):
        return (0 <= result and result < len(s_layers(self, isPWave))
                and s_layers(self, isPWave)[result].topDepth <= depth
                and depth <= s_layers(self, isPWave)[result].botDepth)

    def ensures_starts_there(self, depth, isPWave, result):
        return (depth < s_layers(self, isPWave)[result].botDepth
                or result == len(s_layers(self, isPWave)) - 1)


@opaque
def inc_time(topP, topDepth, botP, botDepth, R, p):
    """Time of a ray p through a whole layer (one way)."""
    return (0 if topDepth == botDepth else
            topP if p == 0 and botDepth == R else
            ((sqrt((R - topDepth) * (R - topDepth)
                   - p * p * ((R - botDepth) / botP) * ((R - botDepth) / botP))
              - (0 if p == botP else
                 sqrt((R - botDepth) * (R - botDepth) - p * p
                      * ((R - botDepth) / botP) * ((R - botDepth) / botP))))
             / ((R - botDepth) / botP))
            if (R - topDepth) * botP == (R - botDepth) * topP else
            0 if botDepth - topDepth < 0.000000001 else
            (sqrt(topP * topP - p * p) - sqrt(botP * botP - p * p))
            / (log(topP / botP) / log((R - topDepth) / (R - botDepth))))


@opaque
def inc_dist(topP, topDepth, botP, botDepth, R, p):
    """Distance of a ray p through a whole layer (one way)."""
    return (0 if topDepth == botDepth else
            pi / 2 if p == 0 and botDepth == R else
            asin((sqrt((R - topDepth) * (R - topDepth)
                       - p * p * ((R - botDepth) / botP)
                       * ((R - botDepth) / botP))
                  - (0 if p == botP else
                     sqrt((R - botDepth) * (R - botDepth) - p * p
                          * ((R - botDepth) / botP)
                          * ((R - botDepth) / botP))))
                 * p * ((R - botDepth) / botP)
                 / ((R - topDepth) * (R - botDepth)))
            if (R - topDepth) * botP == (R - botDepth) * topP else
            0 if botDepth - topDepth < 0.000000001 else
            (atan2(p, sqrt(botP * botP - p * p))
             - atan2(p, sqrt(topP * topP - p * p)))
            / (log(topP / botP) / log((R - topDepth) / (R - botDepth))))


@hidden
def crossable(topP, topDepth, botP, botDepth, R, tol):
    """Depths and slownesses are in range, and the velocities at the ends are
    equal or differ by more than the tolerance (1e-16, i.e. always for floats
    of this magnitude); equal slownesses at different depths are excluded (no
    Bullen law is defined for them)."""
    return (0 <= topDepth and topDepth <= botDepth and botDepth <= R
            and topP > 0 and botP >= 0 and tol > 0
            and implies(topDepth < R and botDepth < R, botP > 0)
            and implies(botDepth == R, botP == 0)
            and implies(
                topDepth < botDepth and botDepth < R,
                topP != botP and
                (R - topDepth) * (R - topDepth)
                - (R - botDepth) * (R - botDepth) >= tol and
                ((R - topDepth) * botP == (R - botDepth) * topP
                 or abs((R - topDepth) / topP
                        - (R - botDepth) / botP) >= tol)))


def layer_usable(l, R, tol):
    return crossable(l.topP, l.topDepth, l.botP, l.botDepth, R, tol)


def layer_time(l, R, p):
    return inc_time(l.topP, l.topDepth, l.botP, l.botDepth, R, p)


def layer_dist(l, R, p):
    return inc_dist(l.topP, l.topDepth, l.botP, l.botDepth, R, p)


class LayerTimeDist(Contract):
    target = 'SlownessModel.layerTimeDist'
    merge = False
    reveal = ['inc_time', 'inc_dist', 'crossable']
    args = {'self': 'SlownessModel', 'sphericalRayParam': 'real',
            'layerNum': 'int', 'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    result = 'TimeDist'
    fresh = True
    props = ['C19']

    def requires_layer(self, layerNum, isPWave):
        return (0 <= layerNum and layerNum < len(s_layers(self, isPWave)))

    def requires_geometry(self, layerNum, isPWave):
        return layer_usable(s_layers(self, isPWave)[layerNum],
                            self.radiusOfEarth, self.slowness_tolerance)

    def requires_centre_last(self, layerNum, isPWave):
        return implies(s_layers(self, isPWave)[layerNum].botDepth
                       == self.radiusOfEarth and s_layers(
                           self, isPWave)[layerNum].topDepth
                       < self.radiusOfEarth,
                       layerNum == len(s_layers(self, isPWave)) - 1)

    def raises_SlownessModelError(self, sphericalRayParam, layerNum,
                                  isPWave):
        l = s_layers(self, isPWave)[layerNum]
        return (sphericalRayParam < 0 or sphericalRayParam > l.topP
                or sphericalRayParam > l.botP)

    def ensures_ray_parameter(sphericalRayParam, result):
        return result.p == sphericalRayParam

    def ensures_time(self, sphericalRayParam, layerNum, isPWave, result):
        return close(result.time, layer_time(
            s_layers(self, isPWave)[layerNum], self.radiusOfEarth,
            sphericalRayParam))

    def ensures_dist(self, sphericalRayParam, layerNum, isPWave, result):
        return close(result.distRadian, layer_dist(
            s_layers(self, isPWave)[layerNum], self.radiusOfEarth,
            sphericalRayParam))

    def ensures_non_negative(result):
        return result.time >= 0 and result.distRadian >= 0

    def ensures_no_thickness(self, layerNum, isPWave, result):
        l = s_layers(self, isPWave)[layerNum]
        return implies(l.topDepth == l.botDepth,
                       result.time == 0 and result.distRadian == 0)

    def ensures_vertical(self, sphericalRayParam, layerNum, isPWave, result):
        l = s_layers(self, isPWave)[layerNum]
        return implies(sphericalRayParam == 0
                       and l.botDepth < self.radiusOfEarth,
                       result.distRadian == 0)

    def ensures_centre(self, layerNum, isPWave, result):
        l = s_layers(self, isPWave)[layerNum]
        return implies(l.topDepth < l.botDepth
                       and l.botDepth == self.radiusOfEarth,
                       result.time == l.topP
                       and close(result.distRadian * 2, pi))


def s_contiguous_from(ls, R, first_p):
    return (forall(0, len(ls), lambda i:
                   ls[i].topP >= 0 and ls[i].botP >= 0
                   and ls[i].topDepth <= ls[i].botDepth
                   and ls[i].botDepth <= R)
            and implies(len(ls) > 0, ls[0].topDepth == 0)
            and forall(0, len(ls) - 1, lambda i:
                       ls[i].botDepth == ls[i + 1].topDepth
                       and ls[i].botP == ls[i + 1].topP))


def zones_ok(zs):
    return (forall(0, len(zs), lambda i:
                   zs[i].topDepth < zs[i].botDepth)
            and forall(0, len(zs) - 1, lambda i:
                       zs[i].botDepth < zs[i + 1].topDepth)
            and implies(len(zs) > 0, zs[0].topDepth > -1e300))


def zones_closed(zs):
    return forall(0, len(zs), lambda i: not is_none(zs[i].topDepth)
                  and not is_none(zs[i].botDepth))


class SValidate(Contract):
    target = 'SlownessModel.validate'
    args = {'self': 'SlownessModel'}
    result = 'bool'
    allocates = True
    props = ['C13', 'C23']

    def requires_closed(self):
        return (zones_closed(self.highSlownessLayerDepthsP)
                and zones_closed(self.highSlownessLayerDepthsS)
                and zones_closed(self.fluidLayerDepths))

    def raises_SlownessModelError(self):
        return not (
            self.radiusOfEarth > 0 and self.maxDepthInterval > 0
            and zones_ok(self.highSlownessLayerDepthsP)
            and zones_ok(self.highSlownessLayerDepthsS)
            and zones_ok(self.fluidLayerDepths)
            and s_contiguous_from(self.PLayers, self.radiusOfEarth, 0)
            and s_contiguous_from(self.SLayers, self.radiusOfEarth, 0))

    def ensures_true(result):
        return result


def shifted(a, b, layerNum, isPWave):
    return (a.depth == b.depth and a.velLayerNum == b.velLayerNum
            and a.pLayerNum == b.pLayerNum + (
                1 if isPWave and b.pLayerNum > layerNum else 0)
            and a.sLayerNum == b.sLayerNum + (
                1 if not isPWave and b.sLayerNum > layerNum else 0))


class FixCriticalDepths(Contract):
    target = 'SlownessModel.fixCriticalDepths'
    args = {'criticalDepths': 'list:CriticalDepth', 'layerNum': 'int',
            'isPWave': 'bool'}
    cases = [{'isPWave': True}, {'isPWave': False}]
    modifies = ['criticalDepths[]']
    allocates = True
    props = ['C04', 'C23']

    def loop0_same_number(criticalDepths, old):
        return len(criticalDepths) == len(old.criticalDepths)

    def loop0_done(k, criticalDepths, layerNum, isPWave, old):
        return forall(0, k, lambda i: shifted(
            criticalDepths[i], old.criticalDepths[i], layerNum, isPWave))

    def loop0_rest(k, criticalDepths, old):
        return forall(k, len(criticalDepths), lambda i: same(
            criticalDepths[i], old.criticalDepths[i]))

    def ensures_same_number(criticalDepths, old):
        return len(criticalDepths) == len(old.criticalDepths)

    def ensures_shifted(criticalDepths, layerNum, isPWave, old):
        return forall(0, len(criticalDepths), lambda i: shifted(
            criticalDepths[i], old.criticalDepths[i], layerNum, isPWave))
