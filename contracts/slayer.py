"""Contracts: slowness layers and small helpers (C13, C14, C15, C19)."""
from pyded.spec import *

FIELDS = {
    'SlownessLayer': {'topP': 'real', 'botP': 'real', 'topDepth': 'real',
                      'botDepth': 'real'},
    'TimeDist': {'p': 'real', 'depth': 'real', 'time': 'real',
                 'distRadian': 'real'},
    'CriticalDepth': {'depth': 'real', 'velLayerNum': 'int',
                      'pLayerNum': 'int', 'sLayerNum': 'int'},
    'DepthRange': {'topDepth': 'opt:real', 'botDepth': 'opt:real',
                   'rayParam': 'real'},
    'SplitLayerInfo': {'sMod': 'SlownessModel', 'neededSplit': 'bool',
                       'movedSample': 'bool', 'rayParam': 'real'},
}


class SlownessLayerInit(Contract):
    target = 'SlownessLayer.__init__'
    args = {'self': 'SlownessLayer', 'topP': 'real', 'topDepth': 'real',
            'botP': 'real', 'botDepth': 'real'}
    modifies = ['self.topP', 'self.botP', 'self.topDepth', 'self.botDepth']
    props = ['C13']

    def raises_ValueError(topDepth, botDepth):
        return topDepth < 0 or botDepth < 0

    def ensures_fields(self, topP, topDepth, botP, botDepth):
        return (self.topP == topP and self.botP == botP
                and self.topDepth == topDepth and self.botDepth == botDepth)


class TimeDistAdd(Contract):
    target = 'TimeDist.add'
    args = {'self': 'TimeDist', 'td': 'TimeDist'}
    modifies = ['self.time', 'self.distRadian']
    props = ['C06', 'C19']

    def requires_other(self, td):
        return not same(self, td)

    def ensures_sum(self, td, old):
        return (self.time == old.self.time + td.time
                and self.distRadian == old.self.distRadian + td.distRadian)


class TimeDistDeg(Contract):
    target = 'TimeDist.getDistDeg'
    args = {'self': 'TimeDist'}
    result = 'real'
    props = ['C02']

    def ensures_degrees(self, result):
        return close(result * pi, self.distRadian * 180)


class SLayerValidate(Contract):
    target = 'SlownessLayer.validate'
    args = {'self': 'SlownessLayer'}
    result = 'bool'
    props = ['C13']

    def raises_SlownessModelError(self):
        return (self.topP < 0 or self.botP < 0
                or self.topDepth > self.botDepth)

    def ensures_true(result):
        return result


class BullenRadial(Contract):
    target = 'SlownessLayer.bullenRadialSlowness'
    private = ['law']
    args = {'self': 'SlownessLayer', 'p': 'real', 'radiusOfEarth': 'real'}
    result = 'TimeDist'
    fresh = True
    props = ['C19']

    def requires_layer(self, radiusOfEarth):
        return (0 <= self.topDepth and self.topDepth <= self.botDepth
                and self.botDepth < radiusOfEarth
                and self.topP > 0 and self.botP > 0)

    def requires_crossable(self, p):
        return 0 <= p and p <= self.topP and p <= self.botP

    def requires_not_critical(self):
        return implies(self.topDepth < self.botDepth,
                       self.topP != self.botP)

    def ensures_non_negative(result):
        return result.time >= 0 and result.distRadian >= 0

    def ensures_ray_parameter(p, result):
        return result.p == p

    def ensures_no_thickness(self, result):
        return implies(self.topDepth == self.botDepth,
                       result.time == 0 and result.distRadian == 0)

    def ensures_vertical(p, result):
        return implies(p == 0, result.distRadian == 0)

    def ensures_too_thin(self, result):
        return implies(self.botDepth - self.topDepth < 0.000000001,
                       result.time == 0 and result.distRadian == 0)

    def ensures_quotient(self, p, radiusOfEarth, result):
        return implies(
            self.botDepth - self.topDepth >= 0.000000001,
            close(result.time, (sqrt(self.topP * self.topP - p * p)
                                - sqrt(self.botP * self.botP - p * p))
                  / (log(self.topP / self.botP)
                     / log((radiusOfEarth - self.topDepth)
                           / (radiusOfEarth - self.botDepth))))
            and close(result.distRadian,
                      (atan2(p, sqrt(self.botP * self.botP - p * p))
                       - atan2(p, sqrt(self.topP * self.topP - p * p)))
                      / (log(self.topP / self.botP)
                         / log((radiusOfEarth - self.topDepth)
                               / (radiusOfEarth - self.botDepth)))))

    def ensures_law(self, p, radiusOfEarth, result):
        return implies(
            self.botDepth - self.topDepth >= 0.000000001,
            close(result.time * log(self.topP / self.botP),
                  (sqrt(self.topP * self.topP - p * p)
                   - sqrt(self.botP * self.botP - p * p)) * log(
                       (radiusOfEarth - self.topDepth)
                       / (radiusOfEarth - self.botDepth)))
            and close(result.distRadian * log(self.topP / self.botP),
                      (atan2(p, sqrt(self.botP * self.botP - p * p))
                       - atan2(p, sqrt(self.topP * self.topP - p * p)))
                      * log((radiusOfEarth - self.topDepth)
                            / (radiusOfEarth - self.botDepth))))


@opaque
def turn_depth(topP, topDepth, botP, botDepth, p, R):
    """Depth at which a layer has the slowness p."""
    return (topDepth if p == topP else botDepth if p == botP else
            botDepth + (p - botP) * (topDepth - botDepth) / (topP - botP)
            if botDepth == R else
            R - (R - topDepth) * exp(
                log(p / topP) / (log(topP / botP)
                                 / log((R - topDepth) / (R - botDepth)))))


class BullenDepth(Contract):
    target = 'SlownessLayer.bullenDepthFor'
    reveal = ['turn_depth']
    private = ['law']
    args = {'self': 'SlownessLayer', 'rayParam': 'real',
            'radiusOfEarth': 'real'}
    result = 'real'
    props = ['C15']

    def requires_layer(self, radiusOfEarth):
        return (0 <= self.topDepth and self.topDepth <= self.botDepth
                and self.botDepth <= radiusOfEarth
                and self.topP > 0 and self.botP >= 0
                and implies(self.botDepth == radiusOfEarth, self.botP == 0))

    def raises_SlownessModelError(self, rayParam):
        return not ((self.topP <= rayParam and rayParam <= self.botP)
                    or (self.botP <= rayParam and rayParam <= self.topP))

    def ensures_inside(self, result):
        return self.topDepth <= result and result <= self.botDepth

    def ensures_top(self, rayParam, result):
        return implies(rayParam == self.topP
                       and self.topP != self.botP, result == self.topDepth)

    def ensures_bottom(self, rayParam, result):
        return implies(rayParam == self.botP
                       and self.topP != self.botP, result == self.botDepth)


    def ensures_law(self, rayParam, radiusOfEarth, result):
        return implies(
            self.topDepth < self.botDepth and self.botDepth < radiusOfEarth
            and self.botP > 0 and self.topP != self.botP,
            close(radiusOfEarth - result,
                  (radiusOfEarth - self.topDepth) * exp(
                      log(rayParam / self.topP) /
                      (log(self.topP / self.botP) /
                       log((radiusOfEarth - self.topDepth)
                           / (radiusOfEarth - self.botDepth))))))

    def ensures_depth(self, rayParam, radiusOfEarth, result):
        return implies(
            self.topDepth < self.botDepth and self.topP != self.botP
            and (self.botDepth == radiusOfEarth or self.botP > 0),
            close(result, turn_depth(
                self.topP, self.topDepth, self.botP, self.botDepth, rayParam,
                radiusOfEarth)))

    def ensures_centre(self, rayParam, radiusOfEarth, result):
        return implies(
            self.topDepth < self.botDepth and self.botP == 0,
            close((result - self.topDepth) * (self.botP - self.topP),
                  (rayParam - self.topP) * (self.botDepth - self.topDepth)))


class EvaluateBullen(Contract):
    target = 'SlownessLayer.evaluateAtBullen'
    private = ['law']
    args = {'self': 'SlownessLayer', 'depth': 'real',
            'radiusOfEarth': 'real'}
    result = 'real'
    props = ['C15']

    def requires_layer(self, radiusOfEarth):
        return (0 <= self.topDepth and self.topDepth <= self.botDepth
                and self.botDepth <= radiusOfEarth
                and self.topP > 0 and self.botP > 0)

    def requires_bottom(self, depth, radiusOfEarth):
        return implies(self.botDepth == radiusOfEarth,
                       depth == self.topDepth or depth == self.botDepth)

    def requires_inside(self, depth):
        return self.topDepth <= depth and depth <= self.botDepth

    def ensures_top(self, depth, result):
        return implies(depth == self.topDepth, result == self.topP)

    def ensures_bottom(self, depth, result):
        return implies(depth == self.botDepth
                       and depth != self.topDepth, result == self.botP)

    def ensures_law(self, depth, radiusOfEarth, result):
        return implies(
            self.topDepth < self.botDepth and self.botDepth < radiusOfEarth,
            result > 0 and
            close(log(result / self.topP)
                  * log((radiusOfEarth - self.topDepth)
                        / (radiusOfEarth - self.botDepth)),
                  log((radiusOfEarth - depth)
                      / (radiusOfEarth - self.topDepth))
                  * log(self.topP / self.botP)))


class CreateFromVLayer(Contract):
    target = 'SlownessLayer.create_from_vlayer'
    args = {'vLayer': 'VelocityLayer', 'isPWave': 'bool',
            'radiusOfEarth': 'real'}
    cases = [{'isSpherical': True}]
    result = 'SlownessLayer'
    fresh = True
    props = ['C13', 'C15']

    def requires_depths(vLayer):
        return vLayer.topDepth >= 0 and vLayer.botDepth >= 0

    def requires_velocity(vLayer, isPWave):
        return implies(isPWave, vLayer.topPVelocity != 0
                       and vLayer.botPVelocity != 0) and implies(
            not isPWave, vLayer.topSVelocity != 0
            and vLayer.botSVelocity != 0)

    def ensures_depths(vLayer, result):
        return (result.topDepth == vLayer.topDepth
                and result.botDepth == vLayer.botDepth)

    def ensures_p(vLayer, isPWave, radiusOfEarth, result):
        return implies(isPWave, close(
            result.topP * vLayer.topPVelocity,
            radiusOfEarth - vLayer.topDepth) and close(
            result.botP * vLayer.botPVelocity,
            radiusOfEarth - vLayer.botDepth))

    def ensures_s(vLayer, isPWave, radiusOfEarth, result):
        return implies(not isPWave, close(
            result.topP * vLayer.topSVelocity,
            radiusOfEarth - vLayer.topDepth) and close(
            result.botP * vLayer.botSVelocity,
            radiusOfEarth - vLayer.botDepth))


class DepthSlownessRoundTrip(Lemma):
    """The two laws (the postconditions above) are inverse: a slowness
    converted to a depth and back is the same slowness."""
    args = {'topP': 'real', 'botP': 'real', 'topDepth': 'real',
            'botDepth': 'real', 'radius': 'real', 'p': 'real',
            'depth': 'real', 'q': 'real'}
    props = ['C15']

    def requires_layer(topP, botP, topDepth, botDepth, radius, p, q):
        return (topP > 0 and botP > 0 and topP != botP and p > 0 and q > 0
                and 0 <= topDepth and topDepth < botDepth
                and botDepth < radius)

    def requires_depth_of_p(topP, botP, topDepth, botDepth, radius, p,
                            depth):
        return (radius - depth == (radius - topDepth) * exp(
            log(p / topP) / (log(topP / botP) / log(
                (radius - topDepth) / (radius - botDepth)))))

    def requires_slowness_of_depth(topP, botP, topDepth, botDepth, radius,
                                   depth, q):
        return (log(q / topP) * log((radius - topDepth)
                                    / (radius - botDepth))
                == log((radius - depth) / (radius - topDepth))
                * log(topP / botP))

    def ensures_same(p, q):
        return p == q


class SlownessDepthRoundTrip(Lemma):
    """... and a depth converted to a slowness and back the same depth."""
    args = {'topP': 'real', 'botP': 'real', 'topDepth': 'real',
            'botDepth': 'real', 'radius': 'real', 'p': 'real',
            'depth': 'real', 'd2': 'real'}
    props = ['C15']

    def requires_layer(topP, botP, topDepth, botDepth, radius, p):
        return (topP > 0 and botP > 0 and topP != botP and p > 0
                and 0 <= topDepth and topDepth < botDepth
                and botDepth < radius)

    def requires_slowness_of_depth(topP, botP, topDepth, botDepth, radius,
                                   depth, p):
        return (depth < radius and
                log(p / topP) * log((radius - topDepth)
                                    / (radius - botDepth))
                == log((radius - depth) / (radius - topDepth))
                * log(topP / botP))

    def requires_depth_of_p(topP, botP, topDepth, botDepth, radius, p, d2):
        return (radius - d2 == (radius - topDepth) * exp(
            log(p / topP) / (log(topP / botP) / log(
                (radius - topDepth) / (radius - botDepth)))))

    def ensures_same(depth, d2):
        return depth == d2
