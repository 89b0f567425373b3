"""Contracts: velocity layers and models (C10, C11, C16)."""
from pyded.spec import *

FIELDS = {
    'VelocityLayer': {
        'layer_number': 'int', 'topDepth': 'real', 'botDepth': 'real',
        'topPVelocity': 'real', 'botPVelocity': 'real',
        'topSVelocity': 'real', 'botSVelocity': 'real',
        'topDensity': 'real', 'botDensity': 'real', 'topQp': 'real',
        'botQp': 'real', 'topQs': 'real', 'botQs': 'real'},
    'VelocityModel': {
        'modelName': 'str', 'radiusOfEarth': 'real', 'mohoDepth': 'real',
        'cmbDepth': 'real', 'iocbDepth': 'real', 'minRadius': 'real',
        'maxRadius': 'real', 'isSpherical': 'bool',
        'layers': 'list:VelocityLayer'},
}


def top_value(layer, m):
    return (layer.topPVelocity if m.lower() == 'p' else
            layer.topSVelocity if m.lower() == 's' else layer.topDensity)


def bot_value(layer, m):
    return (layer.botPVelocity if m.lower() == 'p' else
            layer.botSVelocity if m.lower() == 's' else layer.botDensity)


@opaque
def interpolated(top, bot, topDepth, botDepth, depth):
    return top + (depth - topDepth) * (bot - top) / (botDepth - topDepth)


def linear(layer, m, depth):
    return interpolated(top_value(layer, m), bot_value(layer, m),
                        layer.topDepth, layer.botDepth, depth)


class EvaluateAt(Contract):
    target = 'VelocityLayer.evaluateAt'
    reveal = ['interpolated']
    args = {'self': 'VelocityLayer', 'depth': 'real',
            'materialProperty': 'str'}
    cases = [{'materialProperty': 'p'}, {'materialProperty': 'P'},
             {'materialProperty': 's'}, {'materialProperty': 'S'},
             {'materialProperty': 'd'}, {'materialProperty': 'r'},
             {'materialProperty': 'D'}, {'materialProperty': 'x'}]
    result = 'real'
    props = ['C10']

    def requires_thick(self):
        return self.topDepth < self.botDepth

    def raises_TauPException(materialProperty):
        return materialProperty == 'x'

    def ensures_linear(self, depth, materialProperty, result):
        return close(result, linear(self, materialProperty, depth))


class EvaluateAtTop(Contract):
    target = 'VelocityLayer.evaluateAtTop'
    args = {'self': 'VelocityLayer', 'materialProperty': 'str'}
    cases = [{'materialProperty': 'p'}, {'materialProperty': 'P'},
             {'materialProperty': 's'}, {'materialProperty': 'S'},
             {'materialProperty': 'd'}, {'materialProperty': 'x'}]
    result = 'real'
    props = ['C10', 'C13']

    def raises_TauPException(materialProperty):
        return materialProperty == 'x'

    def ensures_top(self, materialProperty, result):
        return result == top_value(self, materialProperty)


class EvaluateAtBottom(Contract):
    target = 'VelocityLayer.evaluateAtBottom'
    args = {'self': 'VelocityLayer', 'materialProperty': 'str'}
    cases = [{'materialProperty': 'p'}, {'materialProperty': 'P'},
             {'materialProperty': 's'}, {'materialProperty': 'S'},
             {'materialProperty': 'd'}, {'materialProperty': 'x'}]
    result = 'real'
    props = ['C10', 'C13']

    def raises_TauPException(materialProperty):
        return materialProperty == 'x'

    def ensures_bottom(self, materialProperty, result):
        return result == bot_value(self, materialProperty)


class VLayerNumberAbove(Contract):
    target = 'VelocityModel.layerNumberAbove'
    args = {'self': 'VelocityModel', 'depth': 'real'}
    result = 'int'
    props = ['C10']

    def raises_TauPException(self, depth):
        return not exists(0, len(self.layers), lambda i:
                          self.layers[i].topDepth < depth
                          and depth <= self.layers[i].botDepth)

    def ensures_contains(self, depth, result):
        return (0 <= result and result < len(self.layers)
                and self.layers[result].topDepth < depth
                and depth <= self.layers[result].botDepth)

    def ensures_first(self, depth, result):
        return forall(0, result, lambda i: not (
            self.layers[i].topDepth < depth
            and depth <= self.layers[i].botDepth))


class VLayerNumberBelow(Contract):
    target = 'VelocityModel.layerNumberBelow'
    args = {'self': 'VelocityModel', 'depth': 'real'}
    result = 'int'
    props = ['C10']

    def raises_TauPException(self, depth):
        return not exists(0, len(self.layers), lambda i:
                          self.layers[i].topDepth <= depth
                          and depth < self.layers[i].botDepth)

    def ensures_contains(self, depth, result):
        return (0 <= result and result < len(self.layers)
                and self.layers[result].topDepth <= depth
                and depth < self.layers[result].botDepth)

    def ensures_first(self, depth, result):
        return forall(0, result, lambda i: not (
            self.layers[i].topDepth <= depth
            and depth < self.layers[i].botDepth))


class EvaluateAbove(Contract):
    target = 'VelocityModel.evaluateAbove'
    args = {'self': 'VelocityModel', 'depth': 'real',
            'materialProperty': 'str'}
    cases = [{'materialProperty': 'p'}, {'materialProperty': 'P'},
             {'materialProperty': 's'}, {'materialProperty': 'S'},
             {'materialProperty': 'd'}]
    result = 'real'
    props = ['C10']

    def raises_TauPException(self, depth):
        return not exists(0, len(self.layers), lambda i:
                          self.layers[i].topDepth < depth
                          and depth <= self.layers[i].botDepth)

    def ensures_layer_above(self, depth, materialProperty, result):
        return exists(0, len(self.layers), lambda i:
                      self.layers[i].topDepth < depth
                      and depth <= self.layers[i].botDepth
                      and close(result, linear(self.layers[i],
                                               materialProperty, depth)))


class EvaluateBelow(Contract):
    target = 'VelocityModel.evaluateBelow'
    args = {'self': 'VelocityModel', 'depth': 'real',
            'materialProperty': 'str'}
    cases = [{'materialProperty': 'p'}, {'materialProperty': 'P'},
             {'materialProperty': 's'}, {'materialProperty': 'S'},
             {'materialProperty': 'd'}]
    result = 'real'
    props = ['C10']

    def raises_TauPException(self, depth):
        return not exists(0, len(self.layers), lambda i:
                          self.layers[i].topDepth <= depth
                          and depth < self.layers[i].botDepth)

    def ensures_layer_below(self, depth, materialProperty, result):
        return exists(0, len(self.layers), lambda i:
                      self.layers[i].topDepth <= depth
                      and depth < self.layers[i].botDepth
                      and close(result, linear(self.layers[i],
                                               materialProperty, depth)))


def layer_ok(l):
    return (l.botDepth != l.topDepth
            and l.topPVelocity > 0 and l.botPVelocity > 0
            and l.topSVelocity >= 0 and l.botSVelocity >= 0
            and iff(l.topSVelocity == 0, l.botSVelocity == 0))


def model_ok(m):
    return (m.radiusOfEarth > 0 and m.mohoDepth >= 0
            and m.cmbDepth >= m.mohoDepth and m.cmbDepth > 0
            and m.iocbDepth >= m.cmbDepth and m.iocbDepth > 0
            and m.minRadius >= 0 and m.maxRadius > 0
            and m.maxRadius > m.minRadius
            and forall(0, len(m.layers), lambda i: layer_ok(m.layers[i]))
            and forall(0, len(m.layers) - 1, lambda i:
                       m.layers[i].botDepth == m.layers[i + 1].topDepth))


class VValidate(Contract):
    target = 'VelocityModel.validate'
    args = {'self': 'VelocityModel'}
    result = 'bool'
    allocates = True
    props = ['C11']

    def raises_IndexError(self):
        return (self.radiusOfEarth > 0 and self.mohoDepth >= 0
                and self.cmbDepth >= self.mohoDepth and self.cmbDepth > 0
                and self.iocbDepth >= self.cmbDepth and self.iocbDepth > 0
                and self.minRadius >= 0 and self.maxRadius > 0
                and self.maxRadius > self.minRadius
                and len(self.layers) == 0)

    def ensures_iff(self, result):
        return iff(result, model_ok(self))
