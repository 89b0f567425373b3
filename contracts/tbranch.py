"""Contracts: tau branches (C05, C06, C07)."""
from pyded.spec import *

FIELDS = {
    'TauBranch': {'topDepth': 'real', 'botDepth': 'real', 'isPWave': 'bool',
                  'maxRayParam': 'real', 'minTurnRayParam': 'real',
                  'minRayParam': 'real', 'dist': 'list:real',
                  'time': 'list:real', 'tau': 'list:real'},
}


def model_usable(m, isPWave):
    """Every layer can be crossed by layerTimeDist; only the last one
    reaches the centre."""
    ls = s_layers(m, isPWave)
    return (forall(0, len(ls), lambda i: layer_usable(
        ls[i], m.radiusOfEarth, m.slowness_tolerance))
        and forall(0, len(ls) - 1, lambda i: implies(
            ls[i].botDepth == m.radiusOfEarth,
            ls[i].topDepth == m.radiusOfEarth)))


def passes(l, p):
    return p <= l.topP and p <= l.botP


@hidden
def turns_inside(topP, botP, p):
    return (topP - p) * (p - botP) > 0


class CalcTimeDist(Contract):
    target = 'TauBranch.calcTimeDist'
    reveal = ['turns_inside']
    args = {'self': 'TauBranch', 'sMod': 'SlownessModel',
            'topLayerNum': 'int', 'botLayerNum': 'int', 'p': 'real'}
    result = 'TimeDist'
    fresh = True
    props = ['C05', 'C06', 'C07']

    def requires_layers(self, sMod):
        return model_usable(sMod, self.isPWave)

    def requires_range(self, sMod, topLayerNum, botLayerNum, p):
        return (0 <= topLayerNum and topLayerNum <= botLayerNum
                and botLayerNum < len(s_layers(sMod, self.isPWave))
                and p >= 0)

    def may_raise_SlownessModelError(self, sMod, topLayerNum, botLayerNum,
                                     p):
        """Only if the ray turns inside one of the layers."""
        ls = s_layers(sMod, self.isPWave)
        return p <= self.maxRayParam and exists(
            topLayerNum, botLayerNum + 1, lambda i:
            turns_inside(ls[i].topP, ls[i].botP, p))

    def loop0_range(layerNum, topLayerNum, botLayerNum):
        return topLayerNum <= layerNum and layerNum <= botLayerNum + 1

    def loop0_layer(self, sMod, layerNum, botLayerNum, layer):
        ls = s_layers(sMod, self.isPWave)
        return (implies(layerNum <= botLayerNum, same(layer, ls[layerNum]))
                and implies(layerNum == botLayerNum + 1,
                            same(layer, ls[botLayerNum])))

    def loop0_passed(self, sMod, topLayerNum, layerNum, p):
        ls = s_layers(sMod, self.isPWave)
        return forall(topLayerNum, layerNum, lambda i: passes(ls[i], p))

    def loop0_sum(self, sMod, topLayerNum, layerNum, p, timeDist):
        ls = s_layers(sMod, self.isPWave)
        return (timeDist.time == total(topLayerNum, layerNum, lambda i:
                                       layer_time(ls[i], sMod.radiusOfEarth,
                                                  p))
                and timeDist.distRadian == total(
                    topLayerNum, layerNum, lambda i:
                    layer_dist(ls[i], sMod.radiusOfEarth, p))
                and timeDist.time >= 0 and timeDist.distRadian >= 0
                and timeDist.p == p)

    def ensures_no_entry(self, p, result):
        return implies(p > self.maxRayParam,
                       result.time == 0 and result.distRadian == 0)

    def ensures_non_negative(p, result):
        return (result.time >= 0 and result.distRadian >= 0
                and result.p == p)

    def ensures_sum(self, sMod, topLayerNum, botLayerNum, p, result):
        """The sum over the layers from the top to the first one that the
        ray cannot cross."""
        ls = s_layers(sMod, self.isPWave)
        return implies(p <= self.maxRayParam, exists(
            topLayerNum, botLayerNum + 2, lambda n:
            forall(topLayerNum, n, lambda i: passes(ls[i], p))
            and implies(n <= botLayerNum, not passes(ls[n], p))
            and result.time == total(topLayerNum, n, lambda i: layer_time(
                ls[i], sMod.radiusOfEarth, p))
            and result.distRadian == total(
                topLayerNum, n, lambda i: layer_dist(
                    ls[i], sMod.radiusOfEarth, p))))


def split(xs, old, index):
    """old with a new sample at the index."""
    return (len(xs) == len(old) + 1
            and forall(0, index, lambda i: xs[i] == old[i])
            and forall(index, len(old), lambda i: xs[i + 1] == old[i]))


class ShiftBranch(Contract):
    target = 'TauBranch.shiftBranch'
    args = {'self': 'TauBranch', 'index': 'int'}
    modifies = ['self.dist', 'self.time', 'self.tau']
    allocates = True
    props = ['C05']

    def requires_index(self, index):
        return (0 <= index and index <= len(self.dist)
                and len(self.time) == len(self.dist)
                and len(self.tau) == len(self.dist))

    def ensures_dist(self, index, old):
        return split(self.dist, old.self.dist, index)

    def ensures_time(self, index, old):
        return split(self.time, old.self.time, index)

    def ensures_tau(self, index, old):
        return split(self.tau, old.self.tau, index)

    def ensures_separate(self):
        return (not same(self.dist, self.time)
                and not same(self.dist, self.tau)
                and not same(self.time, self.tau)
                and is_fresh(self.dist) and is_fresh(self.time)
                and is_fresh(self.tau))


def usable(m):
    return (model_layers_ok(m, m.PLayers) and model_layers_ok(m, m.SLayers)
            and model_usable(m, True) and model_usable(m, False))


def sums(m, isPWave, top, bot, p, time, dist):
    """time and dist are the sums over the layers from top on to the first
    layer that the ray p cannot cross, at most to bot."""
    ls = s_layers(m, isPWave)
    return exists(
        top, bot + 2, lambda n: forall(top, n, lambda i: passes(ls[i], p))
        and implies(n <= bot, not passes(ls[n], p))
        and time == total(top, n, lambda i: layer_time(
            ls[i], m.radiusOfEarth, p))
        and dist == total(top, n, lambda i: layer_dist(
            ls[i], m.radiusOfEarth, p)))


def covers(ls, top, bot, topDepth, botDepth):
    """Layers top to bot reach exactly from topDepth to botDepth."""
    return (0 <= top and top < len(ls) and 0 <= bot and bot < len(ls)
            and ls[top].topDepth == topDepth
            and (topDepth < ls[top].botDepth or top == len(ls) - 1)
            and ls[bot].botDepth == botDepth
            and (ls[bot].topDepth < botDepth or bot == 0))


class BranchInsert(Contract):
    target = 'TauBranch.insert'
    args = {'self': 'TauBranch', 'rayParam': 'real', 'sMod': 'SlownessModel',
            'index': 'int'}
    modifies = ['self.dist', 'self.time', 'self.tau']
    allocates = True
    props = ['C05', 'C06']

    def requires_model(self, sMod):
        return (model_layers_ok(sMod, s_layers(sMod, self.isPWave))
                and model_usable(sMod, self.isPWave)
                and self.topDepth < self.botDepth)

    def requires_index(self, index):
        return (0 <= index and index <= len(self.dist)
                and len(self.time) == len(self.dist)
                and len(self.tau) == len(self.dist))

    def requires_ray(rayParam):
        return rayParam >= 0

    def requires_inside(self, sMod):
        return 0 <= self.topDepth and self.botDepth <= sMod.radiusOfEarth

    def may_raise_TauModelError(self, sMod):
        ls = s_layers(sMod, self.isPWave)
        return not exists(0, len(ls), lambda i: exists(
            0, len(ls), lambda j: covers(ls, i, j, self.topDepth,
                                         self.botDepth)))

    def may_raise_SlownessModelError(self, rayParam, sMod):
        ls = s_layers(sMod, self.isPWave)
        return rayParam <= self.maxRayParam and exists(
            0, len(ls), lambda i:
            turns_inside(ls[i].topP, ls[i].botP, rayParam))

    def ensures_dist(self, index, old):
        return split(self.dist, old.self.dist, index)

    def ensures_time(self, index, old):
        return split(self.time, old.self.time, index)

    def ensures_tau(self, index, old):
        return split(self.tau, old.self.tau, index)

    def ensures_tau_of_sample(self, rayParam, index):
        return (close(self.tau[index], self.time[index]
                      - rayParam * self.dist[index])
                and self.time[index] >= 0 and self.dist[index] >= 0)

    def ensures_no_entry(self, rayParam, index):
        return implies(rayParam > self.maxRayParam, self.time[index] == 0
                       and self.dist[index] == 0)

    def ensures_sample(self, rayParam, sMod, index):
        ls = s_layers(sMod, self.isPWave)
        return implies(rayParam <= self.maxRayParam, forall(
            0, len(ls), lambda i: forall(0, len(ls), lambda j: implies(
                covers(ls, i, j, self.topDepth, self.botDepth), sums(
                    sMod, self.isPWave, i, j, rayParam, self.time[index],
                    self.dist[index])))))


class CreateBranch(Contract):
    target = 'TauBranch.createBranch'
    args = {'self': 'TauBranch', 'sMod': 'SlownessModel',
            'minPSoFar': 'real', 'rayParams': 'list:real'}
    modifies = ['self.topDepth', 'self.botDepth', 'self.maxRayParam',
                'self.minTurnRayParam', 'self.minRayParam', 'self.dist',
                'self.time', 'self.tau']
    allocates = True
    props = ['C05', 'C06']

    def requires_model(self, sMod):
        return (model_layers_ok(sMod, s_layers(sMod, self.isPWave))
                and model_usable(sMod, self.isPWave) and 0 <= self.topDepth
                and self.topDepth < self.botDepth
                and self.botDepth <= sMod.radiusOfEarth)

    def requires_ray_params(rayParams):
        return forall(0, len(rayParams), lambda i: rayParams[i] >= 0)

    def requires_boundary(self, sMod):
        """The branch ends at sample depths."""
        ls = s_layers(sMod, self.isPWave)
        return exists(0, len(ls), lambda i: exists(
            0, len(ls), lambda j: covers(ls, i, j, self.topDepth,
                                         self.botDepth)))

    def requires_zones(self, sMod):
        return zones_closed(sMod.highSlownessLayerDepthsP) \
            and zones_closed(sMod.highSlownessLayerDepthsS)

    def requires_small(sMod):
        return (forall(0, len(sMod.PLayers), lambda i:
                       sMod.PLayers[i].botP < 1e300)
                and forall(0, len(sMod.SLayers), lambda i:
                           sMod.SLayers[i].botP < 1e300))

    def may_raise_SlownessModelError(self, sMod, minPSoFar, rayParams):
        ls = s_layers(sMod, self.isPWave)
        return exists(0, len(rayParams), lambda k: exists(
            0, len(ls), lambda i: rayParams[k] <= minPSoFar and
            turns_inside(ls[i].topP, ls[i].botP, rayParams[k])))

    def ensures_depths(self, old):
        return (self.topDepth == old.self.topDepth
                and self.botDepth == old.self.botDepth
                and self.maxRayParam == old.minPSoFar)

    def ensures_one_sample_each(self, rayParams):
        return (len(self.dist) == len(rayParams)
                and len(self.time) == len(rayParams)
                and len(self.tau) == len(rayParams))

    def ensures_tau(self, rayParams):
        return forall(0, len(rayParams), lambda i: close(
            self.tau[i], self.time[i] - rayParams[i] * self.dist[i]))

    def ensures_non_negative(self, rayParams):
        return forall(0, len(rayParams), lambda i:
                      self.time[i] >= 0 and self.dist[i] >= 0)

    def ensures_no_entry(self, minPSoFar, rayParams):
        return forall(0, len(rayParams), lambda i: implies(
            rayParams[i] > minPSoFar,
            self.time[i] == 0 and self.dist[i] == 0 and self.tau[i] == 0))

    def ensures_sums(self, sMod, minPSoFar, rayParams):
        ls = s_layers(sMod, self.isPWave)
        return forall(0, len(ls), lambda a: forall(
            0, len(ls), lambda b: implies(
                covers(ls, a, b, self.topDepth, self.botDepth),
                forall(0, len(rayParams), lambda i: implies(
                    rayParams[i] <= minPSoFar, sums(
                        sMod, self.isPWave, a, b, rayParams[i],
                        self.time[i], self.dist[i]))))))


def other(indexP, indexS, i):
    """Number of new samples before index i."""
    return ((1 if indexP >= 0 and indexP < i else 0)
            + (1 if indexS >= 0 and indexS != indexP and indexS < i else 0))


def remainder(new, old, top, indexP, indexS, n):
    return forall(0, n, lambda i: implies(
        i != indexP and i != indexS,
        new[i] == old[i - other(indexP, indexS, i)] - top[i]))


class Difference(Contract):
    target = 'TauBranch.difference'
    timeout = 60
    args = {'self': 'TauBranch', 'topBranch': 'TauBranch', 'indexP': 'int',
            'indexS': 'int', 'sMod': 'SlownessModel', 'minPSoFar': 'real',
            'rayParams': 'list:real'}
    result = 'TauBranch'
    fresh = True
    props = ['C05', 'C06']

    def requires_model(self, sMod):
        return (model_layers_ok(sMod, sMod.PLayers)
                and model_layers_ok(sMod, sMod.SLayers)
                and model_usable(sMod, self.isPWave))

    def requires_branches(self, topBranch, sMod):
        return (not same(self, topBranch)
                and topBranch.topDepth == self.topDepth
                and topBranch.botDepth < self.botDepth
                and 0 <= self.topDepth
                and topBranch.topDepth < topBranch.botDepth
                and self.botDepth <= sMod.radiusOfEarth)

    def requires_indices(indexP, indexS, rayParams):
        return (-1 <= indexP and indexP < len(rayParams)
                and -1 <= indexS and indexS < len(rayParams)
                and forall(0, len(rayParams), lambda i: rayParams[i] >= 0))

    def requires_lengths(self, topBranch, indexP, indexS, rayParams):
        return (len(topBranch.dist) == len(rayParams)
                and len(topBranch.time) == len(rayParams)
                and len(topBranch.tau) == len(rayParams)
                and len(self.dist) + other(indexP, indexS, len(rayParams))
                == len(rayParams)
                and len(self.time) == len(self.dist)
                and len(self.tau) == len(self.dist))

    def may_raise_TauModelError():
        """Branches of different wave types, depths that are no sample
        depths, or indices that do not belong to the new samples."""
        return True

    def may_raise_SlownessModelError():
        return True

    def loop0_lengths(k, botBranch):
        return (len(botBranch.dist) == k and len(botBranch.time) == k
                and len(botBranch.tau) == k)

    def loop0_separate(botBranch):
        return (not same(botBranch.dist, botBranch.time)
                and not same(botBranch.dist, botBranch.tau)
                and not same(botBranch.time, botBranch.tau))

    def loop0_count(k, oldIndex, indexP, indexS):
        return oldIndex == k - other(indexP, indexS, k)

    def loop0_dist(self, topBranch, botBranch, k, indexP, indexS):
        return remainder(botBranch.dist, self.dist, topBranch.dist, indexP,
                         indexS, k)

    def loop0_time(self, topBranch, botBranch, k, indexP, indexS):
        return remainder(botBranch.time, self.time, topBranch.time, indexP,
                         indexS, k)

    def loop0_tau(self, topBranch, botBranch, k, indexP, indexS):
        return remainder(botBranch.tau, self.tau, topBranch.tau, indexP,
                         indexS, k)

    def loop0_new(botBranch, k, indexP, indexS, rayParams):
        return forall(0, k, lambda i: implies(
            i == indexP or i == indexS, close(
                botBranch.tau[i],
                botBranch.time[i] - rayParams[i] * botBranch.dist[i])
            and botBranch.time[i] >= 0 and botBranch.dist[i] >= 0))

    def ensures_extent(self, topBranch, result):
        return (result.topDepth == topBranch.botDepth
                and result.botDepth == self.botDepth
                and iff(result.isPWave, self.isPWave)
                and result.maxRayParam == topBranch.minRayParam
                and result.minTurnRayParam == self.minTurnRayParam
                and result.minRayParam == self.minRayParam)

    def ensures_one_sample_each(rayParams, result):
        return (len(result.dist) == len(rayParams)
                and len(result.time) == len(rayParams)
                and len(result.tau) == len(rayParams))

    def ensures_dist_conserved(self, topBranch, indexP, indexS, rayParams,
                               result):
        """The two parts together have the values of the whole branch."""
        return remainder(result.dist, self.dist, topBranch.dist, indexP,
                         indexS, len(rayParams))

    def ensures_time_conserved(self, topBranch, indexP, indexS, rayParams,
                               result):
        return remainder(result.time, self.time, topBranch.time, indexP,
                         indexS, len(rayParams))

    def ensures_tau_conserved(self, topBranch, indexP, indexS, rayParams,
                              result):
        return remainder(result.tau, self.tau, topBranch.tau, indexP,
                         indexS, len(rayParams))

    def ensures_new_samples(indexP, indexS, rayParams, result):
        return forall(0, len(rayParams), lambda i: implies(
            i == indexP or i == indexS, close(
                result.tau[i],
                result.time[i] - rayParams[i] * result.dist[i])
            and result.time[i] >= 0 and result.dist[i] >= 0))


def depths_inside(path, n, top, bot):
    return forall(0, n, lambda i: top <= path[i].depth
                  and path[i].depth <= bot)


def crossed(e, l, depth, R, p):
    """The entry is the whole layer, ending at the depth."""
    return (l.topDepth < l.botDepth and e.depth == depth and e.p == p
            and close(e.time, layer_time(l, R, p))
            and close(e.distRadian, layer_dist(l, R, p)))


@opaque
def turn_time(topP, topDepth, z, p, R):
    return (0 if z - topDepth < 0.000000001 else
            (sqrt(topP * topP - p * p) - sqrt(p * p - p * p))
            / (log(topP / p) / log((R - topDepth) / (R - z))))


@opaque
def turn_dist(topP, topDepth, z, p, R):
    return (0 if z - topDepth < 0.000000001 else
            (atan2(p, sqrt(p * p - p * p))
             - atan2(p, sqrt(topP * topP - p * p)))
            / (log(topP / p) / log((R - topDepth) / (R - z))))


def turning(l, p, R):
    return turn_depth(l.topP, l.topDepth, l.botP, l.botDepth, p, R)


def turned(e, l, p, R):
    """The entry is the part of the layer above the turning point."""
    return (l.topP >= p and p > l.botP and e.p == p
            and close(e.time, turn_time(l.topP, l.topDepth, turning(l, p, R),
                                        p, R))
            and close(e.distRadian, turn_dist(
                l.topP, l.topDepth, turning(l, p, R), p, R)))


def turned_top(e, l, p, R):
    """The same for a layer that may be a jump."""
    return (turned(e, l, p, R) if l.topDepth < l.botDepth else
            l.topP >= p and p > l.botP and e.p == p
            and e.time == 0 and e.distRadian == 0)


def ends_at(b, path):
    return b.topDepth if len(path) == 0 else path[len(path) - 1].depth


def unreached(ls, j, bot, p):
    """The ray does not enter the layers below layer j."""
    return forall(j + 1, bot + 1, lambda i: ls[i].topP <= p
                  or ls[i].topDepth == ls[i].botDepth)


class BranchPath(Contract):
    target = 'TauBranch.path'
    reveal = ['turn_time', 'turn_dist']
    timeout = 20
    merge = False
    auto_frame = True
    args = {'self': 'TauBranch', 'rayParam': 'real', 'downgoing': 'bool',
            'sMod': 'SlownessModel'}
    cases = [{'downgoing': True}, {'downgoing': False}]
    result = 'opt:list:TimeDist'
    fresh = True
    allocates = True
    props = ['C22', 'C19']

    def requires_model(self, sMod):
        ls = s_layers(sMod, self.isPWave)
        return (model_layers_ok(sMod, ls) and model_usable(sMod, self.isPWave)
                and len(ls) > 0 and 0 <= self.topDepth
                and self.topDepth < self.botDepth
                and self.botDepth <= sMod.radiusOfEarth)

    def requires_ray(self, rayParam):
        return rayParam >= 0

    def may_raise_SlownessModelError():
        """The branch does not belong to the model, or the ray turns at a
        jump or again above its turning point."""
        return True

    def loop0_at(self, sMod, topLayerNum, botLayerNum, sLayerNum, sLayer):
        ls = s_layers(sMod, self.isPWave)
        return (topLayerNum <= sLayerNum and sLayerNum <= botLayerNum + 1
                and implies(sLayerNum <= botLayerNum,
                            same(sLayer, ls[sLayerNum]))
                and implies(sLayerNum == botLayerNum + 1,
                            same(sLayer, ls[botLayerNum])))

    def loop0_index(thePath, pathIndex, topLayerNum, botLayerNum, sLayerNum):
        return (0 <= pathIndex and pathIndex <= sLayerNum - topLayerNum
                and len(thePath) == botLayerNum - topLayerNum + 1)

    def loop0_fresh(thePath, pathIndex):
        return forall(0, pathIndex, lambda i: is_fresh(thePath[i]))

    def loop0_passed(self, sMod, topLayerNum, sLayerNum, rayParam):
        ls = s_layers(sMod, self.isPWave)
        return forall(topLayerNum, sLayerNum, lambda j:
                      ls[j].botP >= rayParam)

    def loop0_entries(self, sMod, thePath, pathIndex, topLayerNum, sLayerNum,
                      rayParam):
        ls = s_layers(sMod, self.isPWave)
        return forall(0, pathIndex, lambda i: exists(
            topLayerNum, sLayerNum, lambda j: crossed(
                thePath[i], ls[j], ls[j].botDepth, sMod.radiusOfEarth,
                rayParam) and ls[j].topDepth == (
                    self.topDepth if i == 0 else thePath[i - 1].depth)))

    def loop0_order(self, sMod, thePath, pathIndex, topLayerNum, sLayerNum):
        ls = s_layers(sMod, self.isPWave)
        return (forall(0, pathIndex - 1, lambda i:
                       thePath[i].depth < thePath[i + 1].depth)
                and implies(pathIndex > 0, thePath[pathIndex - 1].depth
                            == ls[sLayerNum - 1].botDepth)
                and implies(pathIndex == 0, sLayerNum == topLayerNum))

    def loop0_sign(thePath, pathIndex):
        return forall(0, pathIndex, lambda i: thePath[i].time >= 0
                      and thePath[i].distRadian >= 0)

    def loop0_inside(self, thePath, pathIndex):
        return depths_inside(thePath, pathIndex, self.topDepth,
                             self.botDepth)

    def loop0_within(self, sLayer):
        return (self.topDepth <= sLayer.topDepth
                and sLayer.topDepth <= sLayer.botDepth
                and sLayer.botDepth <= self.botDepth)

    def loop1_within(self, sLayer):
        return (self.topDepth <= sLayer.topDepth
                and sLayer.topDepth <= sLayer.botDepth
                and sLayer.botDepth <= self.botDepth)

    def loop2_within(self, sLayer):
        return (self.topDepth <= sLayer.topDepth
                and sLayer.topDepth <= sLayer.botDepth
                and sLayer.botDepth <= self.botDepth)

    def loop1_at(self, sMod, topLayerNum, botLayerNum, sLayerNum, sLayer):
        ls = s_layers(sMod, self.isPWave)
        return (topLayerNum <= sLayerNum and sLayerNum <= botLayerNum
                and same(sLayer, ls[sLayerNum]))

    def loop1_below(self, sMod, botLayerNum, sLayerNum, rayParam):
        ls = s_layers(sMod, self.isPWave)
        return forall(sLayerNum + 1, botLayerNum + 1, lambda j:
                      ls[j].topP <= rayParam
                      or ls[j].topDepth == ls[j].botDepth)

    def loop2_at(self, sMod, topLayerNum, botLayerNum, sLayerNum, sLayer):
        ls = s_layers(sMod, self.isPWave)
        return (topLayerNum - 1 <= sLayerNum and sLayerNum <= botLayerNum
                and implies(sLayerNum >= topLayerNum,
                            same(sLayer, ls[sLayerNum])))

    def loop2_index(thePath, pathIndex, topLayerNum, botLayerNum, sLayerNum):
        return (0 <= pathIndex and pathIndex <= botLayerNum - sLayerNum
                and len(thePath) == botLayerNum - topLayerNum + 1)

    def loop2_fresh(thePath, pathIndex):
        return forall(0, pathIndex, lambda i: is_fresh(thePath[i]))

    def loop2_sign(thePath, pathIndex, rayParam):
        return forall(0, pathIndex, lambda i: thePath[i].time >= 0
                      and thePath[i].distRadian >= 0
                      and thePath[i].p == rayParam)

    def loop2_inside(self, thePath, pathIndex):
        return depths_inside(thePath, pathIndex, self.topDepth,
                             self.botDepth)

    def loop2_entries(self, sMod, thePath, pathIndex, topLayerNum,
                      botLayerNum, sLayerNum, rayParam):
        ls = s_layers(sMod, self.isPWave)
        return forall(1, pathIndex, lambda i: exists(
            sLayerNum + 1, botLayerNum + 1, lambda j: crossed(
                thePath[i], ls[j], ls[j].topDepth, sMod.radiusOfEarth,
                rayParam) and ls[j].botDepth == thePath[i - 1].depth))

    def loop2_first(self, sMod, thePath, pathIndex, topLayerNum,
                    botLayerNum, sLayerNum, rayParam):
        ls = s_layers(sMod, self.isPWave)
        return implies(pathIndex > 0, exists(
            sLayerNum + 1, botLayerNum + 1, lambda j: (
                crossed(thePath[0], ls[j], ls[j].topDepth,
                        sMod.radiusOfEarth, rayParam)
                or turned_top(thePath[0], ls[j], rayParam,
                              sMod.radiusOfEarth)
                and thePath[0].depth == ls[j].topDepth)
            and unreached(ls, j, botLayerNum, rayParam)))

    def loop2_unreached(self, sMod, pathIndex, botLayerNum, sLayerNum,
                        rayParam):
        ls = s_layers(sMod, self.isPWave)
        return implies(pathIndex == 0,
                       unreached(ls, sLayerNum, botLayerNum, rayParam))

    def loop2_order(self, sMod, thePath, pathIndex, topLayerNum, sLayerNum):
        ls = s_layers(sMod, self.isPWave)
        return (forall(0, pathIndex - 1, lambda i:
                       thePath[i].depth > thePath[i + 1].depth)
                and implies(pathIndex > 0, thePath[pathIndex - 1].depth
                            == ls[sLayerNum + 1].topDepth))

    def loop2_top(self, thePath, pathIndex, topLayerNum, sLayerNum):
        return implies(pathIndex > 0 and sLayerNum == topLayerNum - 1,
                       thePath[pathIndex - 1].depth == self.topDepth)

    def ensures_none(self, rayParam, result):
        return iff(is_none(result), rayParam > self.maxRayParam)

    def ensures_ray_parameter(rayParam, result):
        return implies(not is_none(result), forall(
            0, len(result), lambda i: result[i].p == rayParam
            and result[i].time >= 0 and result[i].distRadian >= 0))

    def ensures_inside(self, result):
        return implies(not is_none(result), depths_inside(
            result, len(result), self.topDepth, self.botDepth))

    def ensures_monotone(self, downgoing, result):
        """Down to the turning point, or up from it (a ray that turns at the
        top of a layer has a last entry without thickness)."""
        return implies(not is_none(result), forall(
            0, len(result) - 1, lambda i:
            result[i].depth <= result[i + 1].depth if downgoing
            else result[i].depth > result[i + 1].depth))

    def ensures_down(self, sMod, rayParam, downgoing, result):
        """Every entry but the last one is a layer that is crossed, and
        continues where the one before ends."""
        ls = s_layers(sMod, self.isPWave)
        return implies(downgoing and not is_none(result), forall(
            0, len(result) - 1, lambda i: exists(0, len(ls), lambda j:
                crossed(result[i], ls[j], ls[j].botDepth,
                        sMod.radiusOfEarth, rayParam)
                and ls[j].topDepth == (self.topDepth if i == 0
                                       else result[i - 1].depth))))

    def ensures_down_last(self, sMod, rayParam, downgoing, result):
        """The last one may be the part of a layer above the turning
        point."""
        ls = s_layers(sMod, self.isPWave)
        n = len(result) - 1
        return implies(
            downgoing and not is_none(result) and len(result) > 0,
            exists(0, len(ls), lambda j: (
                crossed(result[n], ls[j], ls[j].botDepth,
                        sMod.radiusOfEarth, rayParam)
                or turned(result[n], ls[j], rayParam, sMod.radiusOfEarth)
                and ls[j].topDepth < ls[j].botDepth and close(result[n].depth,
                          turning(ls[j], rayParam, sMod.radiusOfEarth)))
                and ls[j].topDepth == (self.topDepth if n == 0
                                       else result[n - 1].depth)))

    def ensures_down_to_turn(self, sMod, rayParam, downgoing, result):
        """The path ends at the bottom of the branch, or where the ray
        turns."""
        ls = s_layers(sMod, self.isPWave)
        return implies(downgoing and not is_none(result), exists(
            0, len(ls), lambda j: ls[j].botP < rayParam
            and ls[j].topDepth <= ends_at(self, result)
            and ends_at(self, result) <= ls[j].botDepth)
            or ends_at(self, result) == self.botDepth)

    def ensures_up(self, sMod, rayParam, downgoing, result):
        """Every entry but the first one is a layer that is crossed, and
        continues where the one before ends."""
        ls = s_layers(sMod, self.isPWave)
        return implies(not downgoing and not is_none(result), forall(
            1, len(result), lambda i: exists(0, len(ls), lambda j: crossed(
                result[i], ls[j], ls[j].topDepth, sMod.radiusOfEarth,
                rayParam) and ls[j].botDepth == result[i - 1].depth)))

    def ensures_up_to_top(self, downgoing, result):
        return implies(
            not downgoing and not is_none(result) and len(result) > 0,
            result[len(result) - 1].depth == self.topDepth)

    def ensures_up_from_turn(self, sMod, rayParam, downgoing, result):
        """The path begins in the lowest layer that the ray enters."""
        ls = s_layers(sMod, self.isPWave)
        return implies(
            not downgoing and not is_none(result) and len(result) > 0,
            exists(0, len(ls), lambda b: ls[b].botDepth == self.botDepth
                and exists(0, b + 1, lambda j: (
                    crossed(result[0], ls[j], ls[j].topDepth,
                            sMod.radiusOfEarth, rayParam)
                    or turned_top(result[0], ls[j], rayParam,
                                  sMod.radiusOfEarth)
                    and result[0].depth == ls[j].topDepth)
                    and unreached(ls, j, b, rayParam))))
