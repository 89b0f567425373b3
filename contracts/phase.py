"""Contracts: seismic phases (C01, C07, C08, C18, C20, C22, C24)."""
from pyded.spec import *

FIELDS = {
    'SeismicPhase': {'minRayParam': 'real', 'maxRayParam': 'real',
                     'maxRayParamIndex': 'int', 'minRayParamIndex': 'int',
                     'currBranch': 'int', 'endAction': 'int', 'name': 'str',
                     'sourceDepth': 'real', 'tMod': 'TauModel',
                     'dist': 'list:real', 'time': 'list:real',
                     'rayParams': 'list:real', 'minDistance': 'real',
                     'maxDistance': 'real', 'branchSeq': 'list:int',
                     'legAction': 'list:int', 'downGoing': 'list:bool',
                     'waveType': 'list:bool', 'refractSeq': 'list:int',
                     'legs': 'list:str', 'puristName': 'str'},
}

# The actions at the end of a leg.
TURN = 0
REFLECTTOP = 1
REFLECTBOT = 2
TRANSUP = 3
TRANSDOWN = 4


def branch_of(tMod, isPWave, n):
    return tMod.tauBranches[0][n] if isPWave else tMod.tauBranches[1][n]


def usable_branches(tMod):
    return (len(tMod.tauBranches) == 2 and len(tMod.tauBranches[0]) > 0
            and len(tMod.tauBranches[0]) == len(tMod.tauBranches[1]))


def separate(phase):
    """The four lists of the legs are different lists."""
    return (not same(phase.downGoing, phase.waveType)
            and not same(phase.branchSeq, phase.legAction)
            and not same(phase.branchSeq, phase.downGoing)
            and not same(phase.branchSeq, phase.waveType)
            and not same(phase.legAction, phase.downGoing)
            and not same(phase.legAction, phase.waveType))


def down(endAction):
    return (endAction == TURN or endAction == REFLECTBOT
            or endAction == TRANSDOWN)


def steps(startBranch, endBranch, endAction):
    """How many branches a leg crosses."""
    return (max(0, endBranch - startBranch + 1) if down(endAction)
            else max(0, startBranch - endBranch + 1))


def grown(phase, n):
    return (len(phase.branchSeq) == n and len(phase.downGoing) == n
            and len(phase.waveType) == n and len(phase.legAction) == n)


def leg(phase, start, startBranch, isPWave, endAction, n):
    """n neighbouring branches in the direction of travel from startBranch,
    stored from index start on."""
    return forall(start, start + n, lambda i:
                  phase.branchSeq[i] == (
                      startBranch + (i - start) if down(endAction)
                      else startBranch - (i - start))
                  and iff(phase.downGoing[i], down(endAction))
                  and iff(phase.waveType[i], isPWave)
                  and phase.legAction[i] == endAction)


class AddToBranch(Contract):
    target = 'SeismicPhase.addToBranch'
    args = {'self': 'SeismicPhase', 'tMod': 'TauModel', 'startBranch': 'int',
            'endBranch': 'int', 'isPWave': 'bool', 'endAction': 'int'}
    modifies = ['self.endAction', 'self.minRayParam', 'self.maxRayParam',
                'self.currBranch', 'self.branchSeq[]',
                'self.downGoing[]', 'self.waveType[]',
                'self.legAction[]']
    props = ['C08', 'C24']

    def requires_branches(tMod, endBranch):
        return (usable_branches(tMod) and 0 <= endBranch
                and endBranch < len(tMod.tauBranches[0]))

    def requires_lengths(self):
        return (len(self.downGoing) == len(self.branchSeq)
                and len(self.waveType) == len(self.branchSeq)
                and len(self.legAction) == len(self.branchSeq))

    def requires_separate(self):
        return separate(self)

    def raises_TauModelError(endAction):
        return endAction < 0 or endAction > 4

    def ensures_action(self, endAction):
        return self.endAction == endAction

    def ensures_current(self, endBranch, endAction):
        """The next leg starts below a boundary transmitted downward, above
        one transmitted upward, in the same branch otherwise."""
        return self.currBranch == (
            endBranch - 1 if endAction == TRANSUP else
            endBranch + 1 if endAction == TRANSDOWN else endBranch)

    def ensures_range(self, tMod, isPWave, endBranch, endAction, old):
        """Only rays that do what the leg does at its end remain."""
        b = branch_of(tMod, isPWave, endBranch)
        return (implies(endAction == TURN,
                        self.maxRayParam == old.self.maxRayParam
                        and self.minRayParam == max(old.self.minRayParam,
                                                    b.minTurnRayParam))
                and implies(endAction != TURN,
                            self.minRayParam == old.self.minRayParam
                            and self.maxRayParam == min(
                                old.self.maxRayParam,
                                b.minTurnRayParam
                                if endAction == REFLECTBOT else
                                b.minRayParam if endAction == TRANSDOWN
                                else b.maxRayParam)))

    def ensures_kept(self, old):
        """The legs that were there stay as they were."""
        n = len(old.self.branchSeq)
        return (forall(0, n, lambda i:
                       self.branchSeq[i] == old.self.branchSeq[i])
                and forall(0, n, lambda i: iff(self.downGoing[i],
                                               old.self.downGoing[i]))
                and forall(0, n, lambda i: iff(self.waveType[i],
                                               old.self.waveType[i]))
                and forall(0, n, lambda i:
                           self.legAction[i] == old.self.legAction[i]))

    def ensures_count(self, startBranch, endBranch, endAction, old):
        n = len(old.self.branchSeq)
        return (len(self.branchSeq) == n + steps(startBranch, endBranch,
                                                 endAction)
                and len(self.downGoing) == len(self.branchSeq)
                and len(self.waveType) == len(self.branchSeq)
                and len(self.legAction) == len(self.branchSeq))

    def ensures_path(self, isPWave, startBranch, endAction, old):
        """Each branch of the leg, in the direction of travel."""
        return leg(self, len(old.self.branchSeq), startBranch, isPWave,
                   endAction, len(self.branchSeq) - len(old.self.branchSeq))

    def loop0_lengths(self, k, old):
        return grown(self, len(old.self.branchSeq) + k)

    def loop0_leg(self, k, isPWave, startBranch, endAction, old):
        return leg(self, len(old.self.branchSeq), startBranch, isPWave,
                   endAction, k)

    def loop0_kept(self, old):
        n = len(old.self.branchSeq)
        return (forall(0, n, lambda i:
                       self.branchSeq[i] == old.self.branchSeq[i])
                and forall(0, n, lambda i: iff(self.downGoing[i],
                                               old.self.downGoing[i]))
                and forall(0, n, lambda i: iff(self.waveType[i],
                                               old.self.waveType[i]))
                and forall(0, n, lambda i:
                           self.legAction[i] == old.self.legAction[i]))

    def loop1_lengths(self, k, old):
        return grown(self, len(old.self.branchSeq) + k)

    def loop1_leg(self, k, isPWave, startBranch, endAction, old):
        return leg(self, len(old.self.branchSeq), startBranch, isPWave,
                   endAction, k)

    def loop1_kept(self, old):
        n = len(old.self.branchSeq)
        return (forall(0, n, lambda i:
                       self.branchSeq[i] == old.self.branchSeq[i])
                and forall(0, n, lambda i: iff(self.downGoing[i],
                                               old.self.downGoing[i]))
                and forall(0, n, lambda i: iff(self.waveType[i],
                                               old.self.waveType[i]))
                and forall(0, n, lambda i:
                           self.legAction[i] == old.self.legAction[i]))


class PhaseConversion(Contract):
    target = 'SeismicPhase.phaseConversion'
    args = {'self': 'SeismicPhase', 'tMod': 'TauModel', 'fromBranch': 'int',
            'endAction': 'int', 'isPtoS': 'bool'}
    modifies = ['self.maxRayParam']
    props = ['C08', 'C24']

    def requires_branches(tMod, fromBranch, endAction):
        return (usable_branches(tMod) and 0 <= fromBranch
                and fromBranch < len(tMod.tauBranches[0])
                and implies(endAction == TRANSUP, fromBranch >= 1)
                and implies(endAction == TRANSDOWN,
                            fromBranch + 1 < len(tMod.tauBranches[0])))

    def raises_TauModelError(endAction):
        """No conversion where a ray just turns."""
        return endAction <= 0 or endAction > 4

    def ensures_both_waves(self, tMod, fromBranch, endAction, isPtoS, old):
        """Only rays that exist with both wave types on their sides of the
        boundary remain."""
        b = branch_of(tMod, isPtoS, fromBranch)
        same_side = branch_of(tMod, not isPtoS, fromBranch)
        above = branch_of(tMod, not isPtoS, fromBranch - 1)
        below = branch_of(tMod, not isPtoS, fromBranch + 1)
        p = old.self.maxRayParam
        return (implies(endAction == REFLECTTOP, self.maxRayParam == min(
            p, min(b.maxRayParam, same_side.maxRayParam)))
            and implies(endAction == REFLECTBOT, self.maxRayParam == min(
                p, min(b.minTurnRayParam, same_side.minTurnRayParam)))
            and implies(endAction == TRANSUP, self.maxRayParam == min(
                p, min(b.maxRayParam, above.minTurnRayParam)))
            and implies(endAction == TRANSDOWN, self.maxRayParam == min(
                p, min(b.minRayParam, below.maxRayParam))))


def may_reflect(tMod, i):
    """The top of the branch is no artificial boundary at the source."""
    return not exists(0, len(tMod.noDisconDepths), lambda j:
                      tMod.noDisconDepths[j]
                      == tMod.tauBranches[0][i].topDepth)


class ClosestBranch(Contract):
    target = 'SeismicPhase.closestBranchToDepth'
    args = {'tMod': 'TauModel', 'depthString': 'str'}
    result = 'int'
    props = ['C08']

    def requires_branches(tMod):
        return usable_branches(tMod)

    def requires_depths(tMod):
        return forall(0, len(tMod.tauBranches[0]), lambda i:
                      abs(tMod.tauBranches[0][i].topDepth) < 1e100)

    def requires_number(depthString):
        return (depthString == 'm' or depthString == 'c'
                or depthString == 'i' or is_number(depthString)
                and abs(float(depthString)) < 1e100)

    def loop0_best(tMod, k, disconBranch, disconMax, disconDepth):
        bs = tMod.tauBranches[0]
        return (-1 <= disconBranch and disconBranch < k
                and forall(0, k, lambda i: implies(
                    may_reflect(tMod, i),
                    disconBranch >= 0
                    and disconMax <= abs(disconDepth - bs[i].topDepth)))
                and implies(disconBranch == -1, disconMax == 1e300)
                and implies(disconBranch >= 0,
                            may_reflect(tMod, disconBranch)
                            and disconMax == abs(
                                disconDepth - bs[disconBranch].topDepth)))

    def ensures_named(tMod, depthString, result):
        return (implies(depthString == 'm', result == tMod.mohoBranch)
                and implies(depthString == 'c', result == tMod.cmbBranch)
                and implies(depthString == 'i', result == tMod.iocbBranch))

    def ensures_closest(tMod, depthString, result):
        """The closest boundary that is not just the source's."""
        bs = tMod.tauBranches[0]
        return implies(
            depthString != 'm' and depthString != 'c'
            and depthString != 'i',
            -1 <= result and result < len(bs)
            and implies(result >= 0, may_reflect(tMod, result))
            and forall(0, len(bs), lambda i: implies(
                may_reflect(tMod, i),
                result >= 0
                and abs(float(depthString) - bs[result].topDepth)
                <= abs(float(depthString) - bs[i].topDepth))))


class IsShadowZone(Contract):
    target = 'SeismicPhase.isShadowZone'
    args = {'self': 'SeismicPhase', 'rayNum': 'int'}
    result = 'bool'
    props = ['C01']

    def requires_index(self, rayNum):
        return (0 <= rayNum and implies(len(self.rayParams) > 2,
                                        rayNum + 1 < len(self.rayParams)))

    def ensures_repeated(self, rayNum, result):
        return iff(result, len(self.rayParams) > 2
                   and self.rayParams[rayNum] == self.rayParams[rayNum + 1])


class RefractedSegment(Contract):
    target = 'SeismicPhase.refractedSegment'
    args = {'self': 'SeismicPhase', 'currArrival': 'Arrival'}
    result = 'TimeDist'
    fresh = True
    props = ['C18', 'C22']

    def requires_segments(self):
        return len(self.refractSeq) >= 1 and len(self.dist) >= 1

    def ensures_share(self, currArrival, result):
        """The segments along the boundary share the distance that the
        ray itself does not cover."""
        return (close(result.distRadian * len(self.refractSeq),
                      currArrival.dist - self.dist[0])
                and close(result.time,
                          result.distRadian * currArrival.rayParam)
                and result.p == currArrival.rayParam)

    def ensures_boundary(self, result):
        return (result.depth == self.tMod.mohoDepth
                or result.depth == self.tMod.cmbDepth)




def wave_letter(char):
    return char == 'p' or char == 'P' or char == 's' or char == 'S'


def below(layer, depth):
    return layer.topDepth <= depth and depth < layer.botDepth


def above(layer, depth):
    return layer.topDepth < depth and depth <= layer.botDepth


def snell(angle, velocity, rayParam, radius):
    """The angle, in degrees, whose sine is velocity * p / radius (which
    rounding may have pushed beyond one)."""
    return close(angle, (180 / pi) * asin(
        max(-1, min(1, velocity * rayParam / radius))))


@hidden
def within(x, a, b):
    """x is between a and b (said twice, lemma Between)."""
    return ((a - x) * (x - b) >= 0
            and (a <= x and x <= b or b <= x and x <= a))


class Between(Lemma):
    args = {'x': 'real', 'a': 'real', 'b': 'real'}
    reveal = ['within']
    props = ['C01']

    def ensures_between(x, a, b):
        return (iff(within(x, a, b), (a - x) * (x - b) >= 0)
                and iff(within(x, a, b), min(a, b) <= x and x <= max(a, b)))


class LinearInterp(Contract):
    target = 'SeismicPhase.linearInterpArrival'
    args = {'self': 'SeismicPhase', 'searchDist': 'real', 'rayNum': 'int',
            'name': 'str', 'puristName': 'str', 'sourceDepth': 'real'}
    result = 'Arrival'
    fresh = True
    props = ['C01', 'C20']

    def requires_index(self, rayNum):
        return (0 <= rayNum and rayNum + 1 < len(self.dist)
                and len(self.time) == len(self.dist)
                and len(self.rayParams) == len(self.dist))

    def ensures_place(self, searchDist, rayNum, result):
        return (result.dist == searchDist and result.rayParamIndex == rayNum
                and same(result.phase, self))

    def requires_between(self, searchDist, rayNum):
        return within(searchDist, self.dist[rayNum], self.dist[rayNum + 1])

    def requires_wave(self, name):
        return name.endswith('kmps') or (
            len(name) >= 1 and wave_letter(name[0])
            and len(self.downGoing) >= 1 and len(self.legs) >= 2
            and len(self.legs[len(self.legs) - 2]) >= 1
            and wave_letter(self.legs[len(self.legs) - 2][0]))

    def requires_source(self, sourceDepth):
        """The source is at the depth of the phase, above the centre."""
        return (sourceDepth == self.sourceDepth
                and sourceDepth < self.tMod.radiusOfEarth
                and self.tMod.radiusOfEarth > 0)

    def requires_layers(self, name, sourceDepth):
        """There is a layer at the source on the side to which the phase
        leaves, and one at the surface."""
        ls = self.tMod.sMod.vMod.layers
        return name.endswith('kmps') or (
            exists(0, len(ls), lambda i: below(ls[i], 0))
            and implies(self.downGoing[0], exists(
                0, len(ls), lambda i: below(ls[i], sourceDepth)))
            and implies(not self.downGoing[0], exists(
                0, len(ls), lambda i: above(ls[i], sourceDepth))))

    def ensures_on_segment(self, searchDist, rayNum, result):
        """Time and ray parameter are those of the point of the segment
        at the distance."""
        d0, d1 = self.dist[rayNum], self.dist[rayNum + 1]
        return implies(d0 != d1, close(
            result.time, (searchDist - d0) / (d1 - d0)
            * (self.time[rayNum + 1] - self.time[rayNum])
            + self.time[rayNum]) and close(
            result.rayParam, (searchDist - d1)
            * (self.rayParams[rayNum] - self.rayParams[rayNum + 1])
            / (d0 - d1) + self.rayParams[rayNum + 1]))

    def ensures_single_ray(self, rayNum, result):
        return implies(self.dist[rayNum] == self.dist[rayNum + 1],
                       result.time == self.time[rayNum]
                       and result.rayParam == self.rayParams[rayNum])

    def ensures_takeoff_down(self, name, sourceDepth, result):
        """Snell's law with the velocity below the source."""
        ls = self.tMod.sMod.vMod.layers
        return implies(not name.endswith('kmps') and self.downGoing[0],
                       exists(0, len(ls), lambda i:
                              below(ls[i], sourceDepth)
                              and snell(result.takeoffAngle,
                                        linear(ls[i], name[0], sourceDepth),
                                        result.rayParam,
                                        self.tMod.radiusOfEarth
                                        - sourceDepth)))

    def ensures_takeoff_up(self, name, sourceDepth, result):
        """Upgoing rays have the negative angle, with the velocity above."""
        ls = self.tMod.sMod.vMod.layers
        return implies(not name.endswith('kmps') and not self.downGoing[0],
                       exists(0, len(ls), lambda i:
                              above(ls[i], sourceDepth)
                              and snell(result.takeoffAngle, -linear(
                                  ls[i], name[0], sourceDepth),
                                  result.rayParam,
                                  self.tMod.radiusOfEarth - sourceDepth)))

    def ensures_incidence(self, name, result):
        """Snell's law with the velocity of the last leg at the surface."""
        ls = self.tMod.sMod.vMod.layers
        return implies(not name.endswith('kmps'), exists(
            0, len(ls), lambda i: below(ls[i], 0) and snell(
                result.incidentAngle,
                linear(ls[i], self.legs[len(self.legs) - 2][0], 0),
                result.rayParam, self.tMod.radiusOfEarth)))

    def ensures_surface_wave(name, result):
        return implies(name.endswith('kmps'), result.takeoffAngle == 0
                       and result.incidentAngle == 0)
@opaque
def laps(n):
    """n whole circles in radians."""
    return n * 2 * pi


def bracketed(phase, r, x):
    """The distance x is between those at the ends of segment r."""
    return within(x, phase.dist[r], phase.dist[r + 1])


def shadow(phase, r):
    """No rays arrive between samples r and r + 1."""
    return (len(phase.rayParams) > 2
            and phase.rayParams[r] == phase.rayParams[r + 1])


def at_end(phase, r, x):
    """x is the end of segment r and the start of another."""
    return (x == phase.dist[r + 1] and r + 2 < len(phase.dist)
            and not shadow(phase, r + 1))


def crosses(phase, r, x):
    """Segment r of the travel-time curve has distance x.  A sample belongs
    to the segment that starts at it, the last one before a gap or the end
    to the one that ends there."""
    return (bracketed(phase, r, x) and not shadow(phase, r)
            and not at_end(phase, r, x))


def on_curve(phase, a):
    """The arrival is a point of its segment."""
    r = a.rayParamIndex
    return (same(a.phase, phase) and 0 <= r and r + 1 < len(phase.dist)
            and crosses(phase, r, a.dist))


def same_ray(a, b):
    return a.dist == b.dist and a.rayParamIndex == b.rayParamIndex


@opaque
def short_way(lap, fold):
    """Whole circles and the distance, in radians."""
    return lap * 2 * pi + fold * pi / 180


@opaque
def long_way(lap, fold):
    return (lap + 1) * 2 * pi - fold * pi / 180


@hidden
def on_circle(x, fold):
    """The ray ends at the station."""
    return (is_whole((x * 180 / pi - fold) / 360)
            or is_whole((x * 180 / pi + fold) / 360))


def found(arrivals, x, r):
    return exists(0, len(arrivals), lambda i: arrivals[i].dist == x
                  and arrivals[i].rayParamIndex == r)


@hidden
def gives(phase, degrees, t):
    """The phase has an arrival at time t at that distance."""
    return any(a.time == t for a in phase.calcTime(degrees))


@opaque
def arrival_count(phase, degrees):
    return len(phase.calcTime(degrees))


class PhaseCalcTime(Contract):
    target = 'SeismicPhase.calcTime'
    args = {'self': 'SeismicPhase', 'degrees': 'real'}
    result = 'list:Arrival'
    fresh = True
    reveal = ['~within', '~short_way', '~long_way', '~on_circle']
    named = ['tempDeg', 'radDist', 'searchDist']
    timeout = 30
    ghost = {'lap': 'int', 'ray': 'int', 'fold': 'real'}
    props = ['C01', 'C02']

    def requires_curve(self):
        return (len(self.time) == len(self.dist)
                and len(self.rayParams) == len(self.dist)
                and forall(0, len(self.dist), lambda i:
                           self.dist[i] <= self.maxDistance))

    def requires_wave(self):
        return self.name.endswith('kmps') or (
            len(self.name) >= 1 and wave_letter(self.name[0])
            and len(self.downGoing) >= 1 and len(self.legs) >= 2
            and len(self.legs[len(self.legs) - 2]) >= 1
            and wave_letter(self.legs[len(self.legs) - 2][0]))

    def requires_source(self):
        return (self.sourceDepth < self.tMod.radiusOfEarth
                and self.tMod.radiusOfEarth > 0)

    def requires_layers(self):
        ls = self.tMod.sMod.vMod.layers
        return self.name.endswith('kmps') or (
            exists(0, len(ls), lambda i: below(ls[i], 0))
            and implies(self.downGoing[0], exists(
                0, len(ls), lambda i: below(ls[i], self.sourceDepth)))
            and implies(not self.downGoing[0], exists(
                0, len(ls), lambda i: above(ls[i], self.sourceDepth))))

    def requires_ghost(self, lap, ray, fold, degrees):
        """fold is the distance folded into [0, 180], ray some segment of
        the curve and lap some number of whole circles."""
        return (lap >= 0 and 0 <= ray and ray + 1 < len(self.dist)
                and 0 <= fold and fold <= 180
                and (is_whole((fold - degrees) / 360)
                     or is_whole((fold + degrees) / 360)))

    def loop0_folding(tempDeg, fold):
        return tempDeg >= 0 and (is_whole((tempDeg - fold) / 360)
                                 or is_whole((tempDeg + fold) / 360))

    def loop1_fold(tempDeg, radDist, fold):
        return tempDeg == fold and radDist == fold * pi / 180

    def loop1_below(self, n, lap, fold, radDist):
        """Later laps are longer."""
        return (short_way(n, fold) == n * 2 * pi + radDist
                and implies(lap >= n, short_way(n, fold)
                            <= short_way(lap, fold)
                            and short_way(n, fold) <= long_way(lap, fold)))

    def loop2_place(self, searchDist, n, fold, k):
        return searchDist == short_way(n, fold)

    def loop3_place(self, searchDist, n, fold, k):
        return searchDist == long_way(n, fold)

    def loop2_laps(searchDist, fold, n):
        return (searchDist * 180 / pi - fold) / 360 == n

    def loop3_laps(searchDist, fold, n):
        return (searchDist * 180 / pi + fold) / 360 == n + 1

    def loop2_circle(searchDist, fold):
        return on_circle(searchDist, fold)

    def loop3_circle(searchDist, fold):
        return on_circle(searchDist, fold)

    def loop2_last(self, searchDist, k):
        return k == 0 or consider(
            within(searchDist, self.dist[k - 1], self.dist[k]))

    def loop3_last(self, searchDist, k):
        return k == 0 or consider(
            within(searchDist, self.dist[k - 1], self.dist[k]))

    def loop1_count(n):
        return n >= 0

    def loop1_index(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      same(arrivals[i].phase, self)
                      and 0 <= arrivals[i].rayParamIndex
                      and arrivals[i].rayParamIndex + 1 < len(self.dist))

    def loop1_bracket(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      bracketed(self, arrivals[i].rayParamIndex,
                                arrivals[i].dist))

    def loop1_shadow(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      not shadow(self, arrivals[i].rayParamIndex))

    def loop1_once(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      not at_end(self, arrivals[i].rayParamIndex,
                                 arrivals[i].dist))

    def loop2_index(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      same(arrivals[i].phase, self)
                      and 0 <= arrivals[i].rayParamIndex
                      and arrivals[i].rayParamIndex + 1 < len(self.dist))

    def loop2_bracket(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      bracketed(self, arrivals[i].rayParamIndex,
                                arrivals[i].dist))

    def loop2_shadow(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      not shadow(self, arrivals[i].rayParamIndex))

    def loop2_once(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      not at_end(self, arrivals[i].rayParamIndex,
                                 arrivals[i].dist))

    def loop3_index(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      same(arrivals[i].phase, self)
                      and 0 <= arrivals[i].rayParamIndex
                      and arrivals[i].rayParamIndex + 1 < len(self.dist))

    def loop3_bracket(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      bracketed(self, arrivals[i].rayParamIndex,
                                arrivals[i].dist))

    def loop3_shadow(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      not shadow(self, arrivals[i].rayParamIndex))

    def loop3_once(self, arrivals):
        return forall(0, len(arrivals), lambda i:
                      not at_end(self, arrivals[i].rayParamIndex,
                                 arrivals[i].dist))

    def loop1_order(self, arrivals, n, radDist):
        return forall(0, len(arrivals), lambda i:
                      arrivals[i].dist < n * 2 * pi + radDist)

    def loop1_distinct(arrivals):
        return forall(0, len(arrivals), lambda i: forall(
            0, i, lambda j: not same_ray(arrivals[i], arrivals[j])))

    def loop2_order(self, arrivals, searchDist, k):
        return forall(0, len(arrivals), lambda i:
                      (arrivals[i].dist < searchDist
                       or arrivals[i].dist == searchDist
                       and arrivals[i].rayParamIndex < k))

    def loop2_distinct(arrivals):
        return forall(0, len(arrivals), lambda i: forall(
            0, i, lambda j: not same_ray(arrivals[i], arrivals[j])))

    def loop3_order(self, arrivals, searchDist, k):
        return forall(0, len(arrivals), lambda i:
                      (arrivals[i].dist < searchDist
                       or arrivals[i].dist == searchDist
                       and arrivals[i].rayParamIndex < k))

    def loop3_distinct(arrivals):
        return forall(0, len(arrivals), lambda i: forall(
            0, i, lambda j: not same_ray(arrivals[i], arrivals[j])))

    def loop1_distance(arrivals, fold):
        return forall(0, len(arrivals), lambda i:
                      on_circle(arrivals[i].dist, fold))

    def loop2_distance(arrivals, fold):
        return forall(0, len(arrivals), lambda i:
                      on_circle(arrivals[i].dist, fold))

    def loop3_distance(arrivals, fold):
        return forall(0, len(arrivals), lambda i:
                      on_circle(arrivals[i].dist, fold))

    def loop1_found_short(self, arrivals, n, lap, ray, fold):
        return implies(lap < n and crosses(self, ray, short_way(lap, fold)),
                       found(arrivals, short_way(lap, fold), ray))

    def loop2_found_short(self, arrivals, n, lap, ray, fold, k):
        return implies(lap < n and crosses(self, ray, short_way(lap, fold)),
                       found(arrivals, short_way(lap, fold), ray))

    def loop2_found(self, arrivals, searchDist, ray, k):
        return implies(ray < k and crosses(self, ray, searchDist),
                       found(arrivals, searchDist, ray))

    def loop3_found_short(self, arrivals, n, lap, ray, fold):
        return implies(lap <= n and crosses(self, ray, short_way(lap, fold)),
                       found(arrivals, short_way(lap, fold), ray))

    def loop1_found_long(self, arrivals, n, lap, ray, fold):
        return implies(lap < n and crosses(self, ray, long_way(lap, fold))
                       and fold != 0 and fold != 180,
                       found(arrivals, long_way(lap, fold), ray))

    def loop2_found_long(self, arrivals, n, lap, ray, fold):
        return implies(lap < n and crosses(self, ray, long_way(lap, fold))
                       and fold != 0 and fold != 180,
                       found(arrivals, long_way(lap, fold), ray))

    def loop3_found_long(self, arrivals, n, lap, ray, fold, k):
        return implies(lap < n and crosses(self, ray, long_way(lap, fold)),
                       found(arrivals, long_way(lap, fold), ray))

    def loop3_found(self, arrivals, searchDist, ray, k):
        return implies(ray < k and crosses(self, ray, searchDist),
                       found(arrivals, searchDist, ray))

    def ensures_sound(self, result):
        return forall(0, len(result), lambda i: on_curve(self, result[i]))

    def assumes_function(self, degrees, result):
        """the number of arrivals and their times depend only on the phase
        and the distance (gives, arrival_count: names for them)"""
        return (len(result) == arrival_count(self, degrees)
                and forall(0, len(result), lambda i: gives(
                    self, degrees, result[i].time)
                    and same(result[i].phase, self))
                and every_number(lambda t: implies(
                    gives(self, degrees, t),
                    exists(0, len(result), lambda i: result[i].time == t))))

    def ensures_distinct(result):
        """No ray arrives twice."""
        return forall(0, len(result), lambda i: forall(
            0, i, lambda j: not same_ray(result[i], result[j])))

    def ensures_distance(result, fold):
        """Only rays that reach the station."""
        return forall(0, len(result), lambda i:
                      on_circle(result[i].dist, fold))

    def ensures_complete_short(self, result, lap, ray, fold):
        """Every segment of the curve that reaches the station after whole
        circles and the short way round gives an arrival."""
        return implies(crosses(self, ray, short_way(lap, fold)),
                       found(result, short_way(lap, fold), ray))

    def ensures_complete_long(self, result, lap, ray, fold):
        """... and after the long way round, where that is another way."""
        return implies(crosses(self, ray, long_way(lap, fold))
                       and fold != 0 and fold != 180,
                       found(result, long_way(lap, fold), ray))
