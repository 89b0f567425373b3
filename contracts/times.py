"""Contracts: travel time requests (C03)."""
from pyded.spec import *

FIELDS = {
    'TauP_Time': {'tMod': 'TauModel', 'tModDepth': 'opt:TauModel',
                  'phaseList': 'list:str', 'phaseNames': 'list:str',
                  'phases': 'list:SeismicPhase', 'depth': 'real',
                  'degrees': 'opt:real', 'sourceDepth': 'real',
                  'arrivals': 'list:Arrival', 'modelName': 'str',
                  'expert': 'bool', 'relativePhaseName': 'opt:str',
                  'relativeArrival': 'opt:Arrival',
                  'stationLat': 'opt:real', 'stationLon': 'opt:real',
                  'eventLat': 'opt:real', 'eventLon': 'opt:real'},
}


# The phases of each shorthand beyond those of the smaller ones.
def in_ttp(x):
    return (x == 'p' or x == 'P' or x == 'Pn' or x == 'Pdiff' or x == 'PKP'
            or x == 'PKiKP' or x == 'PKIKP')


def in_tts(x):
    return (x == 's' or x == 'S' or x == 'Sn' or x == 'Sdiff' or x == 'SKS'
            or x == 'SKIKS')


def p_more(x):
    return (x == 'PcP' or x == 'pP' or x == 'pPdiff' or x == 'pPKP'
            or x == 'pPKIKP' or x == 'pPKiKP' or x == 'sP' or x == 'sPdiff'
            or x == 'sPKP' or x == 'sPKIKP' or x == 'sPKiKP')


def s_more(x):
    return (x == 'sS' or x == 'sSdiff' or x == 'sSKS' or x == 'sSKIKS'
            or x == 'ScS' or x == 'pS' or x == 'pSdiff' or x == 'pSKS'
            or x == 'pSKIKS')


def basic_more(x):
    return (x == 'ScP' or x == 'SKP' or x == 'SKIKP' or x == 'PKKP'
            or x == 'PKIKKIKP' or x == 'SKKP' or x == 'SKIKKIKP'
            or x == 'PP' or x == 'PKPPKP' or x == 'PKIKPPKIKP')


def all_more(x):
    return (x == 'SKiKP' or x == 'PP' or x == 'ScS' or x == 'PcS'
            or x == 'PKS' or x == 'PKIKS' or x == 'PKKS' or x == 'PKIKKIKS'
            or x == 'SKKS' or x == 'SKIKKIKS' or x == 'SKSSKS'
            or x == 'SKIKSSKIKS' or x == 'SS' or x == 'SP' or x == 'PS')


def in_ttp_plus(x):
    return in_ttp(x) or p_more(x)


def in_tts_plus(x):
    return in_tts(x) or s_more(x)


def in_ttbasic(x):
    return in_ttp_plus(x) or in_tts_plus(x) or basic_more(x)


def in_ttall(x):
    return in_ttbasic(x) or all_more(x)


@hidden
def expands(name, x):
    """x is one of the phases that name stands for."""
    return (in_ttp(x) if name.lower() == 'ttp' else
            in_tts(x) if name.lower() == 'tts' else
            in_ttp_plus(x) if name.lower() == 'ttp+' else
            in_tts_plus(x) if name.lower() == 'tts+' else
            in_ttbasic(x) if name.lower() == 'ttbasic' else
            in_ttall(x) if name.lower() == 'ttall' else x == name)


class ShorthandsNested(Lemma):
    args = {'x': 'str'}
    props = ['C03']

    def ensures_p(x):
        return (implies(in_ttp(x), in_ttp_plus(x))
                and implies(in_ttp_plus(x), in_ttbasic(x)))

    def ensures_s(x):
        return (implies(in_tts(x), in_tts_plus(x))
                and implies(in_tts_plus(x), in_ttbasic(x)))

    def ensures_all(x):
        return implies(in_ttbasic(x), in_ttall(x))


class GetPhaseNames(Contract):
    target = 'TauP_Time.getPhaseNames'
    args = {'phaseName': 'str'}
    result = 'list:str'
    fresh = True
    reveal = ['expands']
    merge = False
    props = ['C03']

    def ensures_only(result, phaseName):
        return forall(0, len(result), lambda i: expands(phaseName, result[i]))

    def ensures_every(result, phaseName):
        return every_text(lambda x: implies(expands(phaseName, x),
                                            x in result))


class ParsePhaseList(Contract):
    target = 'TauP_Time.parsePhaseList'
    args = {'phaseList': 'list:str'}
    result = 'list:str'
    fresh = True
    props = ['C03']

    def loop0_only(phaseList, phaseNames, k):
        return forall(0, len(phaseNames), lambda i: exists(
            0, k, lambda j: expands(phaseList[j], phaseNames[i])))

    def loop0_every(phaseList, phaseNames, k):
        return every_text(lambda x: forall(0, k, lambda j: implies(
            expands(phaseList[j], x), x in phaseNames)))

    def ensures_only(phaseList, result):
        """Every name is asked for by itself or by a shorthand."""
        return forall(0, len(result), lambda i: exists(
            0, len(phaseList), lambda j: expands(phaseList[j], result[i])))

    def ensures_every(phaseList, result):
        return every_text(lambda x: forall(
            0, len(phaseList), lambda j: implies(
                expands(phaseList[j], x), x in result)))

    def ensures_once(result):
        return forall(0, len(result), lambda i: forall(
            0, i, lambda j: result[i] != result[j]))


class TimeCalcTime(Contract):
    target = 'TauP_Time.calcTime'
    args = {'self': 'TauP_Time', 'degrees': 'real'}
    modifies = ['self.degrees', 'self.arrivals']
    allocates = True
    inline = ['TauP_Time.sortArrivals']
    props = ['C03']

    def requires_phases(self):
        return forall(0, len(self.phases), lambda j:
                      searchable(self.phases[j]))

    def loop0_count(self, degrees, k):
        return len(self.arrivals) == total(0, k, lambda j: arrival_count(
            self.phases[j], degrees))

    def loop0_only(self, degrees, k):
        return forall(0, len(self.arrivals), lambda i: exists(
            0, k, lambda j: same(self.arrivals[i].phase, self.phases[j])
            and gives(self.phases[j], degrees, self.arrivals[i].time)))

    def loop0_every(self, degrees, k):
        return every_number(lambda t: forall(0, k, lambda j: implies(
            gives(self.phases[j], degrees, t), exists(
                0, len(self.arrivals), lambda i:
                self.arrivals[i].time == t
                and same(self.arrivals[i].phase, self.phases[j])))))

    def loop0_distance(self, degrees):
        return not is_none(self.degrees) and self.degrees == degrees

    def ensures_distance(self, degrees):
        return not is_none(self.degrees) and self.degrees == degrees

    def ensures_count(self, degrees):
        """As many arrivals as all phases give together."""
        return len(self.arrivals) == total(
            0, len(self.phases), lambda j: arrival_count(
                self.phases[j], degrees))

    def ensures_only(self, degrees):
        return forall(0, len(self.arrivals), lambda i: exists(
            0, len(self.phases), lambda j:
            same(self.arrivals[i].phase, self.phases[j])
            and gives(self.phases[j], degrees, self.arrivals[i].time)))

    def ensures_every(self, degrees):
        return every_number(lambda t: forall(
            0, len(self.phases), lambda j: implies(
                gives(self.phases[j], degrees, t), exists(
                    0, len(self.arrivals), lambda i:
                    self.arrivals[i].time == t
                    and same(self.arrivals[i].phase, self.phases[j])))))

    def ensures_sorted(self):
        return forall(0, len(self.arrivals), lambda i: forall(
            0, i, lambda j: self.arrivals[j].time <= self.arrivals[i].time))


def searchable(phase):
    ls = phase.tMod.sMod.vMod.layers
    return (len(phase.time) == len(phase.dist)
            and len(phase.rayParams) == len(phase.dist)
            and forall(0, len(phase.dist), lambda i:
                       phase.dist[i] <= phase.maxDistance)
            and phase.sourceDepth < phase.tMod.radiusOfEarth
            and phase.tMod.radiusOfEarth > 0
            and (phase.name.endswith('kmps') or (
                len(phase.name) >= 1 and wave_letter(phase.name[0])
                and len(phase.downGoing) >= 1 and len(phase.legs) >= 2
                and len(phase.legs[len(phase.legs) - 2]) >= 1
                and wave_letter(phase.legs[len(phase.legs) - 2][0])
                and exists(0, len(ls), lambda i: below(ls[i], 0))
                and implies(phase.downGoing[0], exists(
                    0, len(ls), lambda i: below(ls[i], phase.sourceDepth)))
                and implies(not phase.downGoing[0], exists(
                    0, len(ls), lambda i: above(ls[i],
                                                phase.sourceDepth))))))


@hidden
def refused(name, tMod):
    """No such phase in the model: the constructor raises TauModelError."""
    return False


class PhaseInit(Contract):
    target = 'SeismicPhase.__init__'
    args = {'self': 'SeismicPhase', 'name': 'str', 'tMod': 'TauModel'}
    modifies = ['self.*']
    allocates = True
    trusted = True
    props = ['C03']

    def raises_TauModelError(name, tMod):
        return refused(name, tMod)

    def ensures_what(self, name, tMod):
        return (self.name == name and same(self.tMod, tMod)
                and self.sourceDepth == tMod.sourceDepth)


class RecalcPhases(Contract):
    target = 'TauP_Time.recalcPhases'
    timeout = 30.0
    args = {'self': 'TauP_Time'}
    modifies = ['self.phases', 'self.phases[]']
    allocates = True
    auto_frame = True
    merge = False
    props = ['C03', 'C04']

    def assumes_searchable(self):
        """the curves of phases are as the constructor leaves them: times,
        distances and ray parameters of the same number, and a model with the
        layers that their angles need"""
        return forall(0, len(self.phases), lambda i:
                      searchable(self.phases[i]))

    def requires_names(self):
        """As parsePhaseList gives them."""
        return forall(0, len(self.phaseNames), lambda i: forall(
            0, i, lambda j: self.phaseNames[i] != self.phaseNames[j]))

    def requires_separate(self):
        return not same(self.phases, self.phaseNames)

    def requires_depth(self):
        return (not is_none(self.tModDepth)
                and self.tModDepth.sourceDepth == self.depth)

    def loop0_range(self, k):
        return k <= len(self.phaseNames)

    def loop0_current(self, newPhases):
        return forall(0, len(newPhases), lambda i:
                      same(newPhases[i].tMod, self.tModDepth)
                      and newPhases[i].sourceDepth == self.depth)

    def loop0_asked(self, newPhases, k):
        return forall(0, len(newPhases), lambda i: exists(
            0, k, lambda j: newPhases[i].name == self.phaseNames[j]))

    def loop0_every(self, newPhases, k):
        return forall(0, k, lambda j: refused(
            self.phaseNames[j], self.tModDepth) or exists(
                0, len(newPhases), lambda i:
                newPhases[i].name == self.phaseNames[j]))

    def loop0_once(self, newPhases):
        return forall(0, len(newPhases), lambda i: forall(
            0, i, lambda j: newPhases[i].name != newPhases[j].name))

    def loop0_alias(self, newPhases, k, old):
        return (same(self.phases, newPhases) if k > 0 else
                same(self.phases, old.self.phases)
                and len(newPhases) == 0)

    def loop1_still(self, newPhases, alreadyAdded, pre):
        return (not alreadyAdded and same(self.phases, pre.self.phases)
                and unchanged(newPhases, pre.newPhases))

    def loop1_not_yet(newPhases, tempPhaseName):
        return forall(0, len(newPhases), lambda i:
                      newPhases[i].name != tempPhaseName)

    def loop0_new_list(newPhases):
        return is_fresh(newPhases)

    def ensures_list(self, old):
        return is_fresh(self.phases) or same(self.phases, old.self.phases)

    def ensures_current(self):
        """The phases are those of the current model and depth."""
        return len(self.phaseNames) == 0 or forall(0, len(self.phases), lambda i:
                      same(self.phases[i].tMod, self.tModDepth)
                      and self.phases[i].sourceDepth == self.depth)

    def ensures_asked(self):
        return len(self.phaseNames) == 0 or forall(
            0, len(self.phases), lambda i: exists(
                0, len(self.phaseNames), lambda j:
                self.phases[i].name == self.phaseNames[j]))

    def ensures_every(self):
        """Every name asked for that is a phase of the model."""
        return forall(0, len(self.phaseNames), lambda j: refused(
            self.phaseNames[j], self.tModDepth) or exists(
                0, len(self.phases), lambda i:
                self.phases[i].name == self.phaseNames[j]))

    def ensures_once(self):
        return len(self.phaseNames) == 0 or forall(
            0, len(self.phases), lambda i: forall(
                0, i, lambda j: self.phases[i].name != self.phases[j].name))
