"""Contracts: requests for times, pierce points and paths (C03, C04)."""
from pyded.spec import *

FIELDS = {
    'TauP_Pierce': {'onlyTurnPoints': 'bool', 'onlyRevPoints': 'bool',
                    'onlyUnderPoints': 'bool', 'onlyAddPoints': 'bool',
                    'addDepth': 'list:real'},
    'TauP_Path': {'maxPathTime': 'real', 'maxPathInc': 'real'},
}


def distinct(names):
    return forall(0, len(names), lambda i: forall(
        0, i, lambda j: names[i] != names[j]))


def surface_model(m):
    return two_waves(m) and stacked(m.tauBranches[0])


def ready(r, depth):
    """A request with its phase names, for a source at the depth."""
    return (distinct(r.phaseNames) and not same(r.phases, r.phaseNames)
            and r.depth == depth and surface_model(r.tMod))


def answered(r):
    """The phases are those asked for, in the model corrected for the source
    depth."""
    return (len(r.phaseNames) == 0 or forall(
        0, len(r.phases), lambda i:
        same(r.phases[i].tMod, r.tModDepth)
        and r.phases[i].sourceDepth == r.depth
        and exists(0, len(r.phaseNames), lambda j:
                   r.phases[i].name == r.phaseNames[j]))
        and forall(0, len(r.phaseNames), lambda j: refused(
            r.phaseNames[j], r.tModDepth) or exists(
                0, len(r.phases), lambda i:
                r.phases[i].name == r.phaseNames[j])))


def corrected(r, depth, tMod, before):
    """The model is the one there was, or a new one, for the depth."""
    return (not is_none(r.tModDepth) and r.tModDepth.sourceDepth == depth
            and r.sourceDepth == depth
            and (is_fresh(r.tModDepth) or same(r.tModDepth, before)))


class TimeDepthCorrect(Contract):
    target = 'TauP_Time.depthCorrect'
    args = {'self': 'TauP_Time', 'depth': 'real'}
    modifies = ['self.tModDepth', 'self.arrivals', 'self.phases',
                'self.phases[]', 'self.sourceDepth']
    allocates = True
    props = ['C03', 'C04']

    def requires_ready(self, depth):
        return ready(self, depth)

    def may_raise_TauModelError():
        return True

    def may_raise_SlownessModelError():
        return True

    def ensures_corrected(self, depth, old):
        return corrected(self, depth, self.tMod, old.self.tModDepth)

    def ensures_list(self, old):
        return is_fresh(self.phases) or same(self.phases, old.self.phases)

    def ensures_kept(self, depth, old):
        """Nothing happens if the model is for the depth already."""
        return implies(not is_none(old.self.tModDepth)
                       and old.self.tModDepth.sourceDepth == depth,
                       same(self.tModDepth, old.self.tModDepth)
                       and same(self.phases, old.self.phases)
                       and same(self.arrivals, old.self.arrivals))

    def ensures_answered(self, depth, old):
        return implies(is_none(old.self.tModDepth)
                       or old.self.tModDepth.sourceDepth != depth,
                       answered(self) and len(self.arrivals) == 0)


def complete(r, degrees):
    """Exactly the arrivals of the phases at the distance."""
    return (len(r.arrivals) == total(0, len(r.phases), lambda j:
                                     arrival_count(r.phases[j], degrees))
            and forall(0, len(r.arrivals), lambda i: exists(
                0, len(r.phases), lambda j:
                same(r.arrivals[i].phase, r.phases[j])
                and gives(r.phases[j], degrees, r.arrivals[i].time)))
            and every_number(lambda t: forall(
                0, len(r.phases), lambda j: implies(
                    gives(r.phases[j], degrees, t), exists(
                        0, len(r.arrivals), lambda i:
                        r.arrivals[i].time == t
                        and same(r.arrivals[i].phase, r.phases[j]))))))


def in_order(arrivals):
    return forall(0, len(arrivals), lambda i: forall(
        0, i, lambda j: arrivals[j].time <= arrivals[i].time))


class TimeCalculate(Contract):
    target = 'TauP_Time.calculate'
    args = {'self': 'TauP_Time', 'degrees': 'real'}
    modifies = ['self.tModDepth', 'self.arrivals', 'self.phases',
                'self.phases[]', 'self.sourceDepth', 'self.degrees']
    allocates = True
    auto_frame = True
    props = ['C03', 'C04']

    def requires_ready(self):
        return (ready(self, self.depth) and self.sourceDepth == self.depth)

    def requires_no_relative_phase(self):
        """(There is no option for one.)"""
        return is_none(self.relativePhaseName)

    def may_raise_TauModelError():
        return True

    def may_raise_SlownessModelError():
        return True

    def ensures_corrected(self, old):
        return corrected(self, self.depth, self.tMod, old.self.tModDepth)

    def ensures_answered(self):
        return answered(self)

    def ensures_distance(self, degrees):
        return not is_none(self.degrees) and self.degrees == degrees

    def ensures_complete(self, degrees):
        return complete(self, degrees)

    def ensures_sorted(self):
        return in_order(self.arrivals)


class TimePrint(Contract):
    """(Only the text: -0.0 is printed as 0.)"""
    target = 'TauP_Time.printResult'
    args = {'self': 'TauP_Time'}
    modifies = ['Arrival.takeoffAngle']
    props = ['C03']


def located(r):
    return (not is_none(r.stationLat) and not is_none(r.stationLon)
            and not is_none(r.eventLat) and not is_none(r.eventLon))


@hidden
def apart(lat1, lon1, lat2, lon2, d):
    """The two points are d degrees apart."""
    return 0 <= d and d <= 180 and close(cos(d * (pi / 180)), cos_angle(
        lat1 * (pi / 180), lon1 * (pi / 180), lat2 * (pi / 180),
        lon2 * (pi / 180)))


class TimeRun(Contract):
    target = 'TauP_Time.run'
    args = {'self': 'TauP_Time', 'printOutput': 'bool'}
    modifies = ['self.phaseNames', 'self.tModDepth', 'self.arrivals',
                'self.phases', 'self.phases[]', 'self.sourceDepth',
                'self.degrees', 'Arrival.takeoffAngle']
    allocates = True
    props = ['C03', 'C04', 'C17']

    def requires_model(self):
        return surface_model(self.tMod)

    def requires_new(self):
        """As the constructor leaves it."""
        return (is_none(self.relativePhaseName) and len(self.phases) == 0
                and not same(self.phases, self.phaseList)
                and len(self.arrivals) == 0
                and same(self.tModDepth, self.tMod))

    def raises_ValueError(self):
        return is_none(self.degrees) and not located(self)

    def may_raise_TauModelError():
        return True

    def may_raise_SlownessModelError():
        return True

    def ensures_names(self):
        """The names are those asked for by themselves or by shorthands."""
        return forall(0, len(self.phaseNames), lambda i: exists(
            0, len(self.phaseList), lambda j: expands(
                self.phaseList[j], self.phaseNames[i])))

    def ensures_all_names(self):
        return every_text(lambda x: forall(
            0, len(self.phaseList), lambda j: implies(
                expands(self.phaseList[j], x), x in self.phaseNames)))

    def ensures_corrected(self, old):
        return corrected(self, self.depth, self.tMod, self.tMod)

    def ensures_answered(self):
        return answered(self)

    def ensures_distance(self, old):
        return (not is_none(self.degrees)
                and implies(not is_none(old.self.degrees),
                            self.degrees == old.self.degrees))

    def ensures_complete(self):
        return complete(self, self.degrees)

    def ensures_sorted(self):
        return in_order(self.arrivals)
