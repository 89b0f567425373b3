"""Contracts: distances (C02, C17)."""
from pyded.spec import *

FIELDS = {
    'Arrival': {'time': 'real', 'dist': 'real', 'rayParam': 'real',
                'rayParamIndex': 'int', 'name': 'str', 'puristName': 'str',
                'sourceDepth': 'real', 'takeoffAngle': 'real',
                'incidentAngle': 'real', 'phase': 'SeismicPhase',
                'pierce': 'list:TimeDist', 'path': 'list:TimeDist'},
}


class ArrivalInit(Contract):
    target = 'Arrival.__init__'
    args = {'self': 'Arrival', 'phase': 'SeismicPhase', 'time': 'real',
            'dist': 'real', 'rayParam': 'real', 'rayParamIndex': 'int',
            'name': 'str', 'puristName': 'str', 'sourceDepth': 'real',
            'takeoffAngle': 'real', 'incidentAngle': 'real'}
    modifies = ['self.phase', 'self.time', 'self.dist', 'self.rayParam',
                'self.rayParamIndex', 'self.name', 'self.puristName',
                'self.sourceDepth', 'self.takeoffAngle',
                'self.incidentAngle', 'self.pierce', 'self.path']
    allocates = True
    props = ['C01', 'C20']

    def ensures_fields(self, phase, time, dist, rayParam, rayParamIndex,
                       sourceDepth, takeoffAngle, incidentAngle):
        return (same(self.phase, phase) and self.time == time
                and self.dist == dist and self.rayParam == rayParam
                and self.rayParamIndex == rayParamIndex
                and self.sourceDepth == sourceDepth
                and self.takeoffAngle == takeoffAngle
                and self.incidentAngle == incidentAngle)


class ModuloDist(Contract):
    target = 'Arrival.getModuloDistDeg'
    merge = False
    args = {'self': 'Arrival'}
    result = 'real'
    props = ['C02']

    def ensures_range(result):
        return 0 <= result and result <= 180

    def ensures_folded(self, result):
        """It differs from the distance, or from its negative, by whole
        circles."""
        return (is_whole(((180 / pi) * self.dist - result) / 360)
                or is_whole(((180 / pi) * self.dist + result) / 360))


class ArrivalDistDeg(Contract):
    target = 'Arrival.getDistDeg'
    args = {'self': 'Arrival'}
    result = 'real'
    props = ['C02']

    def ensures_degrees(self, result):
        return close(result * pi, self.dist * 180)


class ArrivalPuristDistance(Contract):
    target = 'Arrival.purist_distance'
    args = {'self': 'Arrival'}
    result = 'real'
    props = ['C02']

    def ensures_degrees(self, result):
        return close(result * pi, self.dist * 180)


class ArrivalRayParam(Contract):
    target = 'Arrival.rayParam_sec_degree'
    args = {'self': 'Arrival'}
    result = 'real'
    props = ['C02']

    def ensures_per_degree(self, result):
        return close(result * 180, self.rayParam * pi)


def cos_between(a, b):
    """Cosine of the angle between two points given as latitude, longitude
    in degrees."""
    return (sin(a[0] * (pi / 180)) * sin(b[0] * (pi / 180))
            + cos(a[0] * (pi / 180)) * cos(b[0] * (pi / 180))
            * cos((b[1] - a[1]) * (pi / 180)))


class GreatCircle(Contract):
    target = 'TauP_Time.great_circle_dist'
    args = {'stn': 'list:real', 'event': 'list:real'}
    result = 'real'
    props = ['C17']

    def requires_pairs(stn, event):
        return len(stn) == 2 and len(event) == 2

    def ensures_range(result):
        return 0 <= result and result <= 180

    def ensures_law(stn, event, result):
        return close(cos(result * (pi / 180)), cos_between(stn, event))


def cos_angle(lat1, lon1, lat2, lon2):
    return (sin(lat1) * sin(lat2)
            + cos(lat1) * cos(lat2) * cos(lon2 - lon1))


class GreatCircleSymmetric(Lemma):
    """Two angles in [0, 180] degrees that obey the law for swapped points
    are equal: the distance is symmetric."""
    args = {'lat1': 'real', 'lon1': 'real', 'lat2': 'real', 'lon2': 'real',
            'd1': 'real', 'd2': 'real'}
    props = ['C17']

    def requires_range(d1, d2):
        return 0 <= d1 and d1 <= pi and 0 <= d2 and d2 <= pi

    def requires_law(lat1, lon1, lat2, lon2, d1, d2):
        return (cos(d1) == cos_angle(lat1, lon1, lat2, lon2)
                and cos(d2) == cos_angle(lat2, lon2, lat1, lon1))

    def ensures_same(d1, d2):
        return d1 == d2


class GreatCircleTurn(Lemma):
    """A whole turn of a longitude, or the same shift of both, does not
    change the distance."""
    args = {'lat1': 'real', 'lon1': 'real', 'lat2': 'real', 'lon2': 'real',
            'lon3': 'real', 'shift': 'real', 'd1': 'real', 'd2': 'real',
            'd3': 'real', 'd4': 'real'}
    props = ['C17']

    def requires_range(d1, d2, d3, d4):
        return (0 <= d1 and d1 <= pi and 0 <= d2 and d2 <= pi
                and 0 <= d3 and d3 <= pi and 0 <= d4 and d4 <= pi)

    def requires_law(lat1, lon1, lat2, lon2, lon3, d1, d2, d3, d4, shift):
        return (lon3 - lon2 == 2 * pi
                and cos(d1) == cos_angle(lat1, lon1, lat2, lon2)
                and cos(d2) == cos_angle(lat1, lon1, lat2, lon3)
                and cos(d3) == cos_angle(lat1, lon3, lat2, lon1)
                and cos(d4) == cos_angle(lat1, lon1 + shift, lat2,
                                         lon2 + shift))

    def ensures_turn(d1, d2):
        return d1 == d2

    def ensures_shift(d1, d4):
        return d1 == d4


class GreatCircleEnds(Lemma):
    """0 for coincident and 180 degrees for antipodal points."""
    args = {'lat': 'real', 'lon': 'real', 'd1': 'real', 'd2': 'real'}
    props = ['C17']

    def requires_range(d1, d2):
        return 0 <= d1 and d1 <= pi and 0 <= d2 and d2 <= pi

    def requires_law(lat, lon, d1, d2):
        return (cos(d1) == cos_angle(lat, lon, lat, lon)
                and cos(d2) == -sin(lat) * sin(lat)
                + cos(lat) * cos(lat) * cos(pi))

    def ensures_coincident(d1):
        return d1 == 0

    def ensures_antipodal(d2):
        return d2 == pi
