"""Earth models used by the bounded stand-ins and by counterexample replay.

Every model is built from /repo's current code (never from a pickle that was
built earlier) out of a JSON-able specification, and cached per process."""
import copy
import math
import os
import random
import shutil
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')

_cache = {}


def rows_lvz():
    """6371 km, low-velocity zones for P and S, few layers."""
    return [(0, 5.8, 3.36, 2.72), (20, 5.8, 3.36, 2.72),
            (20, 6.5, 3.75, 2.92), (35, 6.5, 3.75, 2.92),
            (35, 8.04, 4.47, 3.32), (100, 8.10, 4.50, 3.35),
            (180, 7.75, 4.20, 3.35), (260, 8.30, 4.62, 3.40),
            (410, 9.03, 4.87, 3.50), (410, 9.36, 5.08, 3.90),
            (660, 10.2, 5.60, 4.00), (660, 10.79, 5.96, 4.40),
            (1500, 12.2, 6.70, 4.9), (2700, 13.65, 7.26, 5.5),
            (2889, 13.69, 7.29, 5.6), (2889, 8.01, 0, 9.9),
            (4000, 9.5, 0, 11.2), (5153.9, 10.29, 0, 12.1),
            (5153.9, 11.04, 3.50, 12.7), (6371, 11.24, 3.65, 13.0)]


def rows_jump_lvz():
    """6371 km, a high slowness zone that starts at a discontinuity."""
    return [(0, 5.5, 3.2, 2.7), (30, 6.2, 3.6, 2.8),
            (30, 8.1, 4.6, 3.3), (150, 8.3, 4.7, 3.3),
            (150, 7.6, 4.1, 3.3), (300, 8.0, 4.4, 3.4),
            (400, 9.0, 4.9, 3.5), (670, 10.5, 5.8, 4.0),
            (670, 10.9, 6.0, 4.4), (1800, 12.6, 6.9, 5.0),
            (2900, 13.7, 7.3, 5.6), (2900, 8.1, 0, 9.9),
            (5100, 10.2, 0, 12.1), (5100, 11.0, 3.5, 12.7),
            (6371, 11.3, 3.7, 13.0)]


def rows_small():
    """3000 km radius, moho at 45 km, small core without inner core."""
    return [(0, 5.0, 2.9, 2.7), (45, 6.4, 3.7, 2.9),
            (45, 7.8, 4.4, 3.3), (900, 8.9, 4.9, 3.6),
            (900, 9.2, 5.1, 3.7), (1700, 9.6, 5.3, 3.9),
            (1700, 5.8, 0, 6.5), (3000, 6.4, 0, 7.0)]


def rows_solid():
    """6371 km with a solid inner core and a discontinuity very close to the
    surface; moho deeper than its nominal depth."""
    return [(0, 4.5, 2.6, 2.4), (3, 4.8, 2.8, 2.5),
            (3, 5.9, 3.4, 2.7), (62, 7.0, 4.0, 3.0),
            (62, 8.0, 4.5, 3.3), (900, 11.2, 6.2, 4.5),
            (2890, 13.7, 7.25, 5.6), (2890, 8.0, 0, 9.9),
            (3400, 8.7, 0, 10.5), (5155, 10.3, 0, 12.2),
            (5155, 11.1, 3.55, 12.8), (6371, 11.26, 3.67, 13.1)]


def rows_random(seed):
    """A random, well-behaved planet."""
    rng = random.Random(seed)
    R = rng.choice([6371.0, 6371.0, 6371.0, 5000.0, 8000.0])
    rows = []
    d, vp, ratio = 0.0, rng.uniform(4.5, 6.0), rng.uniform(1.7, 1.85)

    def add(depth, v):
        rows.append((round(depth, 3), round(v, 4), round(v / ratio, 4),
                     round(1.0 + v / 4, 3)))
    add(0, vp)
    moho = rng.uniform(15, 60)
    if rng.random() < 0.5:
        c = rng.uniform(5, moho - 5)
        add(c, vp + 0.1)
        add(c, vp + 0.6)
        vp += 0.6
    add(moho, vp + 0.2)
    vp = rng.uniform(7.7, 8.2)
    add(moho, vp)
    d = moho
    cmb = rng.uniform(0.42, 0.5) * R
    n = rng.randint(2, 5)
    cuts = sorted(rng.uniform(moho + 40, cmb - 100) for _ in range(n))
    for i, c in enumerate(cuts):
        if c - d < 30:
            continue
        g = rng.uniform(0.0008, 0.0022)
        if rng.random() < 0.2 and c < 0.2 * R:
            vn = vp * (1 - rng.uniform(0.01, 0.06))
        else:
            vn = vp + g * (c - d)
        add(c, vn)
        if rng.random() < 0.5:
            vn += rng.uniform(0.1, 0.5)
            add(c, vn)
        vp, d = vn, c
    vp = vp + 0.0006 * (cmb - d)
    add(cmb, vp)
    v = rng.uniform(0.55, 0.62) * vp
    icb = rng.uniform(0.75, 0.85) * R
    rows.append((round(cmb, 3), round(v, 4), 0, 9.9))
    v2 = v + rng.uniform(1.2, 2.2)
    rows.append((round(icb, 3), round(v2, 4), 0, 12.0))
    v3 = v2 + rng.uniform(0.3, 0.9)
    rows.append((round(icb, 3), round(v3, 4), round(v3 / 3.1, 4), 12.7))
    rows.append((R, round(v3 + 0.2, 4), round((v3 + 0.2) / 3.05, 4), 13.0))
    return rows


# name -> (rows or file, minDeltaP, maxDeltaP, maxDepthInterval,
#          maxRangeInterval [deg], maxInterpError, allowInnerCoreS)
SPECS = {
    'iasp91': ('file:iasp91', 0.1, 50, 400, 10, 1.0, True),
    'ak135': ('file:ak135', 0.1, 50, 400, 10, 1.0, True),
    'lvz': (rows_lvz, 0.1, 60, 400, 10, 2.0, True),
    'jump': (rows_jump_lvz, 0.1, 60, 500, 15, 3.0, True),
    'small': (rows_small, 0.1, 40, 300, 10, 1.0, True),
    'solid': (rows_solid, 0.1, 60, 400, 10, 2.0, True),
    'nocs': (rows_lvz, 0.1, 60, 400, 10, 2.0, False),
    'fine': (rows_solid, 0.1, 11, 115, 2.5, 0.05, True),
}
NRANDOM = 24


def pool(rng, tier='quick', inner=False):
    """Model names, the cheap ones first, in a random order."""
    a = ['lvz', 'jump', 'solid', 'nocs'] + ([] if inner else ['small'])
    b = ['rnd%d' % i for i in range(NRANDOM)]
    rng.shuffle(a)
    rng.shuffle(b)
    k = 8 if tier == 'quick' else NRANDOM
    return a[:2] + b[:2] + a[2:] + b[2:k] + ['iasp91'] + (
        ['ak135', 'fine'] if tier != 'quick' else [])


def spec_of(name):
    if name.startswith('rnd'):
        k = int(name[3:])
        return (lambda: rows_random(k), 0.1, 60, 400, 10, 2.0, True)
    return SPECS[name]


def tvel_text(rows, comment=False):
    out = ['model - P', 'model - S']
    for i, r in enumerate(rows):
        out.append('%12.4f %9.5f %9.5f %9.5f' % tuple(r))
    return '\n'.join(out) + '\n'


def vmodel(name):
    """A fresh velocity model read by the code under test."""
    from taupy.VelocityModel import VelocityModel
    src = spec_of(name)[0]
    if isinstance(src, str):
        path = os.path.join(REPO, 'taupy', 'data', src[5:] + '.tvel')
        return VelocityModel.readVelocityFile(path)
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        path = os.path.join(tmp, name + '.tvel')
        with open(path, 'w') as f:
            f.write(tvel_text(src()))
        return VelocityModel.readVelocityFile(path)
    finally:
        shutil.rmtree(tmp)


def smodel(name):
    from taupy.SlownessModel import SlownessModel
    key = ('s', name)
    if key not in _cache:
        sp = spec_of(name)
        _cache[key] = SlownessModel(
            vmodel(name), sp[1], sp[2], sp[3], sp[4] * math.pi / 180, sp[5],
            sp[6])
    return _cache[key]


def tmodel(name):
    """The tau model of this name (shared: must not be modified)."""
    from taupy.TauModel import TauModel
    key = ('t', name)
    if key not in _cache:
        _cache[key] = TauModel(copy.deepcopy(smodel(name)))
    return _cache[key]


def corrected(name, depth):
    key = ('d', name, depth)
    if key not in _cache:
        ks = [k for k in _cache if k[0] == 'd']
        if len(ks) > 40:
            del _cache[ks[0]]
        _cache[key] = tmodel(name).depthCorrect(depth)
    return _cache[key]


def rows_of(name):
    """(depth, vp, vs, rho) rows of the model as text-independent data."""
    src = spec_of(name)[0]
    if not isinstance(src, str):
        return [tuple(float(x) for x in r) for r in src()]
    rows = []
    path = os.path.join(REPO, 'taupy', 'data', src[5:] + '.tvel')
    with open(path) as f:
        for line in list(f)[2:]:
            c = line.split('#')[0].split()
            if c:
                rows.append(tuple(float(x) for x in c))
    return rows


def radius_of(name):
    return rows_of(name)[-1][0]


def pick_depth(rng, name):
    """A source depth: surface, boundary, near-boundary or anywhere."""
    R = radius_of(name)
    rows = rows_of(name)
    k = rng.random()
    bounds = sorted({r[0] for r in rows})[:-1]
    if k < 0.15:
        return 0.0
    if k < 0.3:
        return rng.choice(bounds)
    if k < 0.4:
        return min(R - 1, max(0.0, rng.choice(bounds)
                              + rng.choice([-1, 1]) * rng.uniform(.01, 3)))
    if k < 0.8:
        return round(rng.uniform(0, min(700, 0.2 * R)), rng.choice([0, 1, 6]))
    return round(rng.uniform(0, 0.95 * R), rng.choice([0, 1, 6]))
