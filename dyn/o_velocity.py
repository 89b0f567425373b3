"""C10, C11, C12, C16, C17 on the velocity model, its file and geometry."""
import math
import os
import shutil
import tempfile
from .base import oracle, need, near, quiet
from . import models as M


def _layer(a):
    from taupy.VelocityLayer import VelocityLayer
    return VelocityLayer(*a)


def _vmod(case):
    from taupy.VelocityModel import VelocityModel
    kw = dict(case.get('kw', {}))
    return VelocityModel('t', kw.pop('radiusOfEarth', 6371.0),
                         kw.pop('mohoDepth', 35), kw.pop('cmbDepth', 2889.0),
                         kw.pop('iocbDepth', 5153.9), kw.pop('minRadius', 0.0),
                         kw.pop('maxRadius', 6371.0), True,
                         [_layer(a) for a in case['layers']])


def rand_layers(rng, n, R=6371.0, jump=0.5, fluid=0.2):
    cuts = sorted({round(rng.uniform(1, R - 1), rng.choice([0, 1, 3]))
                   for _ in range(n - 1)})
    cuts = [0.0] + cuts + [R]
    out = []
    vp, vs, rho = rng.uniform(3, 8), rng.uniform(1, 3), rng.uniform(1, 5)
    for i in range(len(cuts) - 1):
        if i and rng.random() < jump:
            k = rng.random()
            if k < .4:
                vp = rng.uniform(3, 13)
            elif k < .7:
                vs = rng.uniform(.5, 3)
            elif k < 0.8:
                rho = rng.uniform(1, 13)
            else:
                vp, vs = rng.uniform(3, 13), rng.uniform(.5, 3)
            if rng.random() < fluid:
                vs = 0.0
            elif vs == 0:
                vs = rng.uniform(1, 3)
        vp2 = vp if rng.random() < .2 else rng.uniform(3, 13)
        vs2 = vs if rng.random() < .2 or vs == 0 else rng.uniform(.5, 3)
        rho2 = rng.uniform(1, 13)
        out.append([i, cuts[i], cuts[i + 1], vp, vp2, vs, vs2, rho, rho2])
        vp, vs, rho = vp2, vs2, rho2
    return out


# ---------------------------------------------------------------- C10
def c10_cases(rng, tier):
    while True:
        ls = rand_layers(rng, rng.randint(1, 12))
        deps = []
        for l in ls:
            deps += [l[1], l[2], (l[1] + l[2]) / 2,
                     rng.uniform(l[1], l[2])]
        deps += [-1.0, 6371.5, -1e-9, 7000.0]
        yield {'layers': ls, 'depths': deps,
               'prop': rng.choice('pPsSdDrR')}


@oracle('C10', 'lookup', c10_cases)
def c10_lookup(case):
    """Velocity lookups against a direct search over the layers."""
    from taupy.header import TauPException
    m = _vmod(case)
    ls, prop = case['layers'], case['prop']
    k = {'p': 3, 's': 5, 'd': 7, 'r': 7}[prop.lower()]
    for d in case['depths']:
        for side in ('Above', 'Below'):
            idx = [i for i, l in enumerate(ls)
                   if (l[1] < d <= l[2] if side == 'Above'
                       else l[1] <= d < l[2])]
            try:
                got = getattr(m, 'evaluate' + side)(d, prop)
            except TauPException:
                got = None
            try:
                num = getattr(m, 'layerNumber' + side)(d)
            except TauPException:
                num = None
            if not idx:
                need(got is None, '%s at uncovered depth %r gives %r',
                     side, d, got)
                need(num is None, 'layerNumber%s at uncovered depth %r '
                     'gives %r', side, d, num)
                continue
            l = ls[idx[0]]
            want = l[k] + (d - l[1]) * (l[k + 1] - l[k]) / (l[2] - l[1])
            need(num == idx[0], 'layerNumber%s(%r) is %r, not %r', side, d,
                 num, idx[0])
            need(got is not None and near(got, want),
                 'evaluate%s(%r, %r) is %r, not %r', side, d, prop, got, want)
    for i, l in enumerate(ls):
        need(m.layers[i].evaluateAtTop(prop) == l[k], 'top of layer %d', i)
        need(m.layers[i].evaluateAtBottom(prop) == l[k + 1],
             'bottom of layer %d', i)
        need(m.depthAtTop(i) == l[1] and m.depthAtBottom(i) == l[2],
             'depths of layer %d', i)
        for f in (m.layers[i].evaluateAtTop, m.layers[i].evaluateAtBottom):
            for bad in ('x', 'q', 'v'):
                try:
                    f(bad)
                except TauPException:
                    continue
                need(False, 'unknown property %r accepted', bad)


# ---------------------------------------------------------------- C11
def c11_cases(rng, tier):
    fields = ['topP', 'botP', 'topS', 'botS', 'gap', 'thick', 'hdr', 'none',
              'none', 'bothS', 'neg']
    while True:
        ls = rand_layers(rng, rng.randint(1, 8))
        kw = {}
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            f = rng.choice(fields)
            i = rng.randrange(len(ls))
            if f == 'topP':
                ls[i][3] = rng.choice([0.0, -1.0, 1e-9])
            elif f == 'botP':
                ls[i][4] = rng.choice([0.0, -1.0, 1e-9])
            elif f == 'topS':
                ls[i][5] = rng.choice([0.0, -1.0, 1e-9])
            elif f == 'botS':
                ls[i][6] = rng.choice([0.0, -0.5, 1e-9])
            elif f == 'bothS':
                ls[i][5] = ls[i][6] = 0.0
            elif f == 'gap':
                ls[i][rng.choice([1, 2])] += rng.choice([1e-6, -1e-6, 0.5])
            elif f == 'thick' and i:
                ls[i][1] = ls[i][2]
                if rng.random() < .5:
                    ls[i - 1][2] = ls[i][2]
            elif f == 'neg':
                ls[i][rng.randrange(3, 7)] *= -1
            elif f == 'hdr':
                kw[rng.choice(['radiusOfEarth', 'mohoDepth', 'cmbDepth',
                               'iocbDepth', 'minRadius', 'maxRadius'])] = \
                    rng.choice([0.0, -1.0, 1.0, 30.0, 2889.0, 5153.9,
                                6000.0, 6371.0, -1e-9])
        yield {'layers': ls, 'kw': kw}


def _consistent(ls, kw):
    R = kw.get('radiusOfEarth', 6371.0)
    mo, c, i = (kw.get('mohoDepth', 35), kw.get('cmbDepth', 2889.0),
                kw.get('iocbDepth', 5153.9))
    lo, hi = kw.get('minRadius', 0.0), kw.get('maxRadius', 6371.0)
    ok = (R > 0 and mo >= 0 and c > 0 and c >= mo and i > 0 and i >= c
          and lo >= 0 and hi > 0 and hi > lo)
    for l in ls:
        ok = ok and l[1] != l[2] and l[3] > 0 and l[4] > 0 and l[5] >= 0 \
            and l[6] >= 0 and (l[5] == 0) == (l[6] == 0)
    for a, b in zip(ls, ls[1:]):
        ok = ok and a[2] == b[1]
    return bool(ok)


@oracle('C11', 'validate', c11_cases)
def c11_validate(case):
    """validate() against the written-out consistency conditions."""
    m = _vmod(case)
    with quiet():
        got = m.validate()
    want = _consistent(case['layers'], case.get('kw', {}))
    need(bool(got) == want, 'validate() is %r, the model is %s', got,
         'consistent' if want else 'inconsistent')


def c11b_cases(rng, tier):
    for c in c11_cases(rng, tier):
        if not _consistent(c['layers'], c['kw']):
            yield c


@oracle('C11', 'refused', c11b_cases, 0.3)
def c11_refused(case):
    """SlownessModel refuses every inconsistent velocity model."""
    from taupy.SlownessModel import SlownessModel
    from taupy.helper_classes import SlownessModelError
    m = _vmod(case)
    try:
        with quiet():
            SlownessModel(m, 0.1, 200, 3000, 1.0, 1e9)
    except SlownessModelError:
        return
    except Exception as e:
        need(False, 'inconsistent model not refused, failed later: %r', e)
    need(False, 'a slowness model was built from an inconsistent model')


# ---------------------------------------------------------------- C12
def c12_cases(rng, tier):
    while True:
        n = rng.randint(2, 12)
        rows, d = [], 0.0
        vp, vs, rho = 5.0, 3.0, 2.7
        for i in range(n):
            rows.append([d, vp, vs, rho])
            if rng.random() < .35 and i:
                k = rng.random()
                vp = round(rng.uniform(3, 13), rng.choice([1, 4]))
                vs = round(rng.choice([0, rng.uniform(.5, 3)]), 4)
                if k < .3:
                    rho = round(rng.uniform(2, 10), 2)
                rows.append([d, vp, vs, rho])
                if rng.random() < .1:
                    vp = round(rng.uniform(3, 13), 2)
                    rows.append([d, vp, vs, rho])
            d = round(d + rng.uniform(.5, 900), rng.choice([0, 2, 4]))
            vp = round(rng.uniform(3, 13), rng.choice([0, 2, 4]))
            vs = round(rng.uniform(0.2, 3), rng.choice([1, 4])) \
                if vs else rng.choice([0, 0.0, 2.5])
            rho = round(rng.uniform(2, 10), 3)
        fault, where = None, 0
        k = rng.random()
        if k < .12:
            fault, where = 'vs', rng.randrange(len(rows))
        elif k < .24:
            fault, where = 'rho', rng.randrange(len(rows))
        yield {'rows': rows, 'fault': fault, 'where': where,
               'style': [rng.random() for _ in range(2 * len(rows) + 2)],
               'name': rng.choice(['abc', 'my.model', 'x_1'])}


@oracle('C12', 'read', c12_cases)
def c12_read(case):
    """readTVelFile against the rows that were written."""
    from taupy.VelocityModel import VelocityModel
    from taupy.header import TauPException
    rows = [list(map(float, r)) for r in case['rows']]
    if case['fault'] == 'vs':
        rows[case['where']][2] = rows[case['where']][1] + 0.01
    out = ['# first header', 'second header 1 2 3 4']
    for i, r in enumerate(rows):
        s1, s2 = case['style'][2 * i], case['style'][2 * i + 1]
        if s2 < .1:
            out.append('')
        elif s2 < .2:
            out.append('   # only a comment 1.0 2.0')
        elif s2 < .25:
            out.append('  \t ')
        cols = r if not (case['fault'] == 'rho' and i == case['where']) \
            else r[:3]
        sep = ' ' if s1 < .3 else '\t' if s1 < .5 else '   '
        line = sep.join(repr(x) for x in cols)
        if s1 > .8:
            line = '  ' + line
        if .6 < s1 < .75:
            line += '  # note 7.0'
        elif .75 < s1 < .8:
            line += '#x'
        out.append(line)
    if case['style'][-1] < .2:
        out += ['', '# end']
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        path = os.path.join(tmp, case['name'] + '.tvel')
        with open(path, 'w') as f:
            f.write('\n'.join(out) + ('\n' if case['style'][-2] < .5 else ''))
        try:
            m = VelocityModel.readTVelFile(path)
        except (TauPException, ValueError):
            need(case['fault'] is not None, 'a correct file was refused')
            return
        need(case['fault'] is None, 'a file with fault %r in row %d was '
             'accepted', case['fault'], case['where'])
    finally:
        shutil.rmtree(tmp)
    want = []
    for a, b in zip(rows, rows[1:]):
        if a[0] != b[0]:
            want.append([len(want), a[0], b[0], a[1], b[1], a[2], b[2],
                         a[3], b[3]])
    got = [[l.layer_number, l.topDepth, l.botDepth, l.topPVelocity,
            l.botPVelocity, l.topSVelocity, l.botSVelocity, l.topDensity,
            l.botDensity] for l in m.layers]
    need(got == want, 'layers %r instead of %r', got, want)
    need(m.radiusOfEarth == rows[-1][0] and m.maxRadius == rows[-1][0],
         'radius %r, maxRadius %r', m.radiusOfEarth, m.maxRadius)
    need(m.modelName == case['name'], 'model name %r', m.modelName)
    need(m.minRadius == 0, 'minRadius %r', m.minRadius)


def c12b_cases(rng, tier):
    for n in ('iasp91', 'ak135', 'lvz', 'small', 'solid', 'jump'):
        yield {'model': n}


@oracle('C12', 'models', c12b_cases, 0.1)
def c12_models(case):
    """readVelocityFile on the shipped and synthetic model files."""
    m = M.vmodel(case['model'])
    rows = M.rows_of(case['model'])
    want = [(a[0], b[0], a[1], b[1], a[2], b[2], a[3], b[3])
            for a, b in zip(rows, rows[1:]) if a[0] != b[0]]
    got = [(l.topDepth, l.botDepth, l.topPVelocity, l.botPVelocity,
            l.topSVelocity, l.botSVelocity, l.topDensity, l.botDensity)
           for l in m.layers]
    need(got == want, 'layers differ from the file')
    need(m.radiusOfEarth == rows[-1][0], 'radius %r', m.radiusOfEarth)


# ---------------------------------------------------------------- C16
def c16_cases(rng, tier):
    while True:
        R = rng.choice([6371.0, 6371.0, 3000.0, 8000.0])
        ls = rand_layers(rng, rng.randint(1, 14), R,
                         rng.choice([0.2, 0.6, 1.0]), rng.choice([.1, .5]))
        kw = {'radiusOfEarth': R, 'maxRadius': R,
              'mohoDepth': rng.choice([35, round(rng.uniform(0, 400), 1)]),
              'cmbDepth': rng.choice([2889.0, round(rng.uniform(0, R), 1)]),
              'iocbDepth': rng.choice([5153.9, round(rng.uniform(0, R), 1)])}
        if rng.random() < .4:
            # move boundaries near the nominal depths, also beyond 65 km
            for key in ('mohoDepth', 'cmbDepth', 'iocbDepth'):
                if len(ls) > 2 and rng.random() < .7:
                    i = rng.randrange(len(ls) - 1)
                    kw[key] = max(0.0, ls[i][2] + rng.choice(
                        [0, 0, 64.9, -64.9, 65.0, 70, -30, 1, -1]))
        yield {'layers': ls, 'kw': kw, 'again': rng.random() < .5}


@oracle('C16', 'boundaries', c16_cases)
def c16_boundaries(case):
    """fixDisconDepths and getDisconDepths by direct search."""
    m = _vmod(case)
    ls, kw = case['layers'], case['kw']
    R = kw['radiusOfEarth']
    disc = [(a[2], a[6] == 0 and b[5] > 0) for a, b in zip(ls, ls[1:])
            if a[4] != b[3] or a[6] != b[5]]
    want = [ls[0][1]] + [d for d, _ in disc] + [ls[-1][2]]
    got = list(m.getDisconDepths())
    need(got == want, 'getDisconDepths() is %r, not %r', got, want)

    def closest(nominal, cand, limit, default):
        best = [d for d in cand if abs(nominal - d) < limit]
        if not best:
            return [default]
        k = min(abs(nominal - d) for d in best)
        return [d for d in best if abs(nominal - d) == k]
    old = (m.mohoDepth, m.cmbDepth, m.iocbDepth)
    mo = closest(old[0], [d for d, _ in disc], 65.0, 0.0)
    c = closest(old[1], [d for d, _ in disc], R, R)
    i0 = closest(old[2], [d for d, f in disc if f], R - 100, R)
    changed = m.fixDisconDepths()
    need(m.mohoDepth in mo, 'moho %r, closest %r', m.mohoDepth, mo)
    need(m.cmbDepth in c, 'cmb %r, closest %r', m.cmbDepth, c)
    i = [R if d == m.cmbDepth else d for d in i0]
    need(m.iocbDepth in i, 'iocb %r, closest %r', m.iocbDepth, i)
    if len(i0) == 1 and i == i0 or old[:2] != (m.mohoDepth, m.cmbDepth):
        now = (m.mohoDepth, m.cmbDepth, m.iocbDepth)
        need(bool(changed) == (old != now),
             'change reported %r for %r -> %r', changed, old, now)
    need(list(m.getDisconDepths()) == want, 'discontinuities changed')


def c16b_cases(rng, tier):
    for n in M.pool(rng, tier):
        yield {'model': n}


@oracle('C16', 'taumodel', c16b_cases, 0.5)
def c16_taumodel(case):
    """The tau model's moho, cmb and iocb lie on those boundaries."""
    t = M.tmodel(case['model'])
    v = t.sMod.vMod
    rows = M.rows_of(case['model'])
    R = rows[-1][0]
    disc = [(a[0], a[2] == 0 and b[2] > 0) for a, b in zip(rows, rows[1:])
            if a[0] == b[0] and a[1:3] != b[1:3]]
    mo = min([d for d, _ in disc if abs(d - 35) < 65],
             key=lambda d: abs(d - 35), default=0)
    c = min([d for d, _ in disc], key=lambda d: abs(d - 2889.0), default=R)
    ic = min([d for d, f in disc if f], key=lambda d: abs(d - 5153.9),
             default=R)
    need((v.mohoDepth, v.cmbDepth, v.iocbDepth) == (mo, c, ic),
         'velocity model has %r', (v.mohoDepth, v.cmbDepth, v.iocbDepth))
    need(t.mohoDepth == mo and t.cmbDepth == c, 'tau model moho %r cmb %r',
         t.mohoDepth, t.cmbDepth)
    need(t.tauBranches[0][t.mohoBranch].topDepth == mo
         and t.tauBranches[0][t.cmbBranch].topDepth == c,
         'moho or cmb branch does not start there')
    if ic < R:
        need(t.iocbDepth == ic and
             t.tauBranches[0][t.iocbBranch].topDepth == ic,
             'iocb %r of the tau model is not %r', t.iocbDepth, ic)


# ---------------------------------------------------------------- C17
def c17_cases(rng, tier):
    def pt():
        k = rng.random()
        if k < .15:
            return [rng.choice([90, -90, 0, 45.0]),
                    rng.choice([0, 180, -180, 90, 360, 13])]
        return [rng.uniform(-90, 90), rng.uniform(-360, 360)]
    while True:
        a, b = pt(), pt()
        k = rng.random()
        if k < .1:
            b = list(a)
        elif k < .2:
            b = [-a[0], a[1] + 180]
        elif k < .3:
            b = [a[0] + rng.uniform(-1e-6, 1e-6), a[1]]
            b[0] = max(-90, min(90, b[0]))
        yield {'a': a, 'b': b, 'shift': rng.uniform(-180, 180),
               'turns': rng.randint(-2, 2)}


def great_circle(a, b):
    r = math.pi / 180
    x = [(math.cos(p[0] * r) * math.cos(p[1] * r),
          math.cos(p[0] * r) * math.sin(p[1] * r),
          math.sin(p[0] * r)) for p in (a, b)]
    u, v = x
    cr = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
          u[0] * v[1] - u[1] * v[0])
    dot = sum(p * q for p, q in zip(u, v))
    return math.atan2(math.sqrt(sum(c * c for c in cr)), dot) / r


@oracle('C17', 'distance', c17_cases)
def c17_distance(case):
    """great_circle_dist against the vector formula, and its symmetries."""
    from taupy.TauP_Time import great_circle_dist as g
    a, b = case['a'], case['b']
    d = g(tuple(a), tuple(b))
    # acos loses precision near 0 and 180 degrees
    tol = 2e-6
    need(0 <= d <= 180, 'distance %r', d)
    need(abs(d - great_circle(a, b)) < tol, 'distance %r, not %r', d,
         great_circle(a, b))
    need(abs(d - g(tuple(b), tuple(a))) < tol, 'not symmetric')
    t = 360 * case['turns']
    need(abs(d - g((a[0], a[1] + t), tuple(b))) < tol, 'whole turns matter')
    s = case['shift']
    need(abs(d - g((a[0], a[1] + s), (b[0], b[1] + s))) < tol,
         'common longitude shift matters')


def c17b_cases(rng, tier):
    for c in c17_cases(rng, tier):
        yield {'a': c['a'], 'b': c['b'],
               'model': rng.choice(['lvz', 'solid', 'small']),
               'depth': rng.choice([0, 33.0, 120.5]),
               'api': rng.choice(['time', 'time', 'pierce', 'path', 'raw'])}


@oracle('C17', 'coordinates', c17b_cases, 0.7)
def c17_coordinates(case):
    """Requests with coordinates equal requests with the distance."""
    from taupy.tau import TauPyModel
    from taupy.TauP_Time import TauP_Time, great_circle_dist
    m = M.tmodel(case['model'])
    a, b = case['a'], case['b']
    d = great_circle(a, b)
    deg = great_circle_dist(tuple(b), tuple(a))
    ph = ['P', 'S', 'PcP', 'PP']
    api = case['api']
    if api == 'raw':
        x = TauP_Time(m, ph, case['depth'], None, a + b)
        y = TauP_Time(m, ph, case['depth'], deg)
        with quiet():
            x.run()
            y.run()
        x, y = x.arrivals, y.arrivals
    else:
        t = TauPyModel.__new__(TauPyModel)
        t.verbose, t.model = False, m
        f = {'time': t.get_travel_times, 'pierce': t.get_pierce_points,
             'path': t.get_ray_paths}[api]
        with quiet():
            x = f(case['depth'], None, ph, a + b)
            y = f(case['depth'], deg, ph)

    def key(r):
        return sorted((q.name, q.time, q.dist, q.rayParam) for q in r)
    need(key(x) == key(y), 'coordinates give %r, the distance %r', key(x),
         key(y))
    for q in x:
        need(abs(q.getModuloDistDeg() - d) < 1e-5,
             '%s arrives at %r degrees, not %r', q.name,
             q.getModuloDistDeg(), d)
