"""C13, C14, C15, C19, C23 on the slowness sampling."""
import copy
import math
from .base import oracle, need, near, quiet, known
from . import models as M


def vel(rows, depth, col, below):
    """Velocity by direct interpolation of the rows."""
    if below:
        for a, b in zip(rows, rows[1:]):
            if a[0] <= depth < b[0]:
                return a[col] + (depth - a[0]) * (b[col] - a[col]) / (
                    b[0] - a[0])
        return rows[-1][col]
    for a, b in zip(rows, rows[1:]):
        if a[0] < depth <= b[0]:
            return a[col] + (depth - a[0]) * (b[col] - a[col]) / (b[0] - a[0])
    return rows[0][col]


def slow(rows, depth, isP, below, allow=True, iocb=1e9):
    R = rows[-1][0]
    v = vel(rows, depth, 1 if isP else 2, below)
    if not isP and (v == 0 or (not allow and (
            depth >= iocb if below else depth > iocb))):
        v = vel(rows, depth, 1, below)
    return (R - depth) / v


# ---------------------------------------------------------------- C13
def rnd_params(rng):
    return [0.1, rng.choice([11, 40, 100, 300]),
            rng.choice([60, 115, 400, 1500]), rng.choice([20, 60]),
            rng.choice([5.0, 50.0]), rng.random() < .85]


def c13_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier)[:-1]:
            if n == 'nocs':
                n = 'lvz'
            yield {'model': n, 'params': rnd_params(rng),
                   'add': [rng.random() for _ in range(4)],
                   'split': M.pick_depth(rng, n)}


def _build(case):
    from taupy.SlownessModel import SlownessModel
    p = case['params']
    return SlownessModel(M.vmodel(case['model']), p[0], p[1], p[2],
                         p[3] * math.pi / 180, p[4], p[5])


def check_cover(s, rows, tol=1e-9, loose=()):
    R = rows[-1][0]
    iocb = s.vMod.iocbDepth
    for isP, layers in ((True, s.PLayers), (False, s.SLayers)):
        w = 'P' if isP else 'S'
        need(layers[0].topDepth == 0 and layers[-1].botDepth == R,
             '%s layers cover %r - %r', w, layers[0].topDepth,
             layers[-1].botDepth)
        for a, b in zip(layers, layers[1:]):
            need(a.botDepth == b.topDepth, '%s gap or overlap at %r / %r', w,
                 a.botDepth, b.topDepth)
            need(a.botP == b.topP, '%s slowness jumps at %r: %r / %r', w,
                 a.botDepth, a.botP, b.topP)
        for l in layers:
            need(l.topDepth <= l.botDepth + 1e-9, '%s negative thickness at %r', w,
                 l.topDepth)
            if l.topDepth == l.botDepth:
                # part of the jump at a discontinuity
                x = slow(rows, l.topDepth, isP, False, s.allowInnerCoreS,
                         iocb)
                y = slow(rows, l.topDepth, isP, True, s.allowInnerCoreS, iocb)
                lo, hi = min(x, y), max(x, y)
                e = tol * hi
                need(lo - e <= l.topP <= hi + e and lo - e <= l.botP <= hi + e,
                     '%s reflection layer at %r has %r, %r outside %r, %r', w,
                     l.topDepth, l.topP, l.botP, lo, hi)
                continue
            for d, p, below in ((l.topDepth, l.topP, True),
                                (l.botDepth, l.botP, False)):
                want = slow(rows, d, isP, below, s.allowInnerCoreS, iocb)
                t = tol if d not in loose else 1e-6
                need(abs(p - want) <= t * max(1.0, want),
                     '%s layer boundary %r has slowness %r, the velocity '
                     'model %r', w, d, p, want)
        ends = {l.topDepth for l in layers} | {R}
        for r in rows:
            need(r[0] in ends, '%s: velocity boundary %r is no layer boundary',
                 w, r[0])


@oracle('C13', 'sampling', c13_cases)
def c13_sampling(case):
    """Slowness layers against the velocity rows; step limits; addSlowness."""
    s = _build(case)
    rows = M.rows_of(case['model'])
    check_cover(s, rows)
    for isP, layers in ((True, s.PLayers), (False, s.SLayers)):
        for l in layers:
            need(l.botDepth - l.topDepth <= s.maxDepthInterval * (1 + 1e-9),
                 'depth step %r at %r exceeds %r', l.botDepth - l.topDepth,
                 l.topDepth, s.maxDepthInterval)
    pm = max(s.SLayers[0].topP, s.PLayers[0].topP)
    for u in case['add']:
        isP = u < .5
        p = (u * 7 % 1) * pm
        before = {True: [(l.topP, l.topDepth, l.botP, l.botDepth)
                         for l in s.PLayers],
                  False: [(l.topP, l.topDepth, l.botP, l.botDepth)
                          for l in s.SLayers]}
        crit = [c.depth for c in s.criticalDepths]
        s.addSlowness(p, isP)
        need(crit == [c.depth for c in s.criticalDepths],
             'critical depths changed')
        for w in (True, False):
            after = [(l.topP, l.topDepth, l.botP, l.botDepth)
                     for l in (s.PLayers if w else s.SLayers)]
            j = 0
            for l in before[w]:
                if j < len(after) and after[j] == l:
                    if w == isP and w:
                        need(not (l[0] - p) * (p - l[2]) > 0,
                             'layer at %r not divided at %r', l[1], p)
                    j += 1
                    continue
                need(j + 1 < len(after) and after[j][:2] == l[:2]
                     and after[j + 1][2:] == l[2:] and after[j][2] == p
                     and after[j + 1][0] == p
                     and after[j][3] == after[j + 1][1],
                     'layer %r became %r', l, after[j:j + 2])
                j += 2
            need(j == len(after), 'layers were added')
        check_cover(s, rows)


def c13s_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier)[:-1]:
            if n == 'nocs':
                n = 'lvz'
            yield {'model': n, 'step': rng.choice([7.0, 25.0, 50.0, 90.0])}


@oracle('C13', 'step', c13s_cases, 0.4)
def c13_step(case):
    """rayParamIncCheck samples each layer beyond the step limit evenly."""
    s = copy.deepcopy(M.smodel(case['model']))
    s.maxDeltaP = case['step']
    rows = M.rows_of(case['model'])
    seen = {True: set(), False: set()}
    added = []
    real = s.addSlowness

    def snap():
        for w in (True, False):
            seen[w] |= {(l.topP, l.topDepth, l.botP, l.botDepth) for l in
                        (s.PLayers if w else s.SLayers)
                        if abs(l.topP - l.botP) > s.maxDeltaP}

    def add(p, wave):
        snap()
        added.append(p)
        return real(p, wave)
    snap()
    s.addSlowness = add
    s.rayParamIncCheck()
    snap()
    check_cover(s, rows)
    for w in (True, False):
        for l in (s.PLayers if w else s.SLayers):
            if abs(l.topP - l.botP) <= s.maxDeltaP * (1 + 1e-9):
                continue
            if not w and l.topDepth == l.botDepth and (
                    vel(rows, l.topDepth, 2, False) == 0 or
                    vel(rows, l.topDepth, 2, True) == 0):
                continue
            ok = False
            for tp, td, bp, bd in seen[w]:
                if td <= l.topDepth and l.botDepth <= bd:
                    dp = (tp - bp) / math.ceil(abs(tp - bp) / s.maxDeltaP)
                    ok = ok or any(abs(q - (tp + dp)) < 1e-9 * tp
                                   for q in added)
            need(ok, 'slowness step %r at %r exceeds %r and was not treated',
                 l.topP - l.botP, l.topDepth, s.maxDeltaP)
            known('rayParamIncCheck-sign', case)


def c13b_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier)[:-1]:
            yield {'model': n, 'split': M.pick_depth(rng, n),
                   'wave': rng.random() < .5}


@oracle('C13', 'split', c13b_cases, 0.7)
def c13_split(case):
    """Dividing the layers at a depth keeps the sampling gap-free."""
    s = M.smodel(case['model'])
    d = case['split']
    x = s
    for w in ((True, False) if case['wave'] else (False, True)):
        def snap(m):
            return {v: [(l.topP, l.topDepth, l.botP, l.botDepth) for l in
                        (m.PLayers if v else m.SLayers)]
                    for v in (True, False)}
        b = snap(x)
        info = x.splitLayer(d, w)
        x = info.sMod
        a = snap(x)
        need(any(l[1] == d or l[3] == d for l in a[w]),
             'no layer boundary at %r after the split', d)
        if info.neededSplit and not info.movedSample:
            need(any(l[0] == info.rayParam and l[1] == d for l in a[w]),
                 'no layer starts at %r with the reported slowness', d)
        if not info.movedSample:
            for v in (True, False):
                j = 0
                for l in b[v]:
                    if j < len(a[v]) and a[v][j] == l:
                        j += 1
                        continue
                    need(j + 1 < len(a[v]) and a[v][j][:2] == l[:2]
                         and a[v][j + 1][2:] == l[2:]
                         and a[v][j][2:] == a[v][j + 1][:2],
                         'layer %r became %r', l, a[v][j:j + 2])
                    need(a[v][j][2] == info.rayParam,
                         'layer %r divided at %r instead of %r', l,
                         a[v][j][2], info.rayParam)
                    j += 2
                need(j == len(a[v]), 'layers were added')
        for v, layers in ((True, x.PLayers), (False, x.SLayers)):
            need(layers[0].topDepth == 0
                 and layers[-1].botDepth == s.radiusOfEarth, 'not covered')
            for p, q in zip(layers, layers[1:]):
                need(p.botDepth == q.topDepth and p.botP == q.topP,
                     'layers do not join at %r / %r', p.botDepth, q.topDepth)
            for i, l in enumerate(layers):
                need(l.topDepth <= l.botDepth + 1e-9, 'negative thickness')


# ---------------------------------------------------------------- C14
def c14_cases(rng, tier):
    while True:
        n = rng.randint(1, 40)
        R = rng.choice([6371.0, 100.0])
        cuts = [0.0] + sorted({round(rng.uniform(.1, R - .1), 1)
                               for _ in range(n)}) + [R]
        ls = []
        p = 100.0
        for a, b in zip(cuts, cuts[1:]):
            for _ in range(rng.choice([0, 0, 0, 1, 2, 3]) if a else 0):
                ls.append([p, a, p - .01, a])
                p -= .01
            ls.append([p, a, p - .1, b])
            p -= .1
        dep = [rng.uniform(0, R) for _ in range(4)] + [
            rng.choice(cuts) for _ in range(6)] + [0.0, R, -1e-6, R + 1e-6,
                                                   -5.0, R + 100]
        yield {'layers': ls, 'depths': dep, 'wave': rng.random() < .5}


def _smod(layers, R=6371.0, other=None, wave=True):
    from taupy.SlownessModel import SlownessModel
    from taupy.SlownessLayer import SlownessLayer
    s = SlownessModel.__new__(SlownessModel)
    s.radiusOfEarth = R
    s.slowness_tolerance = 1e-16
    a = [SlownessLayer(*l) for l in layers]
    b = [SlownessLayer(*l) for l in (other or [[1.0, 0.0, .5, R]])]
    s.PLayers, s.SLayers = (a, b) if wave else (b, a)
    return s


@oracle('C14', 'synthetic', c14_cases)
def c14_synthetic(case):
    """Lookups on random layer lists with total reflections."""
    ls, w = case['layers'], case['wave']
    s = _smod(ls, ls[-1][3], None, w)
    _lookups(s, ls, w, case['depths'])


def _lookups(s, ls, w, depths):
    from taupy.helper_classes import SlownessModelError
    for d in depths:
        inside = ls[0][1] <= d <= ls[-1][3]
        for f in ('layerNumForDepth', 'layerNumberAbove', 'layerNumberBelow'):
            try:
                i = getattr(s, f)(d, w)
            except SlownessModelError:
                need(not inside, '%s(%r) refused', f, d)
                continue
            need(inside, '%s(%r) gives %r outside the model', f, d, i)
            need(0 <= i < len(ls) and ls[i][1] <= d <= ls[i][3],
                 '%s(%r) is %r, which does not contain it', f, d, i)
            if f == 'layerNumberAbove' and d > ls[0][1]:
                need(ls[i][1] < d, 'layerNumberAbove(%r) is %r, which starts '
                     'there', d, i)
            if f == 'layerNumberAbove' and d == ls[0][1]:
                need(i == 0, 'layerNumberAbove(top) is %r', i)
            if f == 'layerNumberBelow' and d < ls[-1][3]:
                need(d < ls[i][3], 'layerNumberBelow(%r) is %r, which ends '
                     'there', d, i)


def c14b_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier):
            yield {'model': n, 'u': [rng.random() for _ in range(60)]}


@oracle('C14', 'models', c14b_cases, 0.5)
def c14_models(case):
    """Lookups in the layers of built models."""
    s = M.smodel(case['model'])
    for w, layers in ((True, s.PLayers), (False, s.SLayers)):
        ls = [(l.topP, l.topDepth, l.botP, l.botDepth) for l in layers]
        R = ls[-1][3]
        dep = [R * u for u in case['u'][:30]]
        dep += [ls[int(u * len(ls))][1] for u in case['u'][30:]]
        _lookups(s, ls, w, dep + [0.0, R, -1.0, R + 1])


# ---------------------------------------------------------------- C15
def rnd_slayer(rng, R):
    top = rng.choice([0.0, round(rng.uniform(0, R * .98), 2)])
    thick = rng.choice([0.5, 5, 30, 200, 1000]) * rng.uniform(.2, 1)
    bot = min(R * .995, top + thick)
    v1 = rng.uniform(2, 13)
    k = rng.random()
    v2 = v1 if k < .15 else v1 * rng.uniform(.8, 1.3)
    return [(R - top) / v1, top, (R - bot) / v2, bot]


def c15_cases(rng, tier):
    while True:
        R = rng.choice([6371.0, 6371.0, 3000.0])
        if rng.random() < .1:
            top = round(rng.uniform(.5, .99) * R, 1)
            l = [(R - top) / rng.uniform(3, 13), top, 0.0, R]
        else:
            l = rnd_slayer(rng, R)
        yield {'R': R, 'layer': l, 'u': [rng.random() for _ in range(6)]}


@oracle('C15', 'layer', c15_cases)
def c15_layer(case):
    """bullenDepthFor and evaluateAtBullen are inverse within a layer."""
    from taupy.SlownessLayer import SlownessLayer
    from taupy.helper_classes import SlownessModelError
    R, (tp, td, bp, bd) = case['R'], case['layer']
    l = SlownessLayer(tp, td, bp, bd)
    lo, hi = min(tp, bp), max(tp, bp)
    need(l.bullenDepthFor(tp, R) == td or tp == bp, 'top slowness missed')
    need(l.bullenDepthFor(bp, R) == bd or tp == bp, 'bottom slowness missed')
    need(l.evaluateAtBullen(td, R) == tp, 'top depth missed')
    need(l.evaluateAtBullen(bd, R) == bp, 'bottom depth missed')
    flat = hi - lo < 1e-3 * hi
    for u in case['u']:
        p = lo + u * (hi - lo)
        d = l.bullenDepthFor(p, R)
        need(td <= d <= bd, 'depth %r for %r outside the layer', d, p)
        q = l.evaluateAtBullen(d, R)
        need(abs(q - p) <= 1e-7 * hi, 'slowness %r -> depth %r -> %r', p, d,
             q)
        d = td + u * (bd - td)
        q = l.evaluateAtBullen(d, R)
        need(lo - 1e-9 * hi <= q <= hi + 1e-9 * hi,
             'slowness %r at %r outside the range of the layer', q, d)
        if bd < R:
            B = math.log(tp / bp) / math.log((R - td) / (R - bd))
            want = tp * ((R - d) / (R - td)) ** B
            need(near(q, want, 1e-9), 'slowness %r at %r, the law gives %r',
                 q, d, want)
        if not flat and lo <= q <= hi:
            e = l.bullenDepthFor(q, R)
            need(abs(e - d) <= 1e-5 * max(1.0, bd - td),
                 'depth %r -> slowness %r -> %r', d, q, e)
    for p in (lo - 1e-3 * hi - 1e-9, hi * 1.001 + 1e-9):
        try:
            d = l.bullenDepthFor(p, R)
        except SlownessModelError:
            continue
        need(False, 'slowness %r outside the layer gives depth %r', p, d)


def c15b_cases(rng, tier):
    while True:
        R = rng.choice([6371.0, 3000.0])
        top = round(rng.uniform(0, .9 * R), 1)
        bot = round(rng.uniform(top + .1, R), 1)
        v1, v2 = rng.uniform(.5, 13), rng.uniform(.5, 13)
        yield {'R': R, 'l': [0, top, bot, v1, v2, v1 / 2, v2 / 2],
               'u': rng.random(), 'zero': rng.random() < .3,
               'wave': rng.random() < .5}


@oracle('C15', 'velocity', c15b_cases, 0.5)
def c15_velocity(case):
    """toSlowness / interpolate / create_from_vlayer against the definition."""
    from taupy.SlownessModel import SlownessModel
    from taupy.SlownessLayer import create_from_vlayer
    from taupy.VelocityLayer import VelocityLayer
    from taupy.helper_classes import SlownessModelError
    R = case['R']
    s = _smod([[1.0, 0.0, .5, R]], R)
    _, td, bd, v1, v2 = case['l'][:5]
    w = case['wave']
    k = 1 if w else .5
    l = create_from_vlayer(VelocityLayer(*case['l']), w, R)
    need(near(l.topP, (R - td) / (v1 * k), 1e-12) and
         near(l.botP, (R - bd) / (v2 * k), 1e-12)
         and l.topDepth == td and l.botDepth == bd,
         'slowness layer %r %r for %r', l.topP, l.botP, case['l'])
    d = td + case['u'] * (bd - td)
    slope = (v2 - v1) / (bd - td)
    v = v1 + slope * (d - td)
    p = s.toSlowness(v, d)
    need(near(p, (R - d) / v, 1e-12), 'toSlowness(%r, %r) is %r', v, d, p)
    if abs(p * slope + 1) > 1e-3:
        e = s.interpolate(p, v1, td, slope)
        need(abs(e - d) < 1e-5 * max(1, abs(d)) / min(1, abs(p * slope + 1)),
             'interpolate gives %r for the slowness at %r', e, d)
    try:
        s.toSlowness(0.0, d)
    except SlownessModelError:
        pass
    else:
        need(False, 'zero velocity accepted')
    for q in (0.5, 2.0, 1024.0):
        try:
            e = s.interpolate(q, v1, td, -1 / q)
        except SlownessModelError:
            continue
        need(False, 'balanced gradient gives %r', e)


def c15c_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier):
            nl = len([1 for a, b in zip(M.rows_of(n), M.rows_of(n)[1:])
                      if a[0] != b[0]])
            for _ in range(30):
                a = rng.randrange(nl)
                b = min(nl - 1, a + rng.choice([0, 0, 1, 2, 5]))
                yield {'model': n, 'a': a, 'b': b, 'u': rng.random(),
                       'wave': rng.random() < .6,
                       'how': rng.choice(['in', 'in', 'any', 'top', 'bot']),
                       'depths': rng.random() < .4}


@oracle('C15', 'findDepth', c15c_cases, 0.7)
def c15_finddepth(case):
    """findDepth: the slowness at the depth found is the one asked for."""
    from taupy.helper_classes import SlownessModelError
    s = M.smodel(case['model'])
    v = s.vMod
    a, b, w = case['a'], case['b'], case['wave']
    R = s.radiusOfEarth

    def pv(i, top, wave=w):
        l = v.layers[i]
        x = ((l.topPVelocity if top else l.botPVelocity) if wave else
             (l.topSVelocity if top else l.botSVelocity))
        return x
    if not w and any(pv(i, t) == 0 for i in range(a, b + 1)
                     for t in (True, False)):
        return
    P = [((R - v.layers[i].topDepth) / pv(i, True),
          (R - v.layers[i].botDepth) / pv(i, False)) for i in range(a, b + 1)]
    lo = min(min(x) for x in P)
    hi = max(max(x) for x in P)
    i = a + int(case['u'] * (b - a + 1) * .999)
    tp, bp = P[i - a]
    u = (case['u'] * 97) % 1
    p = {'in': min(tp, bp) + u * abs(tp - bp), 'top': tp, 'bot': bp,
         'any': lo * .9 + u * (hi * 1.1 - lo * .9)}[case['how']]
    tol = 1e-9 * hi
    # intervals of slowness that occur, with the depth ranges they occur in
    spans = []
    for k in range(a, b + 1):
        x, y = P[k - a]
        spans.append((min(x, y), max(x, y), v.layers[k].topDepth,
                      v.layers[k].botDepth, k))
        if k + 1 < len(v.layers):
            nv = pv(k + 1, True)
            if nv == 0 and not w:
                nv = pv(k + 1, True, True)
            q = (R - v.layers[k + 1].topDepth) / nv
            if q < y:
                spans.append((q, y, v.layers[k].botDepth,
                              v.layers[k].botDepth, None))
    sure = any(x[0] <= p <= x[1] for x in spans)
    maybe = any(x[0] - tol <= p <= x[1] + tol for x in spans)
    args = (a, b)
    if case['depths']:
        args = (v.layers[a].topDepth, v.layers[b].botDepth)
    try:
        d = s.findDepth(p, args[0], args[1], w)
    except SlownessModelError:
        need(not sure, 'slowness %r occurs but is refused', p)
        return
    need(maybe, 'slowness %r does not occur but gives depth %r', p, d)
    need(v.layers[a].topDepth - 1e-6 <= d <= v.layers[b].botDepth + 1e-6,
         'depth %r outside the layers searched', d)
    ok = False
    for x in spans:
        if x[0] - tol <= p <= x[1] + tol and x[2] - 1e-6 <= d <= x[3] + 1e-6:
            if x[4] is None:
                ok = True
            else:
                l = v.layers[x[4]]
                t, bo = pv(x[4], True), pv(x[4], False)
                q = (R - d) / (t + (d - l.topDepth) * (bo - t) /
                               (l.botDepth - l.topDepth))
                ok = ok or abs(q - p) <= 1e-7 * hi
    need(ok, 'the slowness at depth %r is not %r', d, p)


# ---------------------------------------------------------------- C19
def c19_cases(rng, tier):
    while True:
        R = rng.choice([6371.0, 3000.0])
        k = rng.random()
        if k < .12:
            top = round(rng.uniform(.5, .99) * R, 1)
            l = [(R - top) / rng.uniform(3, 13), top, 0.0, R]
        elif k < .2:
            l = rnd_slayer(rng, R)
            l[3] = l[1]
        elif k < .35:
            top, bot = sorted([round(rng.uniform(0, R * .99), 1)
                               for _ in range(2)])
            vv = rng.choice([8.0, 4.0, rng.uniform(2, 13)])
            l = [(R - top) / vv, top, (R - bot) / vv, bot]
        elif k < .5:
            # thin layers, as left by a source close to a boundary
            top = round(rng.uniform(0, R * .9), 1)
            bot = top + 10 ** rng.uniform(-6, -1)
            vv = rng.uniform(3, 12)
            l = [(R - top) / vv, top, (R - bot) / (vv + rng.uniform(
                0, .01) * (bot - top)), bot]
        else:
            l = rnd_slayer(rng, R)
        lo = min(l[0], l[2])
        ps = [0.0, lo, lo * rng.random(), lo * rng.random(), -1e-9, -3.0,
              lo + (max(l[0], l[2]) - lo) * rng.uniform(.01, .99),
              max(l[0], l[2]) * 1.01 + 1e-6]
        u = rng.uniform(.02, .98)
        if rng.random() < .3:
            u = rng.choice([1e-6, 1e-5, 1e-4, 1 - 1e-6, 1 - 1e-5])
        yield {'R': R, 'layer': l, 'ps': ps, 'u': u,
               'wave': rng.random() < .5}


def closed_form(R, l, p):
    tp, td, bp, bd = l
    if td == bd:
        return 0.0, 0.0
    if bd == R:
        return tp, math.pi / 2
    B = math.log(tp / bp) / math.log((R - td) / (R - bd))
    a = math.sqrt(max(0.0, tp * tp - p * p))
    b = math.sqrt(max(0.0, bp * bp - p * p))
    return (a - b) / B, (math.atan2(p, b) - math.atan2(p, a)) / B


@oracle('C19', 'increments', c19_cases)
def c19_increments(case):
    """Layer increments against the closed form; refusals; additivity."""
    from taupy.SlownessLayer import SlownessLayer
    from taupy.helper_classes import SlownessModelError
    R, l, w = case['R'], case['layer'], case['wave']
    tp, td, bp, bd = l
    s = _smod([[tp + 1.0, 0.0, tp, td], l], R, None, w)
    lo, hi = min(tp, bp), max(tp, bp)
    for p in case['ps']:
        ok = 0 <= p <= lo
        try:
            r = s.layerTimeDist(p, 1, w)
        except (SlownessModelError, ValueError, ZeroDivisionError,
                ArithmeticError) as e:
            need(not ok or (isinstance(e, SlownessModelError)
                            and abs(tp - bp) < 1e-9 * hi and td != bd),
                 'ray %r refused by layer %r: %r', p, l, e)
            need(ok or isinstance(e, SlownessModelError), 'not refused: %r',
                 e)
            continue
        need(ok, 'ray %r not refused by layer %r', p, l)
        need(r.p == p, 'ray parameter %r', r.p)
        t, d = closed_form(R, l, p)
        need(r.time >= 0 and r.distRadian >= 0, 'negative increment')
        B = 1.0
        if bd > td and bd < R:
            B = math.log(tp / bp) / math.log((R - td) / (R - bd))
        tol = 1e-7 * max(1.0, 1e-5 / max(abs(B), 1e-9))
        # increments vary like a square root near the turning point
        if 0 < lo - p < 1e-6 * lo or p == lo:
            tol = max(tol, 2e-6)
        need(abs(r.time - t) <= tol * max(1.0, t),
             'time %r, the closed form gives %r', r.time, t)
        need(abs(r.distRadian - d) <= tol * max(1.0, d),
             'distance %r, the closed form gives %r', r.distRadian, d)
        if p == 0 and bd < R:
            need(r.distRadian == 0, 'vertical ray moves by %r', r.distRadian)
        if bd < R and td < bd and bd - td > 1e-3 and abs(B) > 1e-6 and p < lo:
            m = td + case['u'] * (bd - td)
            layer = SlownessLayer(*l)
            q = layer.evaluateAtBullen(m, R)
            if p <= q:
                x = SlownessLayer(tp, td, q, m).bullenRadialSlowness(p, R)
                y = SlownessLayer(q, m, bp, bd).bullenRadialSlowness(p, R)
                z = layer.bullenRadialSlowness(p, R)
                e = 1e-6 * max(1.0, 1e-3 / abs(B))
                need(abs(x.time + y.time - z.time) <= e * max(1.0, z.time),
                     'parts take %r, the whole layer %r', x.time + y.time,
                     z.time)
                need(abs(x.distRadian + y.distRadian - z.distRadian) <= e,
                     'parts move by %r, the whole layer by %r',
                     x.distRadian + y.distRadian, z.distRadian)


def c19b_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier):
            yield {'model': n, 'u': [rng.random() for _ in range(20)],
                   'wave': rng.random() < .5}


@oracle('C19', 'models', c19b_cases, 0.6)
def c19_models(case):
    """Layer increments and approximate distances in built models."""
    s = M.smodel(case['model'])
    R, w = s.radiusOfEarth, case['wave']
    ls = [(l.topP, l.topDepth, l.botP, l.botDepth)
          for l in (s.PLayers if w else s.SLayers)]
    for u in case['u']:
        i = int(u * len(ls))
        v = (u * 131) % 1
        lo = min(ls[i][0], ls[i][2])
        p = lo if v < .2 else lo * v
        r = s.layerTimeDist(p, i, w)
        t, d = closed_form(R, ls[i], p)
        need(abs(r.time - t) <= 1e-5 * max(1, t) and
             abs(r.distRadian - d) <= 1e-5,
             'layer %r ray %r: %r %r instead of %r %r', ls[i], p, r.time,
             r.distRadian, t, d)
        lo = min(min(l[0], l[2]) for l in ls[:i + 1])
        p = lo * v
        if ls[i][3] == R:
            continue
        r = s.approxDistance(i, p, w)
        t = d = 0.0
        for l in ls[:i + 1]:
            x, y = closed_form(R, l, p)
            t, d = t + 2 * x, d + 2 * y
        need(abs(r.time - t) <= 1e-5 * max(1, t) and
             abs(r.distRadian - d) <= 1e-5 * max(1, d),
             'surface ray %r to layer %d: %r %r instead of %r %r', p, i,
             r.time, r.distRadian, t, d)


# ---------------------------------------------------------------- C23
def c23_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier) + ['ak135']:
            if n != 'nocs':
                yield {'model': n, 'split': [M.pick_depth(rng, n)
                                             for _ in range(2)],
                       'u': [rng.random() for _ in range(30)]}


def zones(rows, isP):
    """Fluid ranges and high slowness ranges by scanning the rows."""
    R = rows[-1][0]

    def sl(r, ref):
        v = r[1] if isP or ref == 0 else r[2]
        return (R - r[0]) / v
    segs = []
    for a, b in zip(rows, rows[1:]):
        if a[0] != b[0]:
            segs.append((a[0], b[0], sl(a, a[2]), sl(b, a[2]), a, b))
    low, out, start = segs[0][2], [], None
    for k, (d0, d1, p0, p1, a, b) in enumerate(segs):
        if start is not None and p0 < low:
            out.append((start, d0, low))
            start = None
        low = min(low, p0)
        if start is None and (p0 > low or p1 > p0 and p0 >= low):
            start = d0
        if start is not None and p1 < low:
            # depth inside the layer where the slowness is low again
            c = 1 if isP or a[2] == 0 else 2
            g = (b[c] - a[c]) / (d1 - d0)
            # (R - d) = low * (v0 + g (d - d0))
            d = (R - low * (a[c] - g * d0)) / (1 + low * g)
            out.append((start, d, low))
            start = None
        low = min(low, p1)
    if start is not None:
        out.append((start, R, low))
    return out


def critical(rows):
    R = rows[-1][0]
    segs = []
    for a, b in zip(rows, rows[1:]):
        if a[0] != b[0]:
            f = a[2] == 0
            segs.append((a[0], b[0], (R - a[0]) / a[1], (R - b[0]) / b[1],
                         (R - a[0]) / (a[1] if f else a[2]),
                         (R - b[0]) / (b[1] if f else b[2])))
    out = [0.0]
    for x, y in zip(segs, segs[1:]):
        if x[3] != y[2] or x[5] != y[4] or (
                (x[2] - x[3]) * (y[2] - y[3]) < 0) or (
                (x[4] - x[5]) * (y[4] - y[5]) < 0):
            out.append(y[0])
    return out + [R]


@oracle('C23', 'zones', c23_cases)
def c23_zones(case):
    """Critical depths and zones by scanning the rows."""
    s = M.smodel(case['model'])
    rows = M.rows_of(case['model'])
    R = rows[-1][0]
    want = critical(rows)
    got = [c.depth for c in s.criticalDepths]
    need(got == want, 'critical depths %r, not %r', got, want)
    fl = []
    for a, b in zip(rows, rows[1:]):
        if a[0] != b[0] and a[2] == 0:
            if fl and fl[-1][1] == a[0]:
                fl[-1] = (fl[-1][0], b[0])
            else:
                fl.append((a[0], b[0]))
    got = [(f.topDepth, f.botDepth) for f in s.fluidLayerDepths]
    need(got == fl, 'fluid zones %r, not %r', got, fl)
    for isP, z in ((True, s.highSlownessLayerDepthsP),
                   (False, s.highSlownessLayerDepthsS)):
        want = zones(rows, isP)
        got = [(h.topDepth, h.botDepth, h.rayParam) for h in z]
        need(len(got) == len(want) and all(
            near(x, y, 1e-8) for g, h in zip(got, want)
            for x, y in zip(g, h)),
            '%s high slowness zones %r, not %r', 'P' if isP else 'S', got,
            want)
        for u in case['u']:
            d = u * R
            k = [h for h in want if h[0] < d < h[1]]
            need(s.depthInHighSlowness(d, 1e300, isP) == bool(k),
                 'depthInHighSlowness(%r) wrong', d)
            if k:
                need(s.depthInHighSlowness(d, k[0][2] * 1.001, isP)
                     and not s.depthInHighSlowness(d, k[0][2] * .999, isP),
                     'depthInHighSlowness ignores the ray at %r', d)
    for u in case['u']:
        d = u * R
        need(s.depthInFluid(d) == any(a <= d < b for a, b in fl),
             'depthInFluid(%r) wrong', d)
    for a, b in fl:
        need(s.depthInFluid(a) and not s.depthInFluid(b),
             'depthInFluid at the boundary %r / %r', a, b)
    _numbers(s)
    for d in case['split']:
        x = s
        for w in (False, True):
            x = x.splitLayer(d, w).sMod
            _numbers(x)
            need([c.depth for c in x.criticalDepths] ==
                 [c.depth for c in s.criticalDepths], 'critical depths moved')


def _numbers(s):
    R = s.radiusOfEarth
    for c in s.criticalDepths:
        for n, ls in ((c.pLayerNum, s.PLayers), (c.sLayerNum, s.SLayers)):
            if c.depth == R:
                need(n == len(ls), 'the centre has layer number %r of %d', n,
                     len(ls))
            else:
                need(0 <= n < len(ls) and
                     abs(ls[n].topDepth - c.depth) < 2e-6 and
                     ls[n].botDepth > c.depth,
                     'layer %r of critical depth %r is %r', n, c.depth,
                     (ls[n].topDepth, ls[n].botDepth)
                     if 0 <= n < len(ls) else None)
        l = [v for v in s.vMod.layers if v.topDepth == c.depth]
        need(c.depth == R and c.velLayerNum == len(s.vMod.layers) or
             l and s.vMod.layers[c.velLayerNum] is l[0] or
             l and s.vMod.layers[c.velLayerNum].topDepth == c.depth,
             'velocity layer %r of critical depth %r', c.velLayerNum,
             c.depth)
