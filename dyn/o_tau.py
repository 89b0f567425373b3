"""C04, C05, C06 on tau models and source depth corrections."""
import copy
import math
from .base import oracle, need, near, quiet
from . import models as M
from .o_slowness import closed_form


def branches(t, w):
    return t.tauBranches[0 if w else 1]


def lay(s, w):
    return s.PLayers if w else s.SLayers


def ray_sum(s, w, top, bot, p, enter=True):
    """(time, distance) of a ray in the layers between two depths: layers
    are crossed until the ray turns; nothing below a smaller slowness."""
    R = s.radiusOfEarth
    t = d = 0.0
    for l in lay(s, w):
        if l.botDepth <= top and not (l.topDepth == top):
            if min(l.topP, l.botP) < p:
                return 0.0, 0.0
            continue
        if l.topDepth >= bot and not (l.botDepth == bot):
            break
        if l.topDepth == l.botDepth == top or l.topDepth == l.botDepth == bot:
            if min(l.topP, l.botP) < p:
                if l.topDepth == top:
                    return 0.0, 0.0
                break
            continue
        if p > min(l.topP, l.botP):
            break
        x, y = closed_form(R, (l.topP, l.topDepth, l.botP, l.botDepth), p)
        t += x
        d += y
    return t, d


def check_tau(t, tol=1e-6):
    ps = t.rayParams
    s = t.sMod
    need(all(a > b for a, b in zip(ps, ps[1:])),
         'ray parameters do not decrease strictly')
    need(ps[-1] == 0, 'no vertical ray, the last ray parameter is %r', ps[-1])
    need(len(t.tauBranches) == 2 and len(t.tauBranches[0]) ==
         len(t.tauBranches[1]), 'P and S have different branches')
    for w in (True, False):
        prev = 0.0
        for i, b in enumerate(branches(t, w)):
            what = '%s branch %d' % ('P' if w else 'S', i)
            need(b.isPWave == w, '%s has the wrong wave type', what)
            need(b.topDepth == prev and b.botDepth > b.topDepth,
                 '%s spans %r to %r after %r', what, b.topDepth, b.botDepth,
                 prev)
            prev = b.botDepth
            need(len(b.time) == len(b.dist) == len(b.tau) == len(ps),
                 '%s does not have one sample per ray parameter', what)
        need(prev == t.radiusOfEarth, 'branches end at %r', prev)


def check_samples(t, pick, tol=2e-6):
    ps = t.rayParams
    s = t.sMod
    for w in (True, False):
        for i, b in enumerate(branches(t, w)):
            what = '%s branch %d (%r-%r km)' % ('P' if w else 'S', i,
                                                b.topDepth, b.botDepth)
            for j, p in enumerate(ps):
                x, d, tau = b.time[j], b.dist[j], b.tau[j]
                need(x >= -1e-7 and d >= -1e-9 and tau >= -1e-7,
                     '%s, p=%r: negative time %r, distance %r or tau %r',
                     what, p, x, d, tau)
                need(abs(tau - (x - p * d)) <= 1e-7 * max(1.0, x),
                     '%s, p=%r: tau %r is not time %r - p * distance %r',
                     what, p, tau, x, d)
                if p > b.maxRayParam:
                    need(abs(x) < 1e-9 and abs(d) < 1e-11
                         and abs(tau) < 1e-9,
                         '%s: ray %r cannot enter but takes %r', what, p, x)
            for u in pick:
                j = int(u * len(ps)) % len(ps)
                p = ps[j]
                rt, rd = ray_sum(s, w, b.topDepth, b.botDepth, p)
                e = 1e-5 * max(1.0, rt)
                need(abs(rt - b.time[j]) <= e and
                     abs(rd - b.dist[j]) <= 1e-5,
                     '%s, p=%r: time %r and distance %r, its layers give '
                     '%r and %r', what, p, b.time[j], b.dist[j], rt, rd)


# ---------------------------------------------------------------- C06
def c06_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier):
            yield {'model': n, 'depth': M.pick_depth(rng, n),
                   'pick': [rng.random() for _ in range(40)]}


@oracle('C06', 'samples', c06_cases)
def c06_samples(case):
    """Samples of fresh and corrected models against their layers."""
    t = M.tmodel(case['model'])
    check_tau(t)
    check_samples(t, case['pick'])
    c = M.corrected(case['model'], case['depth'])
    check_tau(c)
    check_samples(c, case['pick'])


# ---------------------------------------------------------------- C05
def c05_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier):
            yield {'model': n, 'depth': M.pick_depth(rng, n)}


def slowness_at(s, w, d):
    out = []
    for l in lay(s, w):
        if l.topDepth < l.botDepth and l.topDepth <= d <= l.botDepth:
            R = s.radiusOfEarth
            if l.botDepth == R:
                out.append(l.topP * (R - d) / (R - l.topDepth))
            else:
                B = math.log(l.topP / l.botP) / math.log(
                    (R - l.topDepth) / (R - l.botDepth))
                out.append(l.topP * ((R - d) / (R - l.topDepth)) ** B)
    return out


@oracle('C05', 'correction', c05_cases)
def c05_correction(case):
    """A corrected model against the model it was made from."""
    d = case['depth']
    t = M.tmodel(case['model'])
    c = M.corrected(case['model'], d)
    need(c.sourceDepth == d, 'source depth %r', c.sourceDepth)
    sb = branches(c, True)[c.sourceBranch]
    need(sb.topDepth == d, 'source branch starts at %r', sb.topDepth)
    near_b = any(0 < abs(b.topDepth - d) < 2e-6 or
                 0 < abs(b.botDepth - d) < 2e-6 for b in branches(t, True))
    if near_b:
        return
    old = [b.topDepth for b in branches(t, True)] + [t.radiusOfEarth]
    want = sorted(set(old) | {d})
    check_tau(c)
    for w in (True, False):
        got = [b.topDepth for b in branches(c, w)] + [
            branches(c, w)[-1].botDepth]
        need(len(got) == len(want) and all(abs(a - b) < 2e-6 for a, b in
                                           zip(got, want)),
             'boundaries %r, expected %r', got, want)
    for f in ('mohoDepth', 'cmbDepth', 'iocbDepth'):
        need(getattr(c, f) == getattr(t, f), '%s moved from %r to %r', f,
             getattr(t, f), getattr(c, f))
        b = getattr(c, f.replace('Depth', 'Branch'))
        if f == 'iocbDepth' and getattr(t, f) == t.radiusOfEarth:
            need(b == len(branches(c, True)), 'inner core branch %r', b)
            continue
        need(abs(branches(c, True)[b].topDepth - getattr(t, f)) < 2e-6,
             '%s: branch %r starts at %r', f, b,
             branches(c, True)[b].topDepth)
    # ray parameters
    have = {p: i for i, p in enumerate(c.rayParams)}
    for p in t.rayParams:
        need(p in have, 'ray parameter %r was lost', p)
    orig = set(t.rayParams)
    added = [p for p in c.rayParams if p not in orig]
    if d in old:
        need(not added, 'ray parameters %r added without a split', added)
    allowed = slowness_at(t.sMod, True, d) + slowness_at(t.sMod, False, d)
    for p in added:
        need(any(near(p, q, 1e-9) for q in allowed),
             'added ray parameter %r is not a slowness at the source depth '
             '(%r)', p, allowed)
    need(len(added) <= 2, 'ray parameters %r added', added)
    # the slowness at the source must be sampled if a ray can turn there
    for w in (True, False):
        for q in slowness_at(t.sMod, w, d):
            lim = min([min(l.topP, l.botP) for l in lay(t.sMod, w)
                       if l.botDepth <= d] + [1e300])
            lim = min(lim, lay(t.sMod, w)[0].topP)
            if q < lim - 1e-6 and w is not None:
                need(any(near(q, p, 1e-5) for p in c.rayParams),
                     'slowness %r at the source is not sampled', q)
    # branches
    split = d not in old
    for w in (True, False):
        cb = branches(c, w)
        for i, b in enumerate(branches(t, w)):
            parts = [x for x in cb if x.topDepth >= b.topDepth - 2e-6
                     and x.botDepth <= b.botDepth + 2e-6]
            inside = b.topDepth < d < b.botDepth
            need(len(parts) == (2 if inside else 1),
                 'branch %d became %d branches', i, len(parts))
            for j, p in enumerate(t.rayParams):
                k = have[p]
                for f, e in (('time', 2e-6), ('dist', 2e-8), ('tau', 2e-6)):
                    a = getattr(b, f)[j]
                    g = sum(getattr(x, f)[k] for x in parts)
                    need(abs(a - g) <= e * max(1.0, a),
                         '%s branch %d (%r km), p=%r: %s was %r, is %r '
                         'after the correction for %r km',
                         'P' if w else 'S', i, b.topDepth, p, f, a, g, d)
            if inside:
                # every part stands for its own layers
                for p in t.rayParams[::max(1, len(t.rayParams) // 25)] \
                        + added:
                    k = have[p]
                    for x in parts:
                        rt, rd = ray_sum(c.sMod, w, x.topDepth, x.botDepth, p)
                        need(abs(rt - x.time[k]) <= 1e-5 * max(1.0, rt) and
                             abs(rd - x.dist[k]) <= 1e-5,
                             '%s part %r-%r km, p=%r: %r s and %r, its '
                             'layers give %r and %r', 'P' if w else 'S',
                             x.topDepth, x.botDepth, p, x.time[k],
                             x.dist[k], rt, rd)


# ---------------------------------------------------------------- C04
PHASES = ['P', 'S', 'p', 's', 'pP', 'sP', 'PcP', 'ScS', 'PKP', 'SKS', 'PKIKP',
          'PKiKP', 'Pn', 'Sn', 'Pdiff', 'Sdiff', 'PP', 'SS', 'P^410P',
          'PvmP', 'Pv410P', 'P410s', 'SKKS', 'PmS', 'Pg', '3kmps', 'pS',
          'PKJKP', 'S^mS', 'P410S', 'junk', 'ScSScS']


def c04_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier):
            other = rng.choice(['lvz', 'jump', 'solid', 'rnd1'])
            ops = []
            for _ in range(rng.randint(2, 6)):
                ops.append([rng.choice(['time', 'time', 'pierce', 'path',
                                        'split', 'correct', 'layer',
                                        'other', 'reuse', 'phase']),
                            M.pick_depth(rng, n),
                            round(rng.uniform(0, 180), 2),
                            rng.sample(PHASES, rng.randint(1, 4))])
            yield {'model': n, 'other': other, 'ops': ops,
                   'query': [M.pick_depth(rng, n),
                             round(rng.uniform(0, 180), 2),
                             rng.sample(PHASES, 5)]}


_SEEN = (int, float, str, bool, type(None))


def freeze(x, memo=None):
    """A comparable picture of everything reachable from x."""
    memo = {} if memo is None else memo
    if isinstance(x, _SEEN):
        return x
    if id(x) in memo:
        return ('ref', memo[id(x)])
    memo[id(x)] = len(memo)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(y, memo) for y in x]
    if isinstance(x, dict):
        return [(k, freeze(v, memo)) for k, v in sorted(
            x.items(), key=lambda kv: str(kv[0]))]
    if hasattr(x, 'tolist'):
        return ('np', repr(x.tolist()))
    if hasattr(x, '__dict__'):
        return (type(x).__name__, freeze(x.__dict__, memo))
    return repr(x)


def class_state():
    from taupy import (TauModel, SlownessModel, SeismicPhase, TauP_Time,
                       TauP_Pierce, TauP_Path, VelocityModel, TauBranch,
                       SlownessLayer, VelocityLayer)
    out = []
    for m in (TauModel.TauModel, SlownessModel.SlownessModel,
              SeismicPhase.SeismicPhase, TauP_Time.TauP_Time,
              TauP_Pierce.TauP_Pierce, TauP_Path.TauP_Path,
              VelocityModel.VelocityModel, TauBranch.TauBranch,
              SlownessLayer.SlownessLayer, VelocityLayer.VelocityLayer):
        for k, v in sorted(vars(m).items()):
            if not callable(v) and not k.startswith('__') \
                    and not isinstance(v, (staticmethod, classmethod,
                                           property)):
                out.append((m.__name__, k, freeze(v)))
        for k, v in sorted(vars(m).items()):
            f = getattr(v, '__func__', v)
            out.append((m.__name__, k, freeze(
                getattr(f, '__defaults__', None))))
    return out


def ask(model, kind, depth, deg, phases):
    from taupy import tau
    m = tau.TauPyModel.__new__(tau.TauPyModel)
    m.verbose, m.model = False, model
    f = {'time': m.get_travel_times, 'pierce': m.get_pierce_points,
         'path': m.get_ray_paths}[kind]
    with quiet():
        a = f(depth, deg, phases)
    out = []
    for x in a:
        row = [x.name, x.puristName, x.time, x.dist, x.rayParam,
               x.takeoffAngle, x.incidentAngle, x.sourceDepth]
        if kind == 'pierce':
            row.append([(p.p, p.time, p.distRadian, p.depth)
                        for p in x.pierce])
        if kind == 'path':
            row.append([(p.p, p.time, p.distRadian, p.depth)
                        for p in x.path])
        out.append(row)
    return sorted(out, key=repr)


@oracle('C04', 'history', c04_cases)
def c04_history(case):
    """Random histories of queries, then one query compared with a fresh
    model; every model and class attribute compared before and after."""
    from taupy.TauP_Time import TauP_Time
    from taupy.TauP_Pierce import TauP_Pierce
    from taupy.SeismicPhase import SeismicPhase
    from taupy.helper_classes import TauModelError
    t = copy.deepcopy(M.tmodel(case['model']))
    fresh = copy.deepcopy(t)
    other = copy.deepcopy(M.tmodel(case['other']))
    before, ob, cb = freeze(t), freeze(other), class_state()
    keep = []
    tool = None
    for op, depth, deg, phases in case['ops']:
        if op in ('time', 'pierce', 'path'):
            ask(t, op, depth, deg, phases)
        elif op == 'other':
            ask(other, 'time', min(depth, 0.9 * other.radiusOfEarth), deg,
                phases)
        elif op in ('split', 'correct'):
            x = (t.splitBranch if op == 'split' else t.depthCorrect)(depth)
            keep.append((x, freeze(x)))
        elif op == 'layer':
            for w in (True, False):
                x = t.sMod.splitLayer(depth, w).sMod
                x.splitLayer(depth / 2 + 1.25, not w)
        elif op == 'phase' and keep:
            for p in phases:
                try:
                    ph = SeismicPhase(p, keep[-1][0])
                    ph.calcPierce(deg)
                    ph.calcPath(deg)
                    ph.calcTime(deg / 2)
                except TauModelError:
                    pass
        elif op == 'reuse':
            if tool is None:
                tool = TauP_Time(t, phases, depth, deg)
            tool.phaseList, tool.depth, tool.degrees = phases, depth, deg
            tool.run()
            got = sorted((a.name, a.time, a.dist, a.rayParam)
                         for a in tool.arrivals)
            ref = TauP_Time(copy.deepcopy(fresh), phases, depth, deg)
            ref.run()
            want = sorted((a.name, a.time, a.dist, a.rayParam)
                          for a in ref.arrivals)
            need(got == want, 'a reused calculation gives %r, a new one %r',
                 got, want)
    now = freeze(t)
    need(now == before, 'the model changed: %s', diff(before, now))
    need(freeze(other) == ob, 'another model changed')
    need(class_state() == cb, 'shared state changed: %r', [
        (a, b) for a, b in zip(cb, class_state()) if a != b][:3])
    for x, f in keep:
        need(freeze(x) == f, 'an earlier result changed')
    d, deg, phases = case['query']
    for kind in ('time', 'pierce', 'path'):
        a = ask(t, kind, d, deg, phases)
        b = ask(copy.deepcopy(fresh), kind, d, deg, phases)
        need(a == b, '%s answers after these queries differ from those of a '
             'fresh model', kind)


def diff(a, b, path=''):
    if type(a) is not type(b):
        return '%s: %r became %r' % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d entries became %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                k = x[0] if isinstance(x, tuple) and len(x) == 2 \
                    and isinstance(x[0], str) else i
                return diff(x, y, '%s/%s' % (path, k))
    return '%s: %r became %r' % (path, str(a)[:80], str(b)[:80])
