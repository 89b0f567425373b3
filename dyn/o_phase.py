"""C01, C02, C07, C08, C09, C18, C20, C22, C24 on phases and arrivals."""
import math
import random
from .base import oracle, need, near, quiet
from . import models as M
from .o_slowness import closed_form, vel
from .o_tau import branches, lay

INNER = ['lvz', 'jump', 'solid', 'iasp91']


def has_inner(t):
    return t.iocbDepth < t.radiusOfEarth


# ------------------------------------------------------- random phase names
def discon_tokens(rng, rows, cmb):
    b = sorted({r[0] for r in rows if 60 < r[0] < cmb - 100})
    out = ['%g' % d for d in b] + [str(rng.randint(100, int(cmb) - 300))]
    if rng.random() < .15:
        out = out + [str(rng.randint(0, int(cmb) + 900))]
    return out


def cmb_of(rows):
    for a, b in zip(rows, rows[1:]):
        if a[2] > 0 and b[2] == 0:
            return a[0]
    return rows[-1][0]


def rnd_core(rng, deep):
    def piece():
        k = rng.random()
        if not deep or k < .35:
            return ['K']
        if k < .55:
            return ['K', 'i', 'K']
        if k < .8:
            return ['K', 'I', 'K']
        if k < .93:
            return ['K', 'J', 'K']
        return ['K', rng.choice('IJ'), rng.choice('IJ'), 'K']
    out = piece()
    while rng.random() < .3:
        out = out + piece()
    return out


def rnd_segment(rng, toks, deep):
    X, Y = rng.choice('PS'), rng.choice('PS')
    k = rng.random()
    if k < .25:
        return [X]
    if k < .4:
        return [X, 'c', Y]
    if k < .5:
        return [X, 'v' + rng.choice(toks + ['m']), Y]
    if k < .6:
        return [X, '^' + rng.choice(toks + ['m']), Y]
    if k < .7:
        return [X, rng.choice(toks + ['m']), Y]
    if k < .8:
        return [X, rng.choice(toks + ['m']), Y.lower()]
    return [X] + rnd_core(rng, deep) + [Y]


def rnd_phase(rng, rows):
    """The legs of a random phase name."""
    cmb = cmb_of(rows)
    toks = discon_tokens(rng, rows, cmb)
    deep = sum(1 for r in rows if r[2] > 0 and r[0] > cmb) > 0
    x = rng.choice('ps')
    pre = [] if rng.random() < .6 else [x] if rng.random() < .7 else \
        rng.choice([[x, '^m'], [x, '^' + rng.choice(toks)],
                    [x, 'm', rng.choice('psPS')],
                    [x, rng.choice(toks), rng.choice('ps')]])
    k = rng.random()
    if k < .12:
        return pre + [rng.choice(['Pdiff', 'Sdiff', 'Pn', 'Sn', 'Pg', 'Sg'])]
    if k < .14:
        h = rng.choice(['Pn', 'Sn'])
        return pre + rng.choice([[h, h], [h[0], h], [h, h[0]], [h, h, h],
                                 [h[0], 'vm', h[0], h]])
    if pre and len(pre) != 2 and k < .25:
        return pre
    out = pre + rnd_segment(rng, toks, deep)
    if rng.random() < .3:
        out = out + rnd_segment(rng, toks, deep)
    return out


def closest(c, tok):
    if tok == 'm':
        return c.mohoBranch
    d = float(tok)
    best, at = None, None
    for i, b in enumerate(branches(c, True)):
        if b.topDepth in c.noDisconDepths:
            continue
        e = abs(b.topDepth - d)
        if best is None or e < best:
            best, at = e, i
    return at


class NoPath(Exception):
    pass


class Invalid(Exception):
    pass


class Skip(Exception):
    pass


def ref_moves(legs, c):
    """The moves [kind, from, to, wave] of a phase between boundary numbers
    (boundary i is the top of branch i), independent of the code's parser.
    kind: down (transmitted or reflected at the end), turn (down to turn
    above the boundary), up."""
    cmb, icb, moho = c.cmbBranch, c.iocbBranch, c.mohoBranch
    nb = len(branches(c, True))
    sb = c.sourceBranch
    moves = []
    at = sb
    i = 0
    first = True

    def w(leg):
        return leg[0] in 'Pp'

    def mantle(tok, lo=1, hi=None):
        b = closest(c, tok)
        if not lo <= b <= (cmb - 1 if hi is None else hi):
            raise Invalid()
        return b
    if legs[0] in 'ps':
        if sb == 0:
            raise NoPath()
    while i < len(legs):
        leg = legs[i]
        nxt = legs[i + 1] if i + 1 < len(legs) else 'END'
        if leg in ('p', 's'):
            if nxt == 'END' or nxt[0] in 'PSps':
                moves.append(['up', at, 0, w(leg)])
                at = 0
                i += 1
            elif nxt[0] == '^':
                b = mantle(nxt[1:], 0)
                if at <= b:
                    # the source is above the reflector
                    raise Invalid()
                moves.append(['up', at, b, w(leg)])
                at = b
                i += 2
            else:
                b = mantle(nxt)
                if at <= b:
                    raise Invalid()
                moves.append(['up', at, b, w(leg)])
                at = b
                i += 2
                # continues upwards
                leg = legs[i]
                nn = legs[i + 1] if i + 1 < len(legs) else 'END'
                if leg in ('P', 'S', 'p', 's') and (
                        nn in ('END', 'P', 'S', 'Pn', 'Sn')
                        or leg in 'ps' and nn in ('Pdiff', 'Sdiff', 'Pg',
                                                  'Sg')):
                    moves.append(['up', at, 0, w(leg)])
                    at = 0
                    i += 1
                else:
                    raise Skip()
        elif leg in ('P', 'S'):
            if nxt in ('Pdiff', 'Sdiff', 'Pg', 'Sg', 'p', 's'):
                raise Skip()
            if nxt in ('END', 'P', 'S', 'Pn', 'Sn'):
                moves += [['turn', at, cmb, w(leg)], ['up', cmb, 0, w(leg)]]
                at = 0
                i += 1
            elif nxt == 'c':
                moves += [['down', at, cmb, w(leg)],
                          ['up', cmb, 0, w(legs[i + 2])]]
                at = 0
                i += 3
            elif nxt[0] == 'v':
                b = mantle(nxt[1:], 1, cmb)
                if at >= b:
                    raise Invalid()
                moves += [['down', at, b, w(leg)],
                          ['up', b, 0, w(legs[i + 2])]]
                at = 0
                i += 3
            elif nxt[0] == '^':
                b = mantle(nxt[1:], 0)
                moves += [['turn', at, cmb, w(leg)], ['up', cmb, b, w(leg)]]
                at = b
                i += 2
            elif nxt == 'K':
                moves.append(['down', at, cmb, w(leg)])
                at = cmb
                i += 1
            else:
                b = mantle(nxt)
                if nxt != 'm' and float(nxt) >= c.cmbDepth:
                    raise Invalid()
                z = legs[i + 2]
                if z in ('p', 's'):
                    moves += [['turn', at, cmb, w(leg)],
                              ['up', cmb, b, w(leg)], ['up', b, 0, w(z)]]
                    at = 0
                    i += 3
                else:
                    if b <= at:
                        raise NoPath()
                    moves.append(['down', at, b, w(leg)])
                    at = b
                    i += 2
        elif leg == 'K':
            wave = moves[-1][3]
            prev = legs[i - 1]
            if prev in ('P', 'S', 'K'):
                if nxt in ('I', 'J'):
                    moves.append(['down', at, icb, wave])
                    at = icb
                elif nxt == 'i':
                    moves.append(['down', at, icb, wave])
                    at = icb
                    i += 1
                else:
                    moves += [['turn', at, icb, wave], ['up', icb, cmb, wave]]
                    at = cmb
            else:
                moves.append(['up', at, cmb, wave])
                at = cmb
            if at == cmb and nxt in ('P', 'S'):
                # the leg going up from the core-mantle boundary
                moves.append(['up', cmb, 0, w(nxt)])
                at = 0
                i += 1
            i += 1
        elif leg in ('I', 'J'):
            moves += [['turn', at, nb, leg == 'I'],
                      ['up', nb, icb, leg == 'I']]
            at = icb
            i += 1
        elif leg in ('Pg', 'Sg', 'Pn', 'Sn'):
            if at >= moho:
                raise NoPath()
            b = moho if leg[1] == 'g' else moho + 1
            moves += [['turn', at, b, w(leg)], ['up', b, 0, w(leg)]]
            at = 0
            i += 1
        elif leg in ('Pdiff', 'Sdiff'):
            moves += [['turn', at, cmb, w(leg)], ['up', cmb, 0, w(leg)]]
            at = 0
            i += 1
        else:
            raise Skip()
    return moves


def ref_path(moves):
    out = []
    for kind, a, b, w in moves:
        if kind == 'up':
            out += [(i, w, False) for i in range(a - 1, b - 1, -1)]
        else:
            out += [(i, w, True) for i in range(a, b)]
    return out


def limits(c, w):
    """For every boundary: smallest slowness met above it, and the slowness
    just below it."""
    key = '_verif_limits_%s' % w
    if key in c.__dict__:
        return c.__dict__[key]
    above, below = [], []
    ls = lay(c.sMod, w)
    tops = [b.topDepth for b in branches(c, w)] + [c.radiusOfEarth]
    for z in tops:
        m = ls[0].topP
        for l in ls:
            if l.botDepth <= z and not (l.topDepth == l.botDepth == z):
                m = min(m, l.topP, l.botP)
        above.append(m)
        k = [l.topP for l in ls if l.topDepth == z and l.botDepth > z]
        below.append(k[0] if k else 0.0)
    c.__dict__[key] = (above, below)
    return above, below


def span_min(c, w, a, b):
    """Smallest slowness between two boundaries (one-sided at the ends)."""
    m = 1e300
    bs = branches(c, w)
    top, bot = bs[a].topDepth, bs[b - 1].botDepth
    for l in lay(c.sMod, w):
        if l.topDepth >= top and l.botDepth <= bot and not (
                l.topDepth == l.botDepth and l.topDepth in (top, bot)):
            m = min(m, l.topP, l.botP)
    return m


def ref_rays(moves, c):
    """(rays that must be there, rays that may be there)."""
    e = 1e-9
    lo_hi, hi_hi = 1e300, 1e300        # upper ends of both ranges
    lo_lo, hi_lo = 0.0, 0.0            # lower ends
    prev = None
    for k, (kind, a, b, w) in enumerate(moves):
        above, below = limits(c, w)

        def E(i, v=None):
            x, y = limits(c, w if v is None else v)
            return min(x[i], y[i]) if i < len(x) - 1 else x[i]
        if k == 0:
            if kind == 'up':
                lo_hi = min(lo_hi, above[a])
                hi_hi = min(hi_hi, max(above[a], below[a]))
            else:
                lo_hi = min(lo_hi, E(a))
                hi_hi = min(hi_hi, max(above[a], below[a]))
        if kind == 'turn':
            lo_lo = max(lo_lo, above[b])
            hi_lo = max(hi_lo, span_min(c, w, a, b) if b > a else 0.0)
            lo_hi = min(lo_hi, E(a))
            turn_at = a
        elif kind == 'down':
            hi_hi = min(hi_hi, span_min(c, w, a, b))
            lo_hi = min(lo_hi, above[b], E(a))
            nk = moves[k + 1]
            if nk[0] != 'up':
                lo_hi = min(lo_hi, E(b), E(b, nk[3]))
            else:
                lo_hi = min(lo_hi, limits(c, nk[3])[0][b])
        else:
            start = a
            if prev is not None and prev[0] == 'turn':
                start = min(a, prev[1])
            if start > b:
                hi_hi = min(hi_hi, span_min(c, w, b, start))
            lo_hi = min(lo_hi, E(b))
            if prev is None or prev[0] != 'turn':
                lo_hi = min(lo_hi, above[a])
            if k + 1 < len(moves):
                nk = moves[k + 1]
                if nk[0] == 'up':
                    lo_hi = min(lo_hi, limits(c, nk[3])[0][b])
                else:
                    lo_hi = min(lo_hi, E(b, nk[3]))
        prev = (kind, a, b, w)
    must = [p for p in c.rayParams if lo_lo <= p <= lo_hi]
    may = [p for p in c.rayParams
           if hi_lo * (1 - e) - e <= p <= hi_hi * (1 + e) + e]
    return must, may, lo_hi


def phase_cases(rng, tier, sources=True):
    while True:
        for n in M.pool(rng, tier):
            rows = M.rows_of(n)
            cmb = cmb_of(rows)
            d = M.pick_depth(rng, n)
            if d >= cmb:
                d = round(rng.uniform(0, 600), 1)
            for _ in range(12):
                legs = rnd_phase(rng, rows)
                if n == 'nocs' and 'J' in legs:
                    continue
                yield {'model': n, 'depth': d, 'legs': legs}


def make(case):
    from taupy.SeismicPhase import SeismicPhase
    c = M.corrected(case['model'], case['depth'])
    return c, SeismicPhase(''.join(case['legs']), c)


def get(case):
    """(corrected model, phase or None if refused, moves or None)."""
    from taupy.helper_classes import TauModelError
    c = M.corrected(case['model'], case['depth'])
    try:
        c, ph = make(case)
    except TauModelError:
        ph = None
    return c, ph


# ---------------------------------------------------------------- C08
@oracle('C08', 'path', phase_cases)
def c08_path(case):
    """Branch sequences against independently derived paths."""
    c, ph = get(case)
    legs = case['legs']
    name = ''.join(legs)
    if c.sourceBranch >= c.cmbBranch:
        return
    if not has_inner(c) and any(x in legs for x in 'IJi'):
        need(ph is None, '%s is not refused without an inner core', name)
        return
    try:
        moves = ref_moves(legs, c)
    except Skip:
        return
    except Invalid:
        need(ph is None or not ph.rayParams,
             '%s from %r km has arrivals although it passes its reflector',
             name, case['depth'])
        return
    except NoPath:
        need(ph is not None and not ph.rayParams,
             '%s cannot leave %r km but has samples', name, case['depth'])
        return
    need(ph is not None, '%s was refused', name)
    if not ph.rayParams:
        return
    got = list(zip(ph.branchSeq, ph.waveType, ph.downGoing))
    need(len(ph.branchSeq) == len(ph.waveType) == len(ph.downGoing),
         '%s: branch sequence, wave types and directions differ in length',
         name)
    want = ref_path(moves)
    fl = [c.sMod.depthInFluid((b.topDepth + b.botDepth) / 2)
          for b in branches(c, True)]
    fl = [bool(x) for x in fl]

    def norm(q):
        return [(i, (None if fl[i] else bool(w)), bool(g)) for i, w, g in q]
    need(norm(got) == norm(want),
         '%s from %r km follows %r, expected %r', name, case['depth'],
         norm(got), norm(want))
    # connected route from the source to the surface
    b, w, down = got[0]
    need(b == (c.sourceBranch if down else c.sourceBranch - 1),
         '%s starts in branch %r', name, b)
    for (b1, w1, d1), (b2, w2, d2) in zip(got, got[1:]):
        need(b2 - b1 == ((1 if d1 else -1) if d1 == d2 else 0),
             '%s jumps from branch %r to %r', name, b1, b2)
    need(got[-1][0] == 0 and not got[-1][2], '%s does not end at the '
         'surface', name)


# ---------------------------------------------------------------- C24
@oracle('C24', 'rays', phase_cases)
def c24_rays(case):
    """Sampled rays of a phase against independent admissibility."""
    c, ph = get(case)
    legs = case['legs']
    name = ''.join(legs)
    if c.sourceBranch >= c.cmbBranch:
        return
    if not has_inner(c) and any(x in legs for x in 'IJi'):
        need(ph is None, '%s is not refused without an inner core', name)
        return
    try:
        moves = ref_moves(legs, c)
    except (Skip, Invalid):
        return
    except NoPath:
        need(ph is not None and not ph.rayParams, '%s has samples', name)
        return
    need(ph is not None, '%s was refused', name)
    last = legs[-1]
    special = last in ('Pdiff', 'Sdiff', 'Pn', 'Sn')
    if not special and any(x in ('Pn', 'Sn') for x in legs):
        need(len(set(ph.rayParams)) < 2, '%s travels with several ray '
             'parameters', name)
        return
    w = last[0] == 'P'
    if special:
        above, below = limits(c, w)
        k = c.cmbBranch if 'diff' in last else c.mohoBranch
        p = above[k] if 'diff' in last else min(above[k], below[k])
        hs = c.sMod.highSlownessLayerDepthsP if w else \
            c.sMod.highSlownessLayerDepthsS
        if 'diff' not in last and any(
                z.topDepth <= c.mohoDepth < z.botDepth for z in hs):
            need(not ph.rayParams, '%s travels along a high slowness zone',
                 name)
        for q in ph.rayParams:
            need(near(p, q, 1e-9), '%s travels with ray parameter %r, not %r',
                 name, q, p)
        if 'diff' in last:
            must, may, top = ref_rays(moves, c)
            atcmb = any(z.topDepth < c.cmbDepth <= z.botDepth for z in hs)
            if atcmb:
                need(not ph.rayParams, '%s diffracts along a high slowness '
                     'zone', name)
            elif p <= top * (1 - 1e-12):
                need(len(ph.rayParams) == 2, '%s has no ray although %r can '
                     'travel its path', name, p)
            if p > top * (1 + 1e-9) and p not in may:
                need(not ph.rayParams, '%s has rays that cannot travel its '
                     'path', name)
        elif len(moves) == 2 and name in ('Pn', 'Sn'):
            must, may, top = ref_rays(moves[:1], c)
            up = limits(c, w)[0][c.sourceBranch]
            if p <= min(top, up) * (1 - 1e-12) and \
                    span_min(c, w, c.mohoBranch, c.mohoBranch + 1) < p:
                need(len(ph.rayParams) == 2, '%s has no ray', name)
        return
    must, may, top = ref_rays(moves, c)
    got = set(ph.rayParams)
    may = set(may)
    sampled = set(c.rayParams)
    for p in got:
        need(p in sampled, '%s: ray %r is not a ray of the model', name, p)
        need(p in may, '%s from %r km: ray %r cannot travel its path', name,
             case['depth'], p)
    for p in must:
        need(p in got, '%s from %r km: ray %r can travel the path but is '
             'left out', name, case['depth'], p)


# ---------------------------------------------------------------- C07
def c07_cases(rng, tier):
    g = phase_cases(rng, tier)
    while True:
        c = next(g)
        if rng.random() < .08:
            c = dict(c, legs=['%g' % round(rng.uniform(.5, 9), rng.choice(
                [0, 1, 3])) + 'kmps'])
        yield c


@oracle('C07', 'sums', c07_cases)
def c07_sums(case):
    """Times and distances of a phase against the sums along its path."""
    c, ph = get(case)
    if ph is None:
        return
    name = ''.join(case['legs'])
    if name.endswith('kmps'):
        v = float(name[:-4])
        if v <= 0:
            return
        R = c.radiusOfEarth
        need(len(ph.dist) == 2 and ph.dist[0] == 0 == ph.time[0]
             and near(ph.dist[1], 2 * math.pi)
             and near(ph.time[1], 2 * math.pi * R / v)
             and all(near(p, R / v) for p in ph.rayParams),
             '%s: %r %r %r', name, ph.dist, ph.time, ph.rayParams)
        return
    if not ph.rayParams:
        need(not ph.dist and not ph.time, '%s: samples without rays', name)
        return
    need(len(ph.rayParams) == len(ph.dist) == len(ph.time),
         '%s: %d ray parameters, %d distances, %d times', name,
         len(ph.rayParams), len(ph.dist), len(ph.time))
    index = {p: i for i, p in enumerate(c.rayParams)}
    path = list(zip(ph.branchSeq, ph.waveType))

    def total(p, keep=lambda b, w: True):
        i = index[p]
        t = d = 0.0
        for b, w in path:
            x = branches(c, w)[b]
            if keep(x, bool(w)):
                t += x.time[i]
                d += x.dist[i]
        return t, d

    def same(j, t, d, what):
        need(near(ph.time[j], t, 1e-9) and near(ph.dist[j], d, 1e-9),
             '%s from %r km, %s (ray %r): %r s and %r rad, the branches give '
             '%r and %r', name, case['depth'], what, ph.rayParams[j],
             ph.time[j], ph.dist[j], t, d)
    ps = ph.rayParams
    ext = None
    if 'Pdiff' in name or 'Sdiff' in name:
        ext = 60
    elif 'Pn' in name or 'Sn' in name:
        ext = 20
    if ext or len(ps) == 2 and ps[0] == ps[1]:
        need(len(ps) == 2 and ps[0] == ps[1], '%s: rays %r', name, ps)
        if ps[0] not in index:
            # a limit that is not itself a sample
            return
        t, d = total(ps[0])
        same(0, t, d, 'start')
        r = math.radians(ext or 0)
        same(1, t + r * ps[0], d + r, 'end')
        return
    # contiguous samples, with the repeated ones of shadow zones
    base = [p for i, p in enumerate(ps) if i == 0 or ps[i - 1] != p]
    i0 = index[base[0]]
    need(base == list(c.rayParams[i0:i0 + len(base)]),
         '%s: samples are not consecutive rays of the model', name)
    for j, p in enumerate(ps):
        if j + 1 < len(ps) and ps[j + 1] == p:
            zs = [(v, z) for v, s in (
                (True, c.sMod.highSlownessLayerDepthsP),
                (False, c.sMod.highSlownessLayerDepthsS))
                for z in s if z.rayParam == p]
            need(zs, '%s: repeated ray %r without a high slowness zone',
                 name, p)
            ok = False
            for v, z in zs:
                # the legs of the other wave type are not affected
                t, d = total(p, lambda b, w: w != v
                             or b.topDepth < z.topDepth)
                ok = ok or (near(ph.time[j], t, 1e-9)
                            and near(ph.dist[j], d, 1e-9))
            need(ok, '%s: the ray %r above the shadow zone takes %r s and '
                 '%r rad', name, p, ph.time[j], ph.dist[j])
        else:
            t, d = total(p)
            same(j, t, d, 'sample %d' % j)
    # shadow zones are not forgotten
    if len(ps) > 2:
        for isP, hs in ((True, c.sMod.highSlownessLayerDepthsP),
                        (False, c.sMod.highSlownessLayerDepthsS)):
            for z in hs:
                if not (ps[-1] < z.rayParam < ps[0]):
                    continue
                bn = c.findBranch(z.topDepth)
                seq = list(zip(ph.branchSeq, ph.waveType, ph.downGoing))
                cross = any(a == (bn - 1, isP, True) and b == (bn, isP, True)
                            for a, b in zip(seq, seq[1:]))
                n = sum(1 for p in ps if p == z.rayParam)
                if cross:
                    need(n >= 2, '%s: no shadow zone at ray %r', name,
                         z.rayParam)


# ---------------------------------------------------------------- C09
LEGCH = 'KkIiJpsmcPSPSgbnd^v0123456789.'


def rnd_string(rng):
    k = rng.random()
    if k < .35:
        return ''.join(rng.choice(LEGCH) for _ in range(rng.randint(1, 9)))
    if k < .45:
        return ''.join(chr(rng.choice([rng.randint(32, 126), 0x2070, 0xb2,
                                       0x663, 10, 0x50, 0x53]))
                       for _ in range(rng.randint(0, 8)))
    if k < .5:
        return rng.choice(['', 'x', '1', '-3', 'nan', 'inf', '1e3', '..',
                           'a b', '+2', ' 3']) + 'kmps'
    rows = M.rows_lvz()
    s = list(''.join(rnd_phase(rng, rows)))
    for _ in range(rng.randint(0, 3)):
        i = rng.randrange(len(s) + 1)
        q = rng.random()
        if q < .4 and i < len(s):
            del s[i]
        elif q < .8:
            s.insert(i, rng.choice(LEGCH))
        elif len(s) > 1:
            j = rng.randrange(len(s))
            i = min(i, len(s) - 1)
            s[i], s[j] = s[j], s[i]
    return ''.join(s)


def c09_cases(rng, tier):
    while True:
        yield {'names': [rnd_string(rng) for _ in range(60)]}


ASCII = '0123456789.'


def is_number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def leg_ok(leg):
    if leg in ('K', 'k', 'I', 'i', 'J', 'p', 's', 'm', 'c', 'P', 'S', 'Pg',
               'Sg', 'Pb', 'Sb', 'Pn', 'Sn', 'Pdiff', 'Sdiff', '^m', '^c',
               '^i', 'vm', 'vc', 'vi'):
        return True
    if leg.endswith('kmps') and is_number(leg[:-4]):
        return True
    if leg[:1] in ('^', 'v'):
        leg = leg[1:]
    return bool(leg) and is_number(leg) and all(
        ch in '.' or ch.isdigit() for ch in leg)


@oracle('C09', 'legs', c09_cases)
def c09_legs(case):
    """Random and mutated names: lossless legs or the phase error."""
    from taupy.SeismicPhase import legPuller
    from taupy.helper_classes import TauModelError
    for name in case['names']:
        try:
            legs = legPuller(name)
        except TauModelError:
            continue
        need(legs[-1] == 'END', '%r: last leg %r', name, legs[-1])
        need(''.join(legs[:-1]) == name, '%r was split into %r', name, legs)
        for leg in legs[:-1]:
            need(leg_ok(leg), '%r: %r is not a leg', name, leg)


VALID = ['P', 'S', 'PcP', 'ScS', 'PKP', 'PKIKP', 'PKiKP', 'SKS', 'SKIKS',
         'P410s', 'Pdiff', 'Sdiff', 'Pn', 'Pg', 'pP', 'sS', 'P^410P',
         'Pv660P', 'PmS', 'PKJKP', '2.7kmps', 'PKKP', 'PKIKKIKP', 'P^mP',
         'SKKS', 'p^mP', 'SvmP', 'P660S', 'PcS', 'ScP', 'S410p']


def c09v_cases(rng, tier):
    while True:
        for v in rng.sample(VALID, 8):
            rows = M.rows_lvz()
            yield {'valid': [v, ''.join(rnd_phase(rng, rows))]}


@oracle('C09', 'valid names', c09v_cases, 0.3)
def c09_valid(case):
    """Well-formed names must be split, not refused."""
    from taupy.SeismicPhase import legPuller
    for v in case['valid']:
        legs = legPuller(v)
        need(''.join(legs[:-1]) == v and legs[-1] == 'END',
             '%r was split into %r', v, legs)


def c09r_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier)[:6]:
            yield {'model': n, 'depth': M.pick_depth(rng, n),
                   'deg': round(rng.uniform(0, 180), 2),
                   'junk': [rnd_string(rng) for _ in range(4)],
                   'good': rng.choice(['P', 'S', 'PcP', 'PP', 'SS', 'ScS'])}


@oracle('C09', 'request', c09r_cases, 0.6)
def c09_request(case):
    """Requests with unrecognisable phases still give the other ones."""
    from taupy.TauP_Time import TauP_Time
    t = M.tmodel(case['model'])
    want = TauP_Time(t, [case['good']], case['depth'], case['deg'])
    want.run()
    got = TauP_Time(t, case['junk'] + [case['good']], case['depth'],
                    case['deg'])
    got.run()
    a = [(x.time, x.rayParam, x.dist) for x in want.arrivals]
    b = [(x.time, x.rayParam, x.dist) for x in got.arrivals
         if x.name == case['good']]
    need(a == b, '%s gives %r alone and %r together with %r', case['good'],
         a, b, case['junk'])


# ---------------------------------------------------------------- C01
def agree(deg):
    """The radian value of an angle, if all usual ways to compute it give
    the same number."""
    r = deg * math.pi / 180
    for x in (math.radians(deg), deg / 180 * math.pi, deg * (math.pi / 180),
              math.pi * deg / 180):
        if x != r:
            return None
    return r


def c01_cases(rng, tier):
    g = phase_cases(rng, tier)
    while True:
        c = next(g)
        degs = [rng.choice([0.0, 180.0, 360.0, rng.uniform(0, 180),
                            rng.uniform(-400, 800)]) for _ in range(4)]
        yield dict(c, degs=degs, u=[rng.random() for _ in range(6)])


def crossings(dist, time, ps, s):
    """(sample or pair, time, ray parameter) of the places where a sampled
    curve passes s; shadow zones (equal neighbouring ray parameters of a
    curve of more than two samples) are gaps."""
    out = []
    n = len(dist)
    gap = [n > 2 and ps[i] == ps[i + 1] for i in range(n - 1)]
    for i in range(n - 1):
        if gap[i]:
            continue
        a, b = dist[i], dist[i + 1]
        if a == s:
            out.append((i, time[i], ps[i]))
        if b == s and (i + 1 == n - 1 or gap[i + 1]):
            out.append((i + 1, time[i + 1], ps[i + 1]))
        if min(a, b) < s < max(a, b):
            f = (s - a) / (b - a)
            out.append((i + .5, time[i] + f * (time[i + 1] - time[i]),
                        ps[i] + f * (ps[i + 1] - ps[i])))
    return out


def targets(deg, top):
    """Equivalent distances in radians up to top."""
    d = abs(deg) % 360.0
    d = min(d, 360.0 - d)
    out, n = set(), 0
    while n * 2 * math.pi <= top + 7:
        r = d * math.pi / 180
        out.add(n * 2 * math.pi + r)
        if d not in (0.0, 180.0):
            out.add((n + 1) * 2 * math.pi - r)
        n += 1
    return sorted(out)


def compare(ph, deg, arr, exact=()):
    """Arrivals against the crossings of the phase's curve."""
    D, T, P = ph.dist, ph.time, ph.rayParams
    if not D:
        need(not arr, 'arrivals of a phase without samples')
        return
    want, loose = [], []
    for s in targets(deg, max(D)):
        amb = any(abs(x - s) < 1e-11 for x in D) and s not in exact
        for k, t, p in crossings(D, T, P, s):
            (loose if amb else want).append((s, t, p))
        if amb:
            for q in (s - 2e-11, s + 2e-11):
                loose += [(s, t, p) for k, t, p in crossings(D, T, P, q)]

    def eq(a, w):
        return near(a.dist, w[0], 1e-10) and near(a.time, w[1], 1e-8) and \
            near(a.rayParam, w[2], 1e-8)
    left = list(want)
    seen = []
    for a in arr:
        m = [w for w in left if eq(a, w)]
        if m:
            left.remove(m[0])
            continue
        m = [w for w in loose if near(a.dist, w[0], 1e-10)
             and abs(a.time - w[1]) < 1e-5]
        need(m and not any(near(a.time, b.time, 1e-9) and
                           near(a.dist, b.dist, 1e-9) for b in seen),
             '%s at %r deg: arrival with distance %r, time %r, ray %r is %s',
             ph.name, deg, a.dist, a.time, a.rayParam,
             'listed twice' if any(eq(a, w) for w in want) else
             'not a crossing of the curve')
        seen.append(a)
    need(not left, '%s at %r deg: no arrival for the crossing %r', ph.name,
         deg, left[:1])


@oracle('C01', 'phases', c01_cases)
def c01_phases(case):
    """Arrivals of random phases against brute-force crossings."""
    c, ph = get(case)
    if ph is None:
        return
    degs = list(case['degs'])
    if ph.dist:
        for u in case['u']:
            lo, hi = min(ph.dist), max(ph.dist)
            degs.append(math.degrees(lo + u * (hi - lo)))
    for deg in degs:
        arr = ph.calcTime(deg)
        compare(ph, deg, arr)
        for a in arr:
            need(a.name == ph.name and a.phase is ph and
                 a.sourceDepth == case['depth'], 'arrival of %s is labelled '
                 '%s from %r km', ph.name, a.name, a.sourceDepth)
            i = a.rayParamIndex
            need(min(ph.dist[i], ph.dist[i + 1]) - 1e-9 <= a.dist <=
                 max(ph.dist[i], ph.dist[i + 1]) + 1e-9,
                 '%s: sample %r does not bracket %r', ph.name, i, a.dist)


def c01s_cases(rng, tier):
    pool = [float(d) for d in range(0, 181) if agree(float(d)) is not None]
    pool = [d for d in pool if d not in (0.0, 180.0)] + [0.0]
    while True:
        deg = rng.choice(pool)
        n = rng.choice([2, 3, 4, 6, 9])
        hit = rng.random() < .7
        vals = []
        for i in range(n):
            k = rng.random()
            if hit and k < .3:
                vals.append(['t', rng.choice([0, 0, 0, 1])])
            elif k < .4 and vals:
                vals.append(['v', round(rng.uniform(0, 14), 3)])
            else:
                vals.append(['v', round(rng.uniform(0, 4.5), 3)])
        shadow = [rng.randrange(n - 1)] if rng.random() < .4 and n > 2 else []
        yield {'deg': deg, 'vals': vals, 'shadow': shadow,
               'seed': rng.randrange(10 ** 6)}


@oracle('C01', 'synthetic', c01s_cases)
def c01_synthetic(case):
    """Made-up curves: exact hits, shadow zones, several laps."""
    from taupy.SeismicPhase import SeismicPhase
    c = M.corrected('solid', 10.0)
    ph = SeismicPhase('P', c)
    rng = random.Random(case['seed'])
    deg = case['deg']
    r = agree(deg)
    far = 2 * math.pi - r
    dist, exact = [], set()
    for k, v in case['vals']:
        x = v if k == 'v' else (r if v == 0 else far)
        if dist and dist[-1] == x:
            x = x + .25
        if k == 't':
            exact.add(x)
        dist.append(x)
    n = len(dist)
    ps, p = [], 400.0
    for i in range(n):
        ps.append(p)
        if i not in case['shadow']:
            p -= rng.uniform(1, 20)
    ph.dist, ph.rayParams = dist, ps
    ph.time = [rng.uniform(100, 2000) for _ in dist]
    ph.minDistance, ph.maxDistance = min(dist), max(dist)
    ph.maxRayParam, ph.minRayParam = ps[0], ps[-1]
    compare(ph, deg, ph.calcTime(deg), exact)


# ---------------------------------------------------------------- C02
def c02_cases(rng, tier):
    g = phase_cases(rng, tier)
    while True:
        c = next(g)
        names = [''.join(c['legs'])] + rng.sample(
            ['P', 'S', 'PKP', 'SKKS', 'PKKP', 'PP', 'SSS', '3kmps', 'PPP',
             'PKPPKP', 'ScSScS', 'PKIKP', 'pP', 'PKiKP', 'Sdiff'], 3)
        yield {'model': c['model'], 'depth': c['depth'], 'names': names,
               'deg': rng.choice([0.0, 180.0, 90.0, 12.5,
                                  round(rng.uniform(0, 180), 2),
                                  rng.uniform(0, 180), rng.uniform(0, 180),
                                  rng.uniform(150, 180),
                                  10 ** rng.uniform(-6, 0)]),
               'k': rng.randint(1, 4)}


@oracle('C02', 'equivalent', c02_cases)
def c02_equiv(case):
    """Equivalent distances through the public interface."""
    from taupy.SeismicPhase import SeismicPhase
    from taupy.helper_classes import TauModelError
    from taupy.TauP_Time import TauP_Time
    t = M.tmodel(case['model'])
    d, k = case['deg'], case['k']

    def run(x):
        tt = TauP_Time(t, case['names'], case['depth'], x)
        tt.run()
        return sorted([a.name, a.time, a.rayParam, a.dist]
                      for a in tt.arrivals), tt.arrivals
    base, arr = run(d)
    for a in arr:
        m = a.getModuloDistDeg()
        need(0 <= m <= 180 and abs(m - d) < 1e-8,
             '%s at %r deg reports %r deg', a.name, d, m)
    for x in (-d, d + 360 * k, 360 - d, d - 360 * k, 360 * k - d):
        got, arr = run(x)
        need(len(got) == len(base), '%d arrivals at %r deg, %d at %r deg',
             len(base), d, len(got), x)
        for g, b in zip(got, base):
            need(g[0] == b[0] and near(g[1], b[1], 1e-7)
                 and near(g[2], b[2], 1e-6) and near(g[3], b[3], 1e-9),
                 '%r at %r deg but %r at %r deg', b, d, g, x)
        for a in arr:
            m = a.getModuloDistDeg()
            need(0 <= m <= 180 and abs(m - d) < 1e-8,
                 '%s at %r deg reports %r deg', a.name, x, m)


# ---------------------------------------------------------------- C20
def arr_cases(rng, tier):
    g = phase_cases(rng, tier)
    while True:
        c = next(g)
        if rng.random() < .05:
            c = dict(c, legs=['3.2kmps'])
        yield dict(c, u=[rng.random() for _ in range(4)])


def arrivals(case, ph):
    out = []
    if not ph.dist:
        return out
    lo, hi = min(ph.dist), max(ph.dist)
    for u in case['u']:
        d = math.degrees(lo + u * (hi - lo))
        out += ph.calcTime(d)
    j = int(case['u'][0] * len(ph.dist))
    out += ph.calcTime(math.degrees(ph.dist[j]))
    return out


@oracle('C20', 'angles', arr_cases)
def c20_angles(case):
    """Take-off and incidence angles against Snell's law."""
    c, ph = get(case)
    if ph is None or c.sourceBranch >= c.cmbBranch:
        return
    rows = M.rows_of(case['model'])
    R, d = rows[-1][0], case['depth']
    name = ''.join(case['legs'])
    for a in arrivals(case, ph):
        if name.endswith('kmps'):
            need(a.takeoffAngle == 0 == a.incidentAngle, '%s: angles %r %r',
                 name, a.takeoffAngle, a.incidentAngle)
            continue
        up = name[0] in 'ps'
        col = 1 if name[0] in 'Pp' else 2
        v = vel(rows, d, col, not up)
        s = min(1.0, a.rayParam * v / (R - d))
        want = math.degrees(math.asin(s)) * (-1 if up else 1)
        tol = 1e-6 + (1e-3 if s > .9999 else 0)
        need(abs(a.takeoffAngle - want) < tol,
             '%s from %r km: take-off angle %r, Snell gives %r', name, d,
             a.takeoffAngle, want)
        last = [l for l in case['legs']][-1][0]
        v = vel(rows, 0, 1 if last in 'Pp' else 2, True)
        s = min(1.0, a.rayParam * v / R)
        want = math.degrees(math.asin(s))
        tol = 1e-6 + (1e-3 if s > .9999 else 0)
        need(abs(a.incidentAngle - want) < tol,
             '%s: incidence angle %r, Snell gives %r', name,
             a.incidentAngle, want)


# ---------------------------------------------------------------- C18
def slow_in(c, w, z, p):
    """Whether a layer of the wave type at this depth has slowness p."""
    from .o_tau import slowness_at
    return any(abs(q - p) <= 1e-2 * max(p, 1.0) for q in
               slowness_at(c.sMod, w, z))


@oracle('C18', 'pierce', arr_cases)
def c18_pierce(case):
    """Pierce points against the branches along the path."""
    c, ph = get(case)
    if ph is None or c.sourceBranch >= c.cmbBranch:
        return
    name = ''.join(case['legs'])
    arr = arrivals(case, ph)
    for n, a in enumerate(arr):
        pts = a.getPierce() if n % 2 else \
            ph.calcPierceFromArrival(a).pierce
        what = '%s from %r km at %r rad' % (name, case['depth'], a.dist)
        q = pts[0]
        need((q.time, q.distRadian, q.depth) == (0, 0, case['depth']),
             '%s starts at %r s, %r rad, %r km', what, q.time, q.distRadian,
             q.depth)
        for x, y in zip(pts, pts[1:]):
            need(y.time >= x.time - 1e-9 and
                 y.distRadian >= x.distRadian - 1e-11,
                 '%s goes back from %r to %r s', what, x.time, y.time)
        for x in pts:
            need(near(x.p, a.rayParam, 1e-7), '%s: pierce point with ray '
                 '%r', what, x.p)
        q = pts[-1]
        need(abs(q.time - a.time) < 1e-6 * max(1, a.time)
             and abs(q.distRadian - a.dist) < 1e-8 and q.depth == 0,
             '%s ends at %r s, %r rad, %r km instead of %r s', what, q.time,
             q.distRadian, q.depth, a.time)
        if name.endswith('kmps'):
            continue
        # independent reconstruction
        p = a.rayParam
        ps = c.rayParams
        i = a.rayParamIndex
        pa, pb = ph.rayParams[i], ph.rayParams[i + 1]
        single = pa == pb
        if pa not in ps:
            continue
        ja = ps.index(pa)
        f = 0.0 if single else (pa - p) / (pa - pb)
        exp = []
        t = d = 0.0
        loose = False
        for b, w, down in zip(ph.branchSeq, ph.waveType, ph.downGoing):
            br = branches(c, w)[b]
            jb = ja if single else ja + 1
            dt = br.time[ja] + f * (br.time[jb] - br.time[ja])
            dd = br.dist[ja] + f * (br.dist[jb] - br.dist[ja])
            if not single and pa > br.maxRayParam:
                # turns above, even just before a shadow zone
                dt = dd = 0.0
            t += dt
            d += dd
            if 1e-12 < abs(dt) < 1e-8:
                loose = True
            if abs(dt) > 1e-10:
                exp.append((t, d, b, w, down, br))
        if loose:
            continue
        ext = 'diff' in name or 'Pn' in name or 'Sn' in name
        if ext:
            head = c.cmbDepth if 'diff' in name else c.mohoDepth
            gaps = [(x, y) for x, y in zip(pts, pts[1:])
                    if x.depth == y.depth == head]
            nh = sum(1 for l in case['legs'] if l[1:] in ('n', 'diff'))
            need(len(gaps) == nh, '%s: %d segments along the boundary at '
                 '%r km', what, len(gaps), head)
            need(abs(sum(y.distRadian - x.distRadian for x, y in gaps)
                     - (a.dist - ph.dist[0])) < 1e-8,
                 '%s: segment along the boundary is %r', what,
                 [y.distRadian - x.distRadian for x, y in gaps])
            continue
        need(len(pts) == len(exp) + 1, '%s: %d pierce points, the ray '
             'crosses %d branches', what, len(pts), len(exp))
        prev = case['depth']
        for k, (q, (t, d, b, w, down, br)) in enumerate(zip(pts[1:], exp)):
            need(abs(q.time - t) < 1e-6 * max(1, t) and
                 abs(q.distRadian - d) < 1e-8, '%s: pierce point %d at %r s '
                 'and %r rad, expected %r and %r', what, k + 1, q.time,
                 q.distRadian, t, d)
            if down:
                turn = k + 1 < len(exp) and exp[k + 1][2] == b and \
                    not exp[k + 1][4]
                if q.depth == br.botDepth:
                    pass
                else:
                    need(br.topDepth - 1e-9 <= q.depth < br.botDepth and turn,
                         '%s: pierce point at %r km leaving branch %r-%r '
                         'downwards', what, q.depth, br.topDepth,
                         br.botDepth)
                    if p >= br.maxRayParam * (1 - 1e-12):
                        continue
                    wave = w or bool(c.sMod.depthInFluid(
                        (br.topDepth + br.botDepth) / 2))
                    need(slow_in(c, wave, q.depth, p), '%s: ray %r does not '
                         'turn at %r km', what, p, q.depth)
            else:
                need(q.depth == br.topDepth, '%s: pierce point at %r km '
                     'leaving branch %r-%r upwards', what, q.depth,
                     br.topDepth, br.botDepth)


# ---------------------------------------------------------------- C22
def layer_steps(c, w, b, down, p):
    """(depth, time, distance) steps of a ray through the layers of a
    branch; a turning ray turns inside a layer."""
    br = branches(c, w)[b]
    R = c.radiusOfEarth
    out = []
    if p > br.maxRayParam:
        return out
    for l in lay(c.sMod, w):
        if l.topDepth < br.topDepth or l.botDepth > br.botDepth:
            continue
        if l.topDepth == l.botDepth:
            if l.topDepth in (br.topDepth, br.botDepth):
                continue
            if min(l.topP, l.botP) < p:
                break
            continue
        if p > l.topP:
            break
        if p <= l.botP:
            t, d = closed_form(R, (l.topP, l.topDepth, l.botP, l.botDepth), p)
            out.append((l.topDepth, l.botDepth, t, d))
            continue
        if l.topP == p:
            break
        if l.botDepth == R:
            z = R - (R - l.topDepth) * p / l.topP
        else:
            B = math.log(l.topP / l.botP) / math.log(
                (R - l.topDepth) / (R - l.botDepth))
            z = R - (R - l.topDepth) * (p / l.topP) ** (1 / B)
        t, d = closed_form(R, (l.topP, l.topDepth, p, z), p)
        out.append((l.topDepth, z, t, d))
        break
    if down:
        return [(z, t, d) for y, z, t, d in out]
    return [(y, t, d) for y, z, t, d in reversed(out)]


@oracle('C22', 'paths', arr_cases)
def c22_paths(case):
    """Ray paths against the layers along the phase path."""
    c, ph = get(case)
    if ph is None or c.sourceBranch >= c.cmbBranch:
        return
    name = ''.join(case['legs'])
    for n, a in enumerate(arrivals(case, ph)):
        pts = a.getPath() if n % 2 else ph.calcPathFromArrival(a).path
        what = '%s from %r km at %r rad' % (name, case['depth'], a.dist)
        q = pts[0]
        need((q.time, q.distRadian, q.depth) == (0, 0, case['depth']),
             '%s starts at %r s, %r rad, %r km', what, q.time, q.distRadian,
             q.depth)
        need(pts[-1].depth == 0, '%s ends at %r km', what, pts[-1].depth)
        for x, y in zip(pts, pts[1:]):
            need(y.time >= x.time and y.distRadian >= x.distRadian,
                 '%s goes back at %r km', what, y.depth)
        if name.endswith('kmps'):
            need(near(pts[-1].time, a.time) and near(pts[-1].distRadian,
                                                     a.dist),
                 '%s: path ends after %r s', what, pts[-1].time)
            continue
        p = a.rayParam
        if any(0 < abs(p - q) <= 1e-9 * p for q in c.rayParams):
            # rounded sample: turns next to a layer boundary
            continue
        exp = []
        seq = list(zip(ph.branchSeq, ph.waveType, ph.downGoing))
        diff = 'Pdiff' in name or 'Sdiff' in name
        head = 'Pn' in name or 'Sn' in name
        for k, (b, w, down) in enumerate(seq):
            exp += layer_steps(c, w, b, down, p)
            e = (a.dist - ph.dist[0])
            if diff and down and b == c.cmbBranch - 1 \
                    and k + 1 < len(seq) and seq[k + 1][0] == b \
                    and k == max(j for j, q in enumerate(seq) if q[2]):
                exp.append((c.cmbDepth, e * p, e))
        if head:
            need(abs(sum(y.distRadian - x.distRadian for x, y in
                         zip(pts, pts[1:]) if x.depth == y.depth ==
                         c.mohoDepth) - (a.dist - ph.dist[0])) < 1e-6
                 or a.dist - ph.dist[0] < 1e-9,
                 '%s: no segment along the moho', what)
            continue
        # a turning point at the very top or bottom of a layer may or may
        # not be listed: compare without steps of no length
        got = [(y.depth, y.time - x.time, y.distRadian - x.distRadian)
               for x, y in zip(pts, pts[1:])]
        got = [g for g in got if g[1] > 1e-4 or g[2] > 1e-7]
        exp = [g for g in exp if g[1] > 1e-4 or g[2] > 1e-7]
        tp = max([g[0] for g in got] + [0])
        need(len(got) == len(exp), '%s: %d steps, the ray crosses %d layers',
             what, len(got), len(exp))
        for g, x in zip(got, exp):
            need(abs(g[0] - x[0]) < 1e-4 and
                 abs(g[1] - x[1]) < 1e-4 * max(1, x[1]) and
                 abs(g[2] - x[2]) < 1e-6 * max(1.0, 100 * x[2]),
                 '%s: step to %r km of %r s, %r rad; expected %r km, %r s, '
                 '%r rad', what, *(g + x))


def c22b_cases(rng, tier):
    for c in c02_cases(rng, tier):
        yield c


@oracle('C22', 'same arrivals', c22b_cases, 0.3)
def c22_same(case):
    """Asking for paths returns the arrivals of the travel times."""
    same_arrivals(case, 'path')


@oracle('C18', 'same arrivals', c22b_cases, 0.3)
def c18_same(case):
    """Asking for pierce points returns the arrivals of the travel times,
    each with pierce points."""
    same_arrivals(case, 'pierce')


def same_arrivals(case, kind):
    from taupy import tau
    m = tau.TauPyModel.__new__(tau.TauPyModel)
    m.verbose, m.model = False, M.tmodel(case['model'])
    args = (case['depth'], case['deg'], case['names'])
    a = m.get_travel_times(*args)
    b = m.get_ray_paths(*args) if kind == 'path' else \
        m.get_pierce_points(*args)

    def key(l):
        return sorted([x.name, x.time, x.dist, x.rayParam, x.takeoffAngle]
                      for x in l)
    need(key(a) == key(b), 'travel times %r, %s %r', key(a), kind, key(b))
    for x in b:
        need(len(x.path if kind == 'path' else x.pierce) >= (2 if x.time
                                                            else 1),
             '%s at %r deg has no %s', x.name, case['deg'], kind)
