"""C03 (phase lists) and C21 (saving and loading) through the public API."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from .base import oracle, need
from . import models as M
from .o_phase import rnd_phase, rnd_string

TTP = ['p', 'P', 'Pn', 'Pdiff', 'PKP', 'PKiKP', 'PKIKP']
TTS = ['s', 'S', 'Sn', 'Sdiff', 'SKS', 'SKIKS']
TTPP = TTP + ['PcP', 'pP', 'pPdiff', 'pPKP', 'pPKIKP', 'pPKiKP', 'sP',
              'sPdiff', 'sPKP', 'sPKIKP', 'sPKiKP']
TTSP = TTS + ['sS', 'sSdiff', 'sSKS', 'sSKIKS', 'ScS', 'pS', 'pSdiff',
              'pSKS', 'pSKIKS']
BASIC = TTPP + TTSP + ['ScP', 'SKP', 'SKIKP', 'PKKP', 'PKIKKIKP', 'SKKP',
                       'SKIKKIKP', 'PP', 'PKPPKP', 'PKIKPPKIKP']
ALL = BASIC + ['SKiKP', 'PcS', 'PKS', 'PKIKS', 'PKKS', 'PKIKKIKS', 'SKKS',
               'SKIKKIKS', 'SKSSKS', 'SKIKSSKIKS', 'SS', 'SP', 'PS']
SETS = {'ttp': TTP, 'tts': TTS, 'ttp+': TTPP, 'tts+': TTSP,
        'ttbasic': BASIC, 'ttall': ALL}


def caps(rng, s):
    k = rng.random()
    if k < .5:
        return s
    if k < .7:
        return s.upper()
    return ''.join(rng.choice([c, c.upper()]) for c in s)


def expand(names):
    out = set()
    for n in names:
        out |= set(SETS.get(n.lower(), [n]))
    return out


def rnd_list(rng, rows):
    out = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < .35:
            out.append(caps(rng, rng.choice(sorted(SETS))))
        elif k < .7:
            out.append(rng.choice(ALL))
        elif k < .85:
            out.append(''.join(rnd_phase(rng, rows)))
        elif k < .95:
            out.append(rng.choice(['ttq', 'tt', 'ttp ', 'ttpp', 'ttall+',
                                   'TT', '2kmps', 'PKp', '']))
        else:
            out.append(rnd_string(rng))
    if rng.random() < .4:
        out.append(rng.choice(out))
    rng.shuffle(out)
    return out


def c03n_cases(rng, tier):
    rows = M.rows_lvz()
    while True:
        yield {'lists': [rnd_list(rng, rows) for _ in range(40)]}


@oracle('C03', 'names', c03n_cases, 0.3)
def c03_names(case):
    """Expansion of shorthands against literal phase sets."""
    from taupy.TauP_Time import parsePhaseList, getPhaseNames
    for l in case['lists']:
        got = list(parsePhaseList(list(l)))
        need(len(got) == len(set(got)), '%r gives a phase twice: %r', l, got)
        need(set(got) == expand(l), '%r expands to %r', l, sorted(got))
        for n in l:
            need(set(getPhaseNames(n)) == expand([n]), '%r stands for %r', n,
                 getPhaseNames(n))


def c03_cases(rng, tier):
    while True:
        for n in M.pool(rng, tier)[:8]:
            rows = M.rows_of(n)
            d = M.pick_depth(rng, n)
            if d > 900:
                d = round(rng.uniform(0, 700), 1)
            for _ in range(3):
                yield {'model': n, 'depth': d,
                       'deg': rng.choice([0.0, 180.0, rng.uniform(0, 30),
                                          rng.uniform(0, 180),
                                          rng.uniform(80, 180)]),
                       'list': rnd_list(rng, rows),
                       'kind': rng.choice(['times', 'times', 'times',
                                           'pierce', 'path'])}


def key(a):
    return (a.name, a.time, a.rayParam, a.dist, a.takeoffAngle,
            a.incidentAngle)


@oracle('C03', 'union', c03_cases)
def c03_union(case):
    """A list of phases against each phase on its own."""
    from taupy import tau
    from taupy.SeismicPhase import SeismicPhase
    from taupy.helper_classes import TauModelError
    m = tau.TauPyModel.__new__(tau.TauPyModel)
    m.verbose, m.model = False, M.tmodel(case['model'])
    f = {'times': m.get_travel_times, 'pierce': m.get_pierce_points,
         'path': m.get_ray_paths}[case['kind']]
    arr = f(case['depth'], case['deg'], list(case['list']))
    c = M.corrected(case['model'], case['depth'])
    want = []
    for n in sorted(expand(case['list'])):
        try:
            ph = SeismicPhase(n, c)
        except TauModelError:
            continue
        want += [key(a) for a in ph.calcTime(case['deg'])]
    got = [key(a) for a in arr]
    miss = [k[:2] for k in want if k not in got]
    extra = [k[:2] for k in got if k not in want]
    need(sorted(got) == sorted(want), '%r at %r deg, %r km: %d arrivals, the '
         'phases alone give %d (missing %r, extra %r)', case['list'],
         case['deg'], case['depth'], len(got), len(want), miss[:4],
         extra[:4])
    if case['kind'] == 'times':
        ts = [a.time for a in arr]
        need(ts == sorted(ts), '%r: arrival times %r are not in order',
             case['list'], ts)
        b = m.get_travel_times(case['depth'], case['deg'],
                               [case['list'][0]])
        need(all(key(a) in got for a in b), '%r alone gives other arrivals',
             case['list'][0])


# ---------------------------------------------------------------- C21
NAMES = ['mymodel', 'iasp91', 'my.model', 'a b', 'Prem_x-2', 'm1.5', 'x']


def c21_cases(rng, tier):
    while True:
        n = rng.choice(['lvz', 'jump', 'small', 'solid',
                        'rnd%d' % rng.randint(0, 23)])
        rows = M.rows_of(n)
        d = round(rng.uniform(0, 700), 1)
        q = []
        for _ in range(6):
            q.append([rng.choice([0.0, 35.0, d, round(rng.uniform(0, 650), 1)]),
                      rng.choice([0.0, 180.0, round(rng.uniform(0, 180), 2)]),
                      [rng.choice(['ttbasic', 'ttp', 'ttall', 'S', 'P',
                                   ''.join(rnd_phase(rng, rows))])]])
        yield {'model': n, 'name': rng.choice(NAMES), 'how': rng.choice(
            ['class', 'function', 'plain']), 'queries': q,
            'missing': rng.choice(['nosuch', 'iasp91.foo', 'iasp92', 'IASP9',
                                   'ak135/none', 'x.pickle', 'my'])}


def child(root, what, case, cwd):
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(
        [sys.executable, os.path.join(os.path.dirname(os.path.abspath(
            __file__)), 'c21_child.py'), what], input=json.dumps(case),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
        universal_newlines=True, timeout=120)
    need(p.returncode == 0, '%s failed: %s', what, p.stderr.strip()[-600:])
    return json.loads(p.stdout.strip().split('\n')[-1])


@oracle('C21', 'save and load', c21_cases)
def c21_save(case):
    """A model written by one process and loaded by others."""
    tmp = tempfile.mkdtemp(prefix='verif-c21-')
    try:
        root = os.path.join(tmp, 'src')
        shutil.copytree(os.path.join(M.REPO, 'taupy'),
                        os.path.join(root, 'taupy'),
                        ignore=shutil.ignore_patterns(
                            'tests', '__pycache__', 'models'))
        os.makedirs(os.path.join(root, 'taupy', 'data', 'models'))
        inp = os.path.join(tmp, 'in')
        os.makedirs(inp)
        with open(os.path.join(inp, case['name'] + '.tvel'), 'w') as f:
            f.write('model - P\nmodel - S\n')
            for r in M.rows_of(case['model']):
                f.write(' '.join('%r' % float(x) for x in r) + '\n')
        c = dict(case, tmp=tmp, inp=inp)
        want = child(root, 'create', c, tmp)
        need(want['file'] is not None, 'no model file was written')
        c['file'] = want['file']
        for how in ('name', 'path'):
            got = child(root, how, c, tmp)
            for q, a, b in zip(case['queries'], want['answers'],
                               got['answers']):
                need(a == b, 'model %r loaded by %s answers %r with %s '
                     'instead of %s', case['name'], how, q,
                     json.dumps(b)[:300], json.dumps(a)[:300])
            need(got['model'] == want['model'], 'model %r loaded by %s '
                 'differs: %s', case['name'], how,
                 [k for k in want['model']
                  if got['model'].get(k) != want['model'][k]])
        got = child(root, 'missing', c, tmp)
        need(got['loaded'] is None, '%r was never created but loads %r',
             case['missing'], got['loaded'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
