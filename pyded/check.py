"""Check of one property: discharge the contracts, run the bounded oracles,
write the evidence and give the verdict."""
import argparse
import ast
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
BASE = os.path.join(HERE, 'baseline.json')
KNOWN = os.path.join(HERE, 'known_findings.json')
IDEAL = [
    'pyded: the verification condition generator in /verif/pyded (Python '
    'subset semantics, heap model with one map per field)',
    'z3 (SMT back end of pyded)',
    'floats are treated as real numbers; NaN, infinities and rounding are '
    'outside the proof and are left to the bounded part',
    'sin, cos, log, exp, atan2, sqrt are uninterpreted functions with the '
    'axioms listed in pyded/engine.py:mathfn',
    'partial correctness except for loops with a decreases clause',
    'print and debug output is dropped from the translated code',
]


def norm_hash(node):
    n = ast.parse(ast.unparse(node)).body[0]
    b = n.body
    if b and isinstance(b[0], ast.Expr) and isinstance(
            b[0].value, ast.Constant):
        n.body = b[1:] or [ast.Pass()]
    return hashlib.sha256(ast.dump(n).encode()).hexdigest()[:16]


_st = {}


def specs():
    if not _st:
        from .contracts import Specs
        from .source import Program
        _st['s'], _st['p'] = Specs(), Program()
    return _st['s'], _st['p']


def key_of(con):
    return con.name if con.lemma else con.target


def run_one(key, timeout):
    from . import verify as V
    s, p = specs()
    t0 = time.time()
    try:
        r = V.verify(key, timeout=timeout, prog=p, specs=s)
        d = {'key': key, 'name': r.name, 'status': r.status,
             'reason': r.reason, 'obls': r.obls, 'used': list(r.used),
             'inlined': list(r.inlined), 'assumed': list(r.assumed),
             'seconds': r.seconds, 'props': r.props}
    except Exception:
        d = {'key': key, 'name': key, 'status': 'undecided',
             'reason': 'internal: ' + traceback.format_exc()[-600:],
             'obls': [], 'used': [], 'inlined': [], 'assumed': [],
             'seconds': time.time() - t0, 'props': []}
    hs = {}
    for q in [key] + sorted(d['inlined']):
        try:
            f = p.find(q)
        except ValueError:
            f = None
        if f is not None:
            hs[q] = norm_hash(f.node)
    d['hashes'] = hs
    return d


def contracts_of(pid):
    s, p = specs()
    return [key_of(c) for c in list(s.contracts.values()) +
            list(s.lemmas.values())
            if pid in c.props and not c.trusted and not c.inline_always]


def closure(keys, pool, timeout):
    """Verify the contracts and, transitively, those their proofs rely on."""
    s, p = specs()
    by_name = {c.name: key_of(c) for c in list(s.contracts.values()) +
               list(s.lemmas.values())}
    done, todo, trusted = {}, list(keys), set()
    futs = {}
    while todo or futs:
        for k in todo:
            if k not in done and k not in futs.values():
                futs[pool.submit(run_one, k, timeout)] = k
        todo = []
        if not futs:
            break
        ok, _ = cf.wait(list(futs), return_when=cf.FIRST_COMPLETED)
        for f in ok:
            k = futs.pop(f)
            d = f.result()
            done[k] = d
            for nm in d['used']:
                c = s.contracts.get(by_name.get(nm))
                if c is not None and c.trusted:
                    trusted.add(nm)
                elif by_name.get(nm) and by_name[nm] not in done:
                    todo.append(by_name[nm])
    return done, trusted


def dynamic(pid, tier, seed, budget, workers, out):
    env = dict(os.environ, PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'),
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return subprocess.Popen(
        [PY, os.path.join(HERE, 'dyn', 'run.py'), pid, '--tier', tier,
         '--seed', str(seed), '--budget', str(budget), '--workers',
         str(workers), '--out', out], env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)


def read_dyn(proc, out, limit):
    try:
        txt, _ = proc.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        proc.kill()
        return {'error': 'bounded part did not finish within %d s' % limit}
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        return {'error': 'bounded part failed: ' + txt.decode(
            'utf8', 'replace')[-1500:]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--baseline', action='store_true')
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        v = json.load(open(a.replay))
        if 'oracle' not in v:
            r = run_one(v['obligation_of'], 20)
            print(json.dumps(r, indent=1)[:3000])
            sys.exit(0 if r['status'] == 'ok' else 1)
        sys.exit(subprocess.call(
            [PY, os.path.join(HERE, 'dyn', 'run.py'), a.pid, '--replay',
             a.replay], env=dict(os.environ, PYTHONPATH=os.environ.get(
                 'VERIF_REPO', '/repo'))))
    pid, tier, t0 = a.pid, a.tier, time.time()
    quick = tier != 'thorough'
    budget = a.budget or (10 if quick else 150)
    timeout = 8.0 if quick else 40.0
    tmp = tempfile.mkdtemp(prefix='verif-chk-')
    out = os.path.join(tmp, 'dyn.json')
    try:
        rc = go(a, pid, tier, quick, budget, timeout, tmp, out, t0)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    sys.exit(rc)


def go(a, pid, tier, quick, budget, timeout, tmp, out, t0):
    base = {}
    if os.path.exists(BASE):
        base = json.load(open(BASE))
    problems, notes = [], []
    proc = dynamic(pid, tier, a.seed, budget, a.workers, out)
    try:
        keys = contracts_of(pid)
        srcerr = None
    except SyntaxError as e:
        keys, srcerr = [], str(e)
    res, trusted = {}, set()
    if keys:
        with cf.ProcessPoolExecutor(
                a.workers, mp_context=mp.get_context('fork')) as pool:
            res, trusted = closure(keys, pool, timeout)
            # an obligation that was given up may be the solver's luck: try
            # again for longer
            again = [k for k, d in res.items() if d['status'] == 'failed'
                     and not any(o[3] == 'refuted' for o in d['obls'])]
            for d in pool.map(run_one, again, [timeout * 4] * len(again)):
                res[d['key']] = d
    dyn = read_dyn(proc, out, budget * 3 + 240)
    # ---------------------------------------------------- classify
    failed = []
    for k, d in sorted(res.items()):
        bad = [o for o in d['obls'] if o[3] != 'proved']
        if d['status'] == 'undecided':
            notes.append('UNDECIDED %s: %s' % (k, d['reason'].strip()
                                               .split('\n')[-1]))
        elif bad:
            if same_text(d, base) and not any(o[3] == 'refuted' for o in bad):
                notes.append('UNDECIDED %s: solver gave up on %d obligations'
                             % (k, len(bad)))
            else:
                failed.append((k, d, bad))
    viol = dyn.get('violation')
    if viol is None and failed and not dyn.get('error'):
        # look longer for an input that shows the violation
        extra = 45 if quick else 240
        p2 = dynamic(pid, 'thorough', a.seed + 7919, extra, 8, out)
        d2 = read_dyn(p2, out, extra * 3 + 200)
        viol = d2.get('violation')
        dyn['evaluations'] += d2.get('evaluations', 0)
        dyn['distinct'] += d2.get('distinct', 0)
        dyn['known'].update(d2.get('known', {}))
    listed = {f['key']: f for f in load_known() if f.get('property') == pid
              and f.get('status') == 'known'}
    lines, nviol = [], 0
    rdir = os.path.join(HERE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for k, case in sorted((dyn.get('known') or {}).items()):
        if k in listed:
            lines.append('KNOWN-FINDING: property=%s %s' % (
                pid, listed[k]['what']))
        elif viol is None:
            viol = {'property': pid, 'oracle': k, 'case': case,
                    'message': 'unlisted finding ' + k}
    if viol:
        path = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.sha256(
            json.dumps(viol, sort_keys=True).encode()).hexdigest()[:10]))
        viol['failed_obligations'] = [
            {'of': k, 'obligation': o[:4]} for k, d, bad in failed
            for o in bad][:20]
        viol['how_to_replay'] = 'bin/check %s --replay %s' % (pid, path)
        with open(path, 'w') as f:
            json.dump(viol, f, indent=1)
        lines.append('  %s' % viol['message'])
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        nviol += 1
    elif failed:
        k, d, bad = failed[0]
        path = os.path.join(rdir, '%s-%s.json' % (pid, k.replace('.', '_')))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'obligation_of': k,
                       'named_obligation': '%s: %s (line %s of %s)' % (
                           bad[0][0], bad[0][1], bad[0][2], bad[0][5]),
                       'all_failed': [[kk, o[:4]] for kk, dd, b in failed
                                      for o in b][:60],
                       'verifier_output': 'z3 does not accept the obligation '
                       '(%s)' % bad[0][3]}, f, indent=1)
        lines.append('  %s: obligation not accepted: %s %s' % (
            k, bad[0][0], bad[0][1]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found'
                     % (pid, path))
        nviol += 1
    # ---------------------------------------------------- evidence
    nob = sum(len(d['obls']) for d in res.values())
    nok = sum(1 for d in res.values() for o in d['obls'] if o[3] == 'proved')
    ev = {'property': pid, 'tier': 'quick' if quick else 'thorough',
          'seed': a.seed, 'level': level_of(pid), 'violations': nviol,
          'wall_s': round(time.time() - t0, 2), 'assumptions': IDEAL + sorted(
              set(x for d in res.values() for x in d['assumed'])),
          'coverage': {
              'explanation': 'Discharged obligations of the functions listed '
              'below are proofs for all inputs (floats as reals); the '
              'evaluations are a bounded runtime check of the same property '
              'on the running code and are not counted as proved.',
              'obligations': nob, 'discharged': nok,
              'checker_cmd': 'PYTHONPATH=/verif python3-vt -m pyded.verify '
              + ' '.join(sorted(res)[:60]),
              'trusted_base': IDEAL[:3] + ['trusted contract ' + x
                                           for x in sorted(trusted)],
              'back_end': 'z3 %s' % z3v(),
              'solver_s': round(sum(o[4] for d in res.values()
                                    for o in d['obls']), 2),
              'functions': [
                  {'function': k, 'status': d['status'],
                   'obligations': len(d['obls']),
                   'discharged': sum(1 for o in d['obls']
                                     if o[3] == 'proved'),
                   'inlined': sorted(d['inlined'])[:12],
                   'seconds': round(d['seconds'], 2)}
                  for k, d in sorted(res.items())],
              'evaluations': dyn.get('evaluations', 0),
              'distinct_nontrivial': dyn.get('distinct', 0),
              'rule': 'BOUNDED stand-in and counterexample search, not part '
              'of the proof: ' + '; '.join(
                  '%s (%d cases): %s' % (k, v[0], v[1]) for k, v in sorted(
                      (dyn.get('oracles') or {}).items())),
              'samples': (dyn.get('samples') or [])[:4],
              'notes': notes,
          }}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        ev['coverage']['samples'] = []
        txt = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        f.write(txt)
    for n in notes:
        print(n)
    for ln in lines:
        print(ln)
    if dyn.get('error'):
        print(dyn['error'])
    print('%s: %d functions under contract, %d/%d obligations discharged, '
          '%d bounded cases, %.1f s' % (pid, len(res), nok, nob,
                                        dyn.get('evaluations', 0),
                                        time.time() - t0))
    if a.v:
        for k, d in sorted(res.items()):
            print('   %-42s %-9s %d  %.1fs %s' % (
                k, d['status'], len(d['obls']), d['seconds'], d['reason']))
    if nviol:
        return 1
    if dyn.get('error') or srcerr:
        print(srcerr or '')
        return 2
    if keys and nob == 0 and not notes:
        print('no obligations were generated')
        return 2
    if not keys and not dyn.get('evaluations'):
        print('nothing was checked')
        return 2
    return 0


def same_text(d, base):
    b = base.get(d['key'])
    return b is not None and b == d['hashes']


def level_of(pid):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'proof'


def load_known():
    try:
        return json.load(open(KNOWN))['findings']
    except Exception:
        return []


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
