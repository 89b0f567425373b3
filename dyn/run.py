"""Run the bounded oracles of one property (under the project's Python)."""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from dyn import base  # noqa

MODS = ['o_velocity', 'o_slowness', 'o_tau', 'o_phase', 'o_api']


def load():
    for m in MODS:
        if os.path.exists(os.path.join(os.path.dirname(
                os.path.abspath(__file__)), m + '.py')):
            importlib.import_module('dyn.' + m)


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def one(o, case, limit=60):
    """None, or the message of the violation."""
    import signal
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with base.quiet():
            o.run(case)
        return None
    except base.Bad as e:
        return str(e)
    except Timeout:
        return 'no answer within %d s' % limit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                 for f in tb[-3:]]
        return 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300],
                                           '; '.join(where))
    finally:
        signal.alarm(0)


def search(pid, tier, seed, budget, worker=0, workers=1, maxcases=10 ** 9):
    res = {'evaluations': 0, 'distinct': 0, 'oracles': {}, 'violation': None,
           'samples': []}
    os_ = base.ORACLES.get(pid, [])
    tot = sum(o.weight for o in os_) or 1
    seen = set()
    for o in os_:
        rng = random.Random('%s-%s-%s-%d' % (seed, pid, o.name, worker))
        end = time.time() + budget * o.weight / tot
        n = 0
        gen = o.cases(rng, tier)
        while True:
            try:
                with base.quiet():
                    case = next(gen)
            except StopIteration:
                break
            except Exception as e:
                # building the inputs runs the code under test, too
                tb = traceback.extract_tb(e.__traceback__)
                res['violation'] = {
                    'property': pid, 'oracle': o.name, 'case': None,
                    'message': 'unexpected %s while building the inputs: '
                    '%s (%s)' % (type(e).__name__, str(e)[:300], '; '.join(
                        '%s:%d %s' % (os.path.basename(f.filename),
                                      f.lineno, f.name) for f in tb[-3:]))}
                break
            if time.time() > end and n > 0 or n >= maxcases:
                break
            msg = one(o, case)
            n += 1
            seen.add(hash(json.dumps(case, sort_keys=True)))
            if len(res['samples']) < 8 and n <= 2:
                res['samples'].append({'oracle': o.name, 'case': case})
            if msg is not None:
                res['violation'] = {'property': pid, 'oracle': o.name,
                                    'case': case, 'message': msg}
                break
        res['evaluations'] += n
        res['oracles'][o.name] = [n, o.rule]
        if res['violation']:
            break
    res['distinct'] = len(seen)
    res['known'] = dict(base.KNOWN)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--workers', type=int, default=1)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--replay')
    ap.add_argument('--out')
    a = ap.parse_args()
    load()
    if a.replay:
        v = json.load(open(a.replay))
        o = [o for o in base.ORACLES[v['property']]
             if o.name == v['oracle']][0]
        msg = one(o, v['case'])
        print(msg or 'held')
        sys.exit(1 if msg else 0)
    if a.workers > 1:
        import multiprocessing as mp
        with mp.get_context('fork').Pool(a.workers) as pool:
            rs = pool.starmap(search, [(a.pid, a.tier, a.seed, a.budget, w,
                                        a.workers, a.max)
                                       for w in range(a.workers)])
        res = rs[0]
        for r in rs[1:]:
            res['evaluations'] += r['evaluations']
            res['distinct'] += r['distinct']
            res['violation'] = res['violation'] or r['violation']
            res['known'].update(r['known'])
            for k, v in r['oracles'].items():
                if k in res['oracles']:
                    res['oracles'][k][0] += v[0]
                else:
                    res['oracles'][k] = v
    else:
        res = search(a.pid, a.tier, a.seed, a.budget, maxcases=a.max)
    txt = json.dumps(res)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(txt)
    else:
        v = res['violation']
        print(a.pid, res['evaluations'], {k: x[0] for k, x in
                                          res['oracles'].items()},
              json.dumps(v)[:1500] if v else 'ok')


if __name__ == '__main__':
    main()
