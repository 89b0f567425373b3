"""Verify everything; record the text of the functions.

On the recorded text an obligation that is given up (not refuted) is the
solver's luck and not an alarm.  Run it only when every obligation is proved
(one by one, where the machine was too busy): what it prints says which not.
"""
import concurrent.futures as cf
import json
import multiprocessing as mp
import sys
from . import check as C


def main():
    s, p = C.specs()
    keys = [C.key_of(c) for c in list(s.contracts.values()) +
            list(s.lemmas.values()) if not c.trusted]
    base, bad = {}, 0
    with cf.ProcessPoolExecutor(7, mp_context=mp.get_context('fork')) as pool:
        for d in pool.map(C.run_one, keys, [8.0] * len(keys)):
            n = len(d['obls'])
            k = sum(1 for o in d['obls'] if o[3] == 'proved')
            base[d['key']] = d['hashes']
            bad += d['status'] != 'ok'
            print('%-48s %-9s %4d/%-4d %5.1fs %s' % (
                d['key'], d['status'], k, n, d['seconds'],
                d['reason'].strip().split('\n')[-1][:90]))
            for o in d['obls']:
                if o[3] != 'proved':
                    print('      ', o[:4])
    json.dump(base, open(C.BASE, 'w'), indent=0, sort_keys=True)
    print(len(base) - bad, 'proved,', bad, 'not')


if __name__ == '__main__':
    main()
