"""Write /verif/MANIFEST.json from the contracts and the notes below.

PYTHONPATH=/verif python3-vt tools/mkmanifest.py
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyded import check  # noqa: E402
from tools.levels import NOTES, UNCLAIMED  # noqa: E402

BACK = ('contracts on the real functions, discharged by pyded + z3 from '
        "/repo's current source on every run")
props = [json.loads(ln) for ln in open(os.path.join(HERE,
                                                    'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    keys = check.contracts_of(pid)
    if pid in UNCLAIMED or not keys:
        na.append({'property': pid, 'reason': UNCLAIMED.get(
            pid, 'no contract yet')})
        continue
    level, note = NOTES.get(pid, ('other', ''))
    checks.append({
        'property': pid,
        'quick_cmd': 'bin/check %s --tier quick' % pid,
        'thorough_cmd': 'bin/check %s --tier thorough' % pid,
        'technique': 'contract-based deductive verification (%s)%s' % (
            BACK, '' if level == 'proof' else
            '; bounded runtime contract checking for the rest'),
        'level': level,
        'level_note': ('Under contract for this property: %s. %s' % (
            ', '.join(sorted(keys)), note)).strip(),
    })
    if level == 'proof':
        checks[-1]['theorems'] = sorted(keys)
m = {'version': 1,
     'setup_cmd': 'bin/setup',
     'checks': checks, 'not_applicable': na,
     'notes': 'pyded (in /verif/pyded) generates the verification conditions '
     'from the Python source of /repo on every run and discharges them with '
     'z3; see DESIGN.md. Each check also runs a bounded search (dyn/) that '
     'supplies replayable counterexamples and stands in, labelled bounded, '
     'for functions without a contract.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed;', [x['property'] for x in na])
