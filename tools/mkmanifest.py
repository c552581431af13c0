#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, TECH
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
assert sorted(PLAN) == sorted(ids), set(PLAN) ^ set(ids)
checks = []
for i in ids:
    p = PLAN[i]
    var = sorted(set(r['variant'] for r in p['runs']))
    note = 'Holds on every execution observed, not for all inputs. ' + 'Cases: ' + p['rule'] + '. Trusts: ' + '; '.join(p.get('assumptions', [])) + '.'
    checks.append(dict(property=i, quick_cmd='python3 vp.py check ' + i, thorough_cmd='python3 vp.py check %s --thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH[i], level=p['level'], level_note=note))
m = dict(version=1, setup_cmd='python3 vp.py setup', checks=checks, not_applicable=[],
         notes='No hooks in /repo: every monitor sits at the public API, in interposed libc/OpenMP entry points or in compiler instrumentation. '
               'Each check rebuilds the objects whose sources or headers changed from /repo\'s working tree. known-findings.txt lists repaired defects.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
