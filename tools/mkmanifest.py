#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenario modules present in props/."""
import json
import os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
LEVEL = ('seeded search over schedules and fault sequences of the real code under a deterministic simulator; '
         'counts, fault mix and distinct interleavings are in the evidence file')
ids = [json.loads(ln)['id'] for ln in open(os.path.join(D, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in NA or not os.path.exists(os.path.join(D, 'props', i.lower() + '.py')):
        NA.setdefault(i, 'no check yet')
        continue
    checks.append({'property': i,
                   'quick_cmd': '/opt/venv/bin/python dst/driver.py check %s --tier quick' % i,
                   'thorough_cmd': '/opt/venv/bin/python dst/driver.py check %s --tier thorough' % i,
                   'technique': 'deterministic simulation with fault injection: seeded search over simulated schedules, '
                                'delays and faults of the real code, with invariant and history oracles',
                   'level': 'exploration', 'level_note': LEVEL})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python dst/driver.py selftest C01 --runs 4', 'checks': checks,
     'not_applicable': [{'property': a, 'reason': b} for a, b in sorted(NA.items())],
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: every seam is an import seam (the simulator loads the '
                                          'unmodified sources with simulated zmq/os/time/threading modules)',
               'source_commits': []}}
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
