#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTE = ('Holds for every value of the symbolic characters, choices and orders within the stated bounds (see DESIGN.md and the '
        'evidence file); the code is executed symbolically from the current source, every branch and assertion is decided by z3, '
        'counterexamples are confirmed on the unmodified package. Trusted: the models of str, bytes, dict, set, re and json in vp/ '
        '(sampled paths are replayed on the real interpreter and compared), no md5/hash collisions.')
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(ROOT, 'props', p.lower() + '.py')):
        na.append({'property': p, 'reason': 'harness not written yet'})
        continue
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                   'technique': 'symbolic execution of the package source with z3 deciding every path and assertion (bounded)',
                   'level': 'model_checking', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import vp.engine"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks instrument a copy of the source in memory. Repairs are listed in known_findings.json.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
