#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'P01': 'The assembled system and its solution live inside dolfin/PETSc (compiled third-party code); the repository only hands over forms and calls solve(), so no contract on code in /repo can express or decide that the returned vector satisfies the discrete equation.'}
LEVEL = {}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=TECH.get(i, TECH_DEFAULT), level=LEVEL.get(i, 'exploration'), level_note=NOTE.get(i, NOTE_DEFAULT)))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hooks in /repo. The commits on top of the pinned one are repairs of genuine defects (KNOWN_FINDINGS.txt).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
