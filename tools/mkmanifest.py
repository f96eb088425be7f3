#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import campaign as C
NA = {
    'C20': 'pure function of its input: no schedule, clock, I/O or fault for a simulator to control (data formats still run inside the C17 and C18 campaigns)',
    'C21': 'pure function of its input: nothing nondeterministic to simulate (suffix arrays still run inside the C17 and C18 campaigns)',
}
for a in sys.argv[1:]:
    NA[a] = 'check under construction'
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique='deterministic simulation with fault injection (seeded search)', level='exploration',
                       level_note=C.INFO[i]['note'] if 'note' in C.INFO[i] else
                       'Seeded search over generated scenarios and fault schedules, not exhaustive; real code: %s. Trusted: the simulated environment and the reference model (%s).' % (C.INFO[i]['real'], C.INFO[i]['stub'])))
m = dict(version=1, setup_cmd='python3 build.py && python3 -c "from pysim import pybuild; pybuild.engine()"' if os.path.exists(os.path.join(HERE, 'pysim', 'pybuild.py')) else 'python3 build.py',
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks in /repo: callbacks, allocator wrapping, stdio cookies and Python file objects are seams enough.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
