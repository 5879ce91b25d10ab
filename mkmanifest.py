#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
CLAIMED = set(open(os.path.join(V, 'claimed.txt')).read().split())
PURE = 'Pure function of one in-memory mesh on one process: no schedule, message, clock, I/O or fault can influence it, so deterministic simulation has nothing to decide.'
TODO = 'Workload of the simulator not built yet.'
NOTE = ('Seeded search over simulated executions of the real library: holds on every execution explored (counts in the evidence file), not a proof. '
        'Trusts the simulated MPI/disk in sim/ to follow the MPI standard and POSIX, and the oracle stated in DESIGN.md.')
m = {'version': 1, 'setup_cmd': 'python3 check.py --build-only', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: all seams are link-time symbols (see DESIGN.md). Evidence level exploration throughout.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py --prop %s --tier quick' % i,
                            'thorough_cmd': 'python3 check.py --prop %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i,
                            'technique': 'deterministic simulation with fault injection',
                            'level': 'exploration', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': PURE if i[0] == 'N' else TODO})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
