#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
import props, checks
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'C3P_VERIF_HOOKS', 'enable': 'harness/Makefile compiles the library with -DC3P_VERIF_HOOKS (no code is guarded by it at present: the monitors attach to public interfaces, the platform layer and the sanitizers)', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props.P:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
          'technique': 'runtime monitoring: ' + c.get('tech', 'on-line model oracle over randomized and hostile histories, under AddressSanitizer + UBSan with a heap-balance monitor'),
          'level': 'exploration',
          'level_note': c.get('note', 'Every explored execution was judged by the oracle; nothing is claimed of executions not explored. Trusts the reference model in the harness, gcc\'s sanitizers and the virtual clock.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': checks.NOT.get(i, 'No check is registered yet: its harness is being built.')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
