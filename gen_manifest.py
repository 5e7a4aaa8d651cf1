#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
TECH = 'runtime monitoring: the real code under seeded workloads, a reference-model oracle on every result, repeated under ASan/UBSan and a schedule-controlling OpenMP runtime'
NOTE = 'Held on the executions listed in the evidence file; nothing is said about inputs or schedules not driven. Trusts the compiler, its sanitizers and the reference model in the harness.'
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': []}
for i in ids:
    c = checks.CHECKS.get(i)
    if not c:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'}); continue
    m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py check %s quick' % i, 'thorough_cmd': 'python3 run.py check %s thorough' % i,
        'technique': c.get('technique', TECH), 'level': c.get('level', 'exploration'), 'level_note': c.get('note', NOTE)})
with open('MANIFEST.json', 'w') as f: f.write(json.dumps(m, indent=1) + '\n')
