#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {'C15': 'fault_enumeration'}
TECH = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
claimed = [p for p in props if p in TECH]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in claimed:
    t = TECH[p]
    m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                        'technique': t['technique'], 'level': LEVEL.get(p, 'exploration'), 'level_note': t['note']})
for p in props:
    if p not in TECH:
        m['not_applicable'].append({'property': p, 'reason': 'check not registered yet'})
m['notes'] = 'No hooks in /repo: the monitors use the public API, sanitizers and interposed libc calls. Known findings: known-findings.txt.'
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
