#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    c = checks.CHECKS.get(p['id'])
    if not c:
        m['not_applicable'].append({'property': p['id'], 'reason': 'check under construction'})
        continue
    m['checks'].append({
        'property': p['id'], 'quick_cmd': 'python3 tools/check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p['id'],
        'technique': c.technique, 'level': c.level, 'level_note': c.note})
m['notes'] = 'No hooks: every observation goes through the public interface of the templates. Known findings: KNOWN_FINDINGS.'
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
