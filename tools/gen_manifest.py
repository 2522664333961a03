#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: harnesses link the unmodified sources of /repo', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    c = checks.CHECKS.get(p)
    if c and not c.get('disabled'):
        m['checks'].append({'property': p, 'quick_cmd': 'python3 tools/run.py %s --tier quick' % p,
            'thorough_cmd': 'python3 tools/run.py %s --tier thorough' % p,
            'technique': c['technique'], 'level': 'model_checking', 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': (c or {}).get('disabled') or checks.NOT_APPLICABLE.get(p, 'check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
