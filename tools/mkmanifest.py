#!/usr/bin/env python3
"""Write MANIFEST.json from checks.PROPS and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in checks.PROPS:
        s = checks.PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                            'technique': s['technique'], 'level': s['level'], 'level_note': s.get('note') or s['explanation'] + ' ' + checks.TRUST})
    else:
        m['not_applicable'].append({'property': i, 'reason': checks.NA.get(i, 'no check has been built for it yet')})
m['notes'] = 'No hooks in /repo. The changes to /repo are repairs only ("fix:" commits); they are listed in known_findings.json.'
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
