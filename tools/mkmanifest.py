"""writes MANIFEST.json from tools/claims.json-like table below"""
import json
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/claims.py').read())
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the contracts live beside the code in /verif/specs and are checked against clang\'s AST of the current sources.'}
for p in P:
    i = p['id']
    if i in CLAIMS:
        c = CLAIMS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'technique': c.get('technique', TECH), 'level': c.get('level', 'proof'), 'level_note': c['note']})
    else: m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
