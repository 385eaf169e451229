#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from tools/meta.py (the single source)
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from meta import P, NA, NOTES
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d['quantifier'] = {'over': p['over'], 'text': p['forall']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        f.write(json.dumps(d) + '\n')
checks = []
for p in P:
    if not os.path.exists(f"{V}/checks/{p['id']}.cpp"): continue
    checks.append({'property': p['id'], 'quick_cmd': f"./run.sh {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./run.sh {p['id']}",
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': p.get('technique', 'model checking: exhaustive stateless enumeration of bounded inputs/histories on the real code'),
                   'level': 'model_checking', 'level_note': p['note']})
na = [{'property': k, 'reason': v} for k, v in NA.items()]
have = {c['property'] for c in checks} | set(NA)
for p in P:
    if p['id'] not in have: na.append({'property': p['id'], 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
