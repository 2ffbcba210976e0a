"""writes MANIFEST.json from checks/registry.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H+'/checks'); sys.path.insert(0, H)
import registry
ids = [json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
checks = []
for i in ids:
    if i in registry.P:
        p = registry.P[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py '+i, thorough_cmd='python3 check.py %s --thorough' % i, technique=p['technique'], level=p['level'], level_note=p['note'],
                           evidence_file='evidence/%s.json' % i))
na = [dict(property=i, reason=registry.NA.get(i, 'not built yet')) for i in ids if i not in registry.P]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Contracts and specification functions: checks/; verifier: pv/; runtime contract evaluation and replay: rt/. See DESIGN.md.')
json.dump(m, open(H+'/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na], 'not claimed')
