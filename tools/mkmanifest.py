#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
exec(open(V + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())) and i in CLAIMS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=CLAIMS[i][0], level='model_checking', level_note=CLAIMS[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='python3 -c "import vlib"', checks=checks, not_applicable=na,
    notes='TLA+ specifications (specs/*.tla) checked with TLC and bound to the code by trace validation; see DESIGN.md. Hooks: none, the harnesses use the public API only.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
