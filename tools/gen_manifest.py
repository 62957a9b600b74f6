#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC; '
CHECKS = json.load(open(os.path.join(V, 'tools', 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='bin/check ' + i, thorough_cmd='VERIF_TIER=thorough bin/check ' + i,
                                evidence_file='evidence/%s.json' % i, technique=T + c['technique'], level='model_checking',
                                level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason='not claimed yet: machinery under construction'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
