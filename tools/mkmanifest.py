#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='sh setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        fn, level, rule = checks.CHECKS[i]
        out['checks'].append(dict(property=i, quick_cmd='sh check.sh %s quick' % i, thorough_cmd='sh check.sh %s thorough' % i,
                                  evidence_file='evidence/%s.json' % i,
                                  technique=checks.TECH.get(i, 'TLA+ specification; TLC-generated programs replayed in the code; TLC trace validation'),
                                  level=level, level_note=checks.NOTE.get(i, checks.DEFAULT_NOTE)))
    else:
        out['not_applicable'].append(dict(property=i, reason=checks.NA.get(i, 'check under construction')))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks')
