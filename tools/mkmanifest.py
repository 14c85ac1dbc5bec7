#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props.registry import SPECS
checks = []
for pid in sorted(SPECS):
    s = SPECS[pid]
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s --tier quick' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=s['technique'], level='other',
                       level_note=s['note'] + ' Sound over the stated inputs up to the assumptions: ' + '; '.join(s['assume'])))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'not_applicable.json')) else []
missing = set(props) - set(SPECS) - {x['property'] for x in na}
assert not missing, missing
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Static analysis only. No hooks in /repo: the drivers in /verif/drivers name the entry points. Genuine defects found were repaired by fix: commits and are listed in known_findings.txt.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
