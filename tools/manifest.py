#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table below (claimed checks) and properties.jsonl (everything else is not applicable)"""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from claims import CLAIMS, NA
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
TECH = 'contract-based deductive verification of the real C (goto-cc front end, gvc VC generator, z3/cvc5)'
checks = []
for p in props:
    if p in CLAIMS:
        level, note, thm = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': level, 'level_note': note, 'theorems': thm})
json.dump({'version': 1, 'setup_cmd': 'bin/setup',
           'hooks': {'guard': 'none (no hooks: contracts are injected mechanically into a scratch copy of the source on every run)', 'enable': 'not needed', 'source_commits': []},
           'checks': checks,
           'not_applicable': [{'property': p, 'reason': NA.get(p, 'no check built yet')} for p in props if p not in CLAIMS],
           'notes': 'See DESIGN.md. Every check rebuilds from /repo; VP_REPO overrides the path.'}, open('MANIFEST.json', 'w'), indent=1)
