#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claimed properties and the reasons for the others."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from claims import CLAIMS, NA
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd='python3-vt run.py ' + p, thorough_cmd='python3-vt run.py ' + p,
                           evidence_file='evidence/%s.json' % p, technique=c.get('technique', 'contract-based deductive verification of the real code (LLVM IR), z3/cvc5'),
                           level=c.get('level', 'proof'), level_note=c['note']))
na = [dict(property=p, reason=NA[p]) for p in props if p not in CLAIMS]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='Engine: engine/ (symbolic executor over LLVM IR + contracts); specifications: contracts/; bounded stand-ins and replay: drivers/. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
