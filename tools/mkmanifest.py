#!/usr/bin/env python3
# Source of MANIFEST.json (run from /verif: python3 tools/mkmanifest.py)
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, COMPONENTS
ids = [json.loads(l)['id'] for l in open('properties.jsonl') if l.strip()]
NA = {'C24': 'Codecs and parsers are pure functions of their arguments: no clock, scheduling, I/O, randomness or second party whose nondeterminism a simulation could control. '
             'Their behaviour on the bytes that hostile peers can send is covered where it is part of system behaviour (C22).'}
checks = []
for p in ids:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py --property %s --tier quick' % p, thorough_cmd='python3 check.py --property %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p,
        technique='deterministic simulation with fault injection: seeded search over schedules and fault sequences (' + c.get('scenario', c['scn']) + ' scenario)',
        level='exploration',
        level_note=c.get('note', 'Sampled, not exhaustive: every run is one repeatable execution of the real code under a seeded scheduler; the property is checked as invariants during each run and over its history. Trusts the simulated environment and the oracle models; see DESIGN.md.')))
na = [dict(property=p, reason=NA.get(p, 'No check has been built for this property yet.')) for p in ids if p not in CHECKS]
json.dump(dict(version=1, setup_cmd='make -s -j8', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
