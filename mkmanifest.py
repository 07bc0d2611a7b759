#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a check."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT)
from lib import props
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = 'exhaustive model checking of the specification within the constants of its models; conformance of the code by TLC validation of traces recorded from the real application (sampled scenarios, replayed model behaviours)'
LIB = 'TLC checks the specification of the module within small constants and validates recorded operation histories of the real module against it'
checks = []
for i in ids:
    if i not in props.CHECKED: continue
    lib = i in props.LIBRARY
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i, technique='TLA+ specification, TLC model checking and trace validation of the real code',
        level='model_checking', level_note=LIB if lib else NOTE))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=[dict(property=i, reason='no check yet') for i in ids if i not in props.CHECKED],
         notes='Specification in TLA+ (spec/), harness for the whole application in harness/, scenarios and runner in lib/. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
