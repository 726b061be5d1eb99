#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
sys.path.insert(0, V + '/tools')
from claims import CLAIMS, NA
checks = []
for p in props:
    if p['id'] in CLAIMS:
        checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
          'technique': 'contract-based deductive verification of the MIR of the real functions (path-wise symbolic execution, z3 and algebraic normalisation), counterexamples replayed on the compiled code',
          'level': 'proof', 'level_note': CLAIMS[p['id']]})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'no check yet: the contracts for this property are still being built')} for p in props if p['id'] not in CLAIMS]
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. No hooks in /repo: the checks mirror /repo/src into build/ and append a module of contract clients there.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
