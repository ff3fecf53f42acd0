#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from specs import registry
from tools import notes
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in registry.PROPS:
        checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                       'technique': 'contracts on the real functions, VC generation from the clang AST, SMT discharge',
                       'level': registry.PROPS[p].get('level', 'proof'), 'level_note': notes.NOTES.get(p, notes.DEFAULT)})
    else: na.append({'property': p, 'reason': notes.NA.get(p, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import ccv.verify, specs.registry"', 'checks': checks, 'not_applicable': na,
           'notes': 'A check generates every obligation from /repo\'s current sources on each run. No hooks were added to /repo.'}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
