#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if i in CHECKS:
    c = CHECKS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'TLA+ specification; TLC trace validation of recorded executions' +
                     ('; exhaustive TLC design models' if c.get('designs') else '') +
                     ('; replay of TLC-generated behaviours' if c.get('gen') else ''),
                   'level': 'model_checking',
                   'level_note': c.get('note') or 'Every recorded call must be a step of the TLA+ specification; assurance covers the executions explored (see DESIGN.md). Trusts TLC and the tensor recorder.'})
  else:
    na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the public API exposes the abstract state, so executions are recorded from outside.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
