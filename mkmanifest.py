#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks (run after adding one)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
from manifest_data import CHECKS, NA

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x)['id'] for x in open(os.path.join(here, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'make -C extractor',
     'checks': [{'property': p, 'quick_cmd': f'python3 checks/{p}.py', 'thorough_cmd': f'VERIF_TIER=thorough python3 checks/{p}.py', 'technique': t, 'level': 'other', 'level_note': note}
                for p, (t, note) in CHECKS.items()],
     'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()]}
for p in props:
    assert (p in CHECKS) != (p in NA), p
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
