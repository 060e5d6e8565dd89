#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from levels import LEVELS, NA

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    tech, note = LEVELS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py driver unidump lightgrep readerdrv && VARIANT=asan python3 tools/build.py so jni driver', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'One explicit TLA+ specification (spec/), checked with TLC; see DESIGN.md. No hooks: everything is observed through public interfaces.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
