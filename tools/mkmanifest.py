#!/usr/bin/env python3
# Writes MANIFEST.json from vlib/registry.py (claimed) and NA below.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vlib import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        tech, note = registry.META.get(i, registry.DEFAULT_META)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'mkdir -p build/engine && make -s -j8 -C engine B=$PWD/build/engine', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed;', [x['property'] for x in na])
