#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the registry"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vm import registry
NA = registry.NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        t, note = registry.INFO[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': t, 'level': 'other', 'level_note': note})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: a libTooling fact extractor (tools/vmx.cpp) dumps the type-checked, instantiated library; analyses in vm/ decide the properties from it. No /repo code is executed by any check.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
