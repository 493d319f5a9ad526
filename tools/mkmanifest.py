#!/usr/bin/env python3
"""writes MANIFEST.json from the property table"""
import sys, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'lib'))
from nsa import props, registry
ps = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
NA = getattr(registry, 'NA', {})
checks = [{'property': p, 'quick_cmd': 'python3 checks/run.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py %s' % p,
  'technique': registry.INFO[p]['technique'], 'level': props.PROPS[p]['level'], 'level_note': registry.INFO[p]['note']} for p in ps if p in registry.INFO]
na = [{'property': p, 'reason': NA.get(p, 'its static check is still being built')} for p in ps if p not in registry.INFO]
m = {'version': 1, 'setup_cmd': 'bash lib/setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'not claimed')
