#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/registry.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'lib'))
import registry
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p)
    if c:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s thorough' % p,
                       'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        na.append({'property': p, 'reason': registry.NOT_APPLICABLE.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks build the library sources of /repo unchanged and use its public interface', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': 'TLA+ specifications in spec/, checked with TLC; drivers in harness/; see DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
