#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = [p['id'] for p in props if plans.claimed(p['id'])]
m = dict(version=1, setup_cmd='python3 tools/setup.py',
  checks=[dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p, thorough_cmd='python3 tools/check.py %s thorough' % p,
               technique=plans.technique(p), level=plans.LEVEL.get(p, 'model_checking'), level_note=plans.level_note(p)) for p in claimed],
  not_applicable=[dict(property=p['id'], reason=plans.NA.get(p['id'], 'check not finished yet')) for p in props if p['id'] not in claimed])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
