#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from tools/props.py and sim/meta.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/tools', ROOT + '/sim']
sys.dont_write_bytecode = True
import meta, props

TECH = ('deterministic simulation with fault injection: seeded search over workloads, schedules and fault '
        'sequences of the real code under a simulator; ')
checks, na = [], []
for p in props.P:
  i = p['id']
  if any(n['property'] == i for n in props.NA):
    continue
  m = meta.PROPS.get(i)
  if not m:
    na.append(dict(property=i, reason='The simulation of this property is not finished yet.'))
    continue
  checks.append(dict(
      property=i, quick_cmd='python3 -B sim/check.py %s --tier quick' % i,
      thorough_cmd='python3 -B sim/check.py %s --tier thorough' % i,
      technique=TECH + m['oracle'], level='exploration', level_note=m['rule']))
with open(ROOT + '/MANIFEST.json', 'w') as f:
  json.dump(dict(
      version=1, setup_cmd='python3 -B sim/selftest.py',
      hooks=dict(guard='none', enable='No hook was needed: the seams are link-time (instrumentation runtime, '
                 'interposed symbols, replaced thread pool) or import-time (Python module substitution).',
                 source_commits=[]),
      checks=checks, not_applicable=na + props.NA), f, indent=1)
  f.write('\n')
with open(ROOT + '/properties.jsonl', 'w') as f:
  for p in props.P:
    f.write(json.dumps(p) + '\n')
print(len(checks), 'checks;', len(na), 'unfinished;', len(props.NA), 'not applicable')
