#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/sim')
import meta
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
man = json.load(open(R + '/MANIFEST.json'))
na = {n['property']: n['reason'] for n in man['not_applicable']}
find = json.load(open(R + '/known_findings.json'))['findings']
out = [open(R + '/tools/design.md').read().rstrip(), '', '## 5. Properties', '']
seeds = {}
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
  d = json.load(open(m))
  d['id'] = os.path.basename(os.path.dirname(m))
  seeds.setdefault(d['property'], []).append(d)
for p in props:
  i = p['id']
  if i in na:
    continue
  m = meta.PROPS[i]
  sim = ('sim/props/' if m['engine'] == 'cc' else 'sim/py/props/') + m['src'] + ('' if m['engine'] == 'cc' else '.py')
  out += ['### %s %s' % (i, p['title']), '', p['statement'], '',
          '* Ranges over: %s.' % p['quantifier']['text'],
          '* Simulation (`%s`): %s' % (sim, m['rule']),
          '* Oracle: %s.' % m['oracle'],
          '* Real: %s. Stub: %s.' % (m['real'], m['stub']),
          '* Budget: %d runs or %d s (quick), %d runs or %d s (thorough).' % (m['quick'] + m['thorough']),
          '* Beyond the tests: %s' % p['why_tests_cant']]
  if m.get('assumptions'):
    out.append('* Assumes: %s.' % '; '.join(m['assumptions']))
  if i in seeds:
    out.append('* Planted bugs: %s.' % ', '.join(s['id'] for s in seeds[i]))
  out.append('')
out += ['## 6. Not applicable', '']
for p in props:
  if p['id'] in na:
    out.append('* %s %s: %s' % (p['id'], p['title'], na[p['id']]))
out += ['', '## 7. Defects found in the repository', '',
        'Each was shown against the real code by a check of its property and repaired by a separate "fix:" commit, or is '
        'recorded as known. None of the checks was loosened for any of them.', '']
for f in find:
  out.append('* %s' % f['what'] if f['status'] == 'fixed' else '* known: property=%s %s' % (f['property'], f['what']))
out += ['', '## 8. Planted bugs', '',
        '`tools/tryseed.sh ID` applies one in /repo, builds, runs the stable tests, the demonstration and the check, and '
        'undoes it. All of those listed pass the stable tests; "caught by" is the violation class the quick check reports.',
        '', '| id | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(R + '/tools/caught.json'))
for i in sorted(seeds):
  for s in seeds[i]:
    out.append('| %s | %s | %s | %s |' % (s['id'], i, s['needs'].rstrip('.'), caught.get(s['id'], 'not recorded')))
out += ['', open(R + '/tools/design_tail.md').read().rstrip(), '']
open(R + '/DESIGN.md', 'w').write('\n'.join(out))
