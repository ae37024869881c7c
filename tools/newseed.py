#!/usr/bin/env python3
"""newseed.py ID PROPERTY: records the uncommitted change in /repo as a planted bug and reverts it.

Reads the texts from stdin as two lines: needs, what_it_breaks. DEMO files are copied from /tmp/demo-ID.cc.
"""
import json, os, shutil, subprocess, sys
sid, prop = sys.argv[1:3]
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
assert diff.strip() or os.path.exists(d + '/patch.diff')
if diff.strip():
  open(d + '/patch.diff', 'wb').write(diff)
needs, what = sys.stdin.read().strip().split('\n')[:2]
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
if len(sys.argv) > 3:
  for f in sys.argv[3:]:
    src, _, dst = f.partition('=')
    shutil.copy(src, d + '/' + (dst or os.path.basename(src)))
subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
