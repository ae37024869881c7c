#!/usr/bin/env python3
"""setup_cmd: checks that the tools the simulator needs are present."""
import os, shutil, subprocess, sys
bad = [t for t in ('g++', 'ninja', '/usr/bin/protoc', '/opt/venv/bin/python') if not shutil.which(t)]
for p in ('/opt/wod/tf/tensorflow/libtensorflow_framework.so.2', '/repo/src/waymo_open_dataset'):
  if not os.path.exists(p):
    bad.append(p)
if bad:
  sys.exit('missing: ' + ', '.join(bad))
subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import numpy, google.protobuf'], check=True)
print('simulator prerequisites present')
