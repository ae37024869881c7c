#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's working tree into a directory.

  build.py OUT sim PROPFILES...     one binary OUT/simcc
"""
import glob, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WODSIM_REPO', '/repo')
SRC = REPO + '/src'
W = 'waymo_open_dataset/'
TF = '/opt/wod/tf/tensorflow'

# Library sources come from the directories themselves, so a file that a change
# adds is picked up.
LIB_DIRS = ['common', 'math', 'metrics', 'wdl_limited/camera', 'metrics/ops', 'wdl_limited/camera/ops']
SKIP = ('_test.cc', 'test_utils.cc', '_main.cc')


def lib_sources(ops, dirs=()):
  out = []
  for d in LIB_DIRS + list(dirs):
    if d.endswith('/ops') and not ops:
      continue
    for f in sorted(glob.glob('%s/%s%s/*.cc' % (SRC, W, d))):
      if not f.endswith(SKIP):
        out.append(f)
  return out


def esc(s):
  return s.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')


class Ninja:
  def __init__(self, out):
    self.out, self.lines = out, []

  def rule(self, name, cmd, **kw):
    self.lines.append('rule %s\n  command = %s' % (name, cmd))
    for k, v in kw.items():
      self.lines.append('  %s = %s' % (k, v))

  def build(self, outs, rule, ins, order=(), **kw):
    s = 'build %s: %s %s' % (' '.join(map(esc, outs)), rule, ' '.join(map(esc, ins)))
    if order:
      s += ' || ' + ' '.join(map(esc, order))
    self.lines.append(s)
    for k, v in kw.items():
      self.lines.append('  %s = %s' % (k, v))

  def run(self):
    with open(self.out + '/build.ninja', 'w') as f:
      f.write('ninja_required_version = 1.3\n' + '\n'.join(self.lines) + '\n')
    r = subprocess.run(['ninja', '--quiet', '-C', self.out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
      sys.stdout.write(r.stdout.decode(errors='replace')[-6000:])
      raise SystemExit('simulator build failed')


def build(out, props, tools=(), ops=True, dirs=()):
  os.makedirs(out + '/gen', exist_ok=True)
  protos = [p for p in subprocess.run(
      'find waymo_open_dataset -name "*.proto"', shell=True, cwd=SRC,
      stdout=subprocess.PIPE, check=True).stdout.decode().split()]
  protos.sort()
  base = ('-std=c++17 -DNDEBUG -DGOOGLE_PROTOBUF_NO_RDTSC -fPIC -pthread -w -D_GLIBCXX_USE_CXX11_ABI=1 -DEIGEN_MAX_ALIGN_BYTES=64 '
          '-I%s -I%s -I%s/shim -I%s -isystem %s/include -isystem /usr/include/android' %
          (SRC, out + '/gen', HERE, HERE, TF))
  n = Ninja(out)
  # -fno-builtin keeps nothing back; gcc keeps inlined accesses instrumented.
  n.rule('repo', 'g++ %s -O1 -fno-omit-frame-pointer -fsanitize=thread -U__SANITIZE_THREAD__ $flags -MMD -MF $out.d -c $in -o $out' % base,
         depfile='$out.d', deps='gcc')
  n.rule('own', 'g++ %s -O1 -g1 $flags -MMD -MF $out.d -c $in -o $out' % base, depfile='$out.d', deps='gcc')
  n.rule('pb', 'g++ %s -O1 -c $in -o $out' % base)
  n.rule('protoc', 'cd %s && /usr/bin/protoc -I. --cpp_out=%s/gen $protos' % (SRC, out))
  n.rule('link', 'g++ -no-pie -rdynamic -pthread -o $out $in -L%s -Wl,-rpath,%s -l:libtensorflow_framework.so.2 '
         '-L/usr/lib/x86_64-linux-gnu/android -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android '
         '-lglog -lz -ldl $libs' % (TF, TF))
  pbcc = ['gen/' + p[:-6] + '.pb.cc' for p in protos]
  pbh = ['gen/' + p[:-6] + '.pb.h' for p in protos]
  n.build(pbcc + pbh, 'protoc', [SRC + '/' + p for p in protos], protos=' '.join(protos))
  objs = []

  def obj(rule, src, flags='', suffix=''):
    o = 'o/' + src.lstrip('/').replace('/', '_') + suffix + '.o'
    n.build([o], rule, [src], order=() if rule == 'pb' else pbh, flags=flags)
    objs.append(o)
    return o
  for p in pbcc:
    n.build(['o/' + p.replace('/', '_') + '.o'], 'pb', [p], order=pbh)
    objs.append('o/' + p.replace('/', '_') + '.o')
  for s in lib_sources(ops, dirs):
    obj('repo', s)
  for s in tools:
    stem = os.path.basename(s)[:-3].replace('-', '_')
    obj('repo', SRC + '/' + W + s, flags='-Dmain=wodsim_main_' + stem)
  for f in ['rt.cc', 'mem.cc', 'sched.cc', 'pool.cc'] + (['io.cc'] if tools else []):
    obj('own', HERE + '/rt/' + f)
  for f in props:
    obj('own', HERE + '/props/' + f)
  n.build(['simcc'], 'link', objs, libs='-l:libcrypto.so.0' if tools else '')
  n.lines.append('default simcc')
  n.run()
  return out + '/simcc'


if __name__ == '__main__':
  print(build(os.path.abspath(sys.argv[1]), sys.argv[2:]))
