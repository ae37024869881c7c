"""Deterministic simulator runtime for the Python half of the repository.

One run = one forked child. Every choice of a run (workload, faults, schedule)
is drawn from one of three streams expanded from one integer seed, recorded,
and can be fed back verbatim (replay) or edited (minimisation). A drawn value
of 0 is always the simplest choice.
"""
import hashlib, json, os, pickle, signal, struct, sys, threading, time, traceback

WORK, FAULT, SCHED = 0, 1, 2
M64 = (1 << 64) - 1
_time = time.time
_perf = time.perf_counter


def mix(x):
  x = (x + 0x9E3779B97F4A7C15) & M64
  x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
  x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
  return x ^ (x >> 31)


class End(BaseException):
  """Ends the run."""


class Unsupported(BaseException):
  """The repository uses something a stub does not have: no answer."""


class SimCrash(BaseException):
  """The simulated process dies here."""


class Ctx:

  def __init__(self, seed, replay, verbose):
    self.state = [mix(seed * 3 + s) for s in range(3)]
    self.replay = replay
    self.choices = [[], [], []]
    self.verbose = verbose
    self.events = hashlib.blake2b(digest_size=8)
    self.work = hashlib.blake2b(digest_size=8)
    self.log = []
    self.counters = {}
    self.steps = 0
    self.switches = 0
    self.clock = 0  # simulated nanoseconds
    self.nontrivial = False
    self.verdict, self.cls, self.msg = 0, '', ''


C = None
REPO = '/repo/src'


def draw(stream, n):
  assert n >= 1
  c = C
  k = len(c.choices[stream])
  if c.replay is not None:
    r = c.replay[stream]
    v = r[k] % n if k < len(r) else 0
  else:
    c.state[stream] = (c.state[stream] + 0x9E3779B97F4A7C15) & M64
    v = mix(c.state[stream]) % n
  c.choices[stream].append(v)
  if stream != WORK:
    c.events.update(struct.pack('<BQ', stream, v))
  return v


def W(n):
  return draw(WORK, n)


def F(n):
  return draw(FAULT, n)


def S(n):
  return draw(SCHED, n)


def chance(stream, num, den):
  # A recorded 0 means false.
  return draw(stream, den) >= den - num


def WP(num, den):
  return chance(WORK, num, den)


def FP(num, den):
  return chance(FAULT, num, den)


def WU(lo, hi, steps=1000):
  return lo + (hi - lo) * W(steps + 1) / steps


def pick(seq):
  return seq[W(len(seq))]


def permutation(stream, n):
  p = list(range(n))
  for i in range(n - 1):
    j = i + draw(stream, n - i)
    p[i], p[j] = p[j], p[i]
  return p


def violation(cls, fmt, *args):
  if C.verdict == 0:
    C.verdict, C.cls, C.msg = 2, cls, (fmt % args if args else fmt)[:1500]
  raise End()


def skip(why):
  C.verdict = 1
  C.msg = why
  raise End()


def probe(name, n=1):
  C.counters.setdefault((0, name), [0])[0] += n


def fault(name, n=1):
  C.counters.setdefault((1, name), [0])[0] += n
  event('fault ' + name)


def event(text):
  C.events.update(text.encode('utf8', 'surrogateescape') + b'\n')
  C.steps += 1
  log(text)


def log(fmt, *args):
  if C.verbose:
    C.log.append(fmt % args if args else fmt)


def note(*parts):
  for p in parts:
    C.work.update(p if isinstance(p, bytes) else repr(p).encode())


def nontrivial():
  C.nontrivial = True


def check(cond, cls, fmt, *args):
  if not cond:
    violation(cls, fmt, *args)


# ---------------------------------------------------------------- one run

TENSOR = set('device eval graph name ndim op ref rank shape value_index consumers experimental_ref set_shape get_shape numpy dtype backing_device '
             'cpu gpu is_tensor_like __array__ __array_priority__ __complex__ __len__ __format__ _numpy'.split())


def stub_names():
  """Qualified names of all functions of the stand-ins."""
  import ast
  out = set()
  here = os.path.dirname(os.path.abspath(__file__))

  def walk(node, path):
    for n in ast.iter_child_nodes(node):
      if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        name = path + getattr(n, 'name', '<lambda>')
        out.add(name)
        walk(n, name + '.<locals>.')
      elif isinstance(n, ast.ClassDef):
        walk(n, path + n.name + '.')
      else:
        walk(n, path)
  for d in (here, os.path.join(here, 'props')):
    for f in sorted(os.listdir(d)):
      if f.endswith('.py'):
        with open(os.path.join(d, f)) as h:
          walk(ast.parse(h.read()), '')
  return out


def stub_lacks(e):
  """Whether repository code asked a stand-in for something that it does not have."""
  here = os.path.dirname(os.path.abspath(__file__))
  if isinstance(e, AttributeError) and getattr(e, 'obj', None) is not None:
    cls = type(e.obj)
    if cls.__name__ == 'SimpleNamespace':
      return True
    f = getattr(sys.modules.get(cls.__module__), '__file__', None) or ''
    return f.startswith(here + '/') and (cls.__name__ != 'Tensor' or e.name in TENSOR)
  if isinstance(e, TypeError):
    import re
    m = re.match(r'(\S+)\(\) (got an unexpected keyword|takes |got multiple values|missing |got some positional)', str(e))
    return bool(m) and m.group(1) in stub_names()
  return False


RUN_LIMIT = 20  # real seconds before a run counts as hanging


def _child(prop, seed, replay, verbose):
  global C
  C = Ctx(seed, replay, verbose)
  try:
    prop()
  except End:
    pass
  except SimCrash:
    C.verdict, C.msg = 3, 'crash escaped'
  except BaseException as e:
    # A legal call into the repository that raises is a failure of the property.
    repo = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + '/')]
    if repo and not isinstance(e, Unsupported) and not stub_lacks(e):
      if C.verdict == 0:
        C.verdict, C.cls = 2, 'raises'
        C.msg = '%s: %s at %s:%d' % (type(e).__name__, str(e)[:500], repo[-1].filename[len(REPO) + 1:], repo[-1].lineno)
    else:
      C.verdict, C.msg = 3, traceback.format_exc()[-3000:]
  c = C
  out = dict(verdict=c.verdict, cls=c.cls, msg=c.msg, w=c.work.hexdigest(), t=c.events.hexdigest(),
             steps=c.steps, switches=c.switches, nontrivial=c.nontrivial, clock=c.clock,
             counters=[(k[0], k[1], v[0]) for k, v in c.counters.items()], log='\n'.join(c.log)[:60000],
             choices=c.choices if c.verdict == 2 or replay is not None else None)
  return out


def run_once(prop, seed, replay=None, verbose=False):
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(r)
      n = os.open('/dev/null', os.O_WRONLY)
      os.dup2(n, 1)
      if not os.environ.get('WODSIM_DEBUG'):
        os.dup2(n, 2)
      signal.alarm(RUN_LIMIT * 2)
      data = pickle.dumps(_child(prop, seed, replay, verbose))
      off = 0
      while off < len(data):
        off += _oswrite(w, data[off:])
      code = 0
    finally:
      os._exit(code)
  os.close(w)
  data = b''
  deadline = _perf() + RUN_LIMIT
  import select
  while True:
    left = deadline - _perf()
    if left <= 0 or not select.select([r], [], [], left)[0]:
      os.kill(pid, signal.SIGKILL)
      break
    b = os.read(r, 1 << 16)
    if not b:
      break
    data += b
  os.close(r)
  status = os.waitpid(pid, 0)[1]
  try:
    return pickle.loads(data)
  except Exception:
    cls = 'hang' if status & 127 in (signal.SIGKILL, signal.SIGALRM) else 'crash'
    return dict(verdict=2, cls=cls, msg='the run ended with wait status %d' % status, w='0', t='0', steps=0,
                switches=0, nontrivial=False, clock=0, counters=[], log='', choices=None)


_oswrite = os.write


def minimise(prop, seed, o, budget):
  """Shortens and zeroes the recorded choices while the same class of failure stays."""
  best = [list(s) for s in o['choices']]
  t0 = _perf()
  tries = 0
  last = o

  def attempt(cand):
    nonlocal best, tries, last
    if _perf() - t0 > budget:
      return False
    tries += 1
    r = run_once(prop, seed, replay=cand)
    if r['verdict'] == 2 and r['cls'] == o['cls'] and r['choices'] is not None:
      # Store what was really drawn, without trailing zeros.
      new = [list(s) for s in r['choices']]
      for s in new:
        while s and s[-1] == 0:
          s.pop()
      if (sum(map(len, new)), sum(map(sum, new))) < (sum(map(len, best)), sum(map(sum, best))):
        best, last = new, r
        return True
    return False

  for s in (FAULT, SCHED, WORK):
    attempt([[] if i == s else best[i] for i in range(3)])
  changed = True
  while changed and _perf() - t0 < budget:
    changed = False
    for s in (FAULT, SCHED, WORK):
      size = max(1, len(best[s]) // 2)
      while size >= 1:
        i = 0
        while i < len(best[s]):
          cand = [list(x) for x in best]
          del cand[s][i:i + size]
          if attempt(cand):
            changed = True
            continue
          if any(best[s][i:i + size]):
            cand = [list(x) for x in best]
            cand[s][i:i + size] = [0] * len(cand[s][i:i + size])
            if attempt(cand):
              changed = True
          i += size
        size //= 2
      for i in range(len(best[s])):
        if i < len(best[s]) and best[s][i] > 1:
          for v in (1, best[s][i] // 2):
            cand = [list(x) for x in best]
            cand[s][i] = v
            if attempt(cand):
              changed = True
              break
  # The stored file is the truth: run it once more.
  final = run_once(prop, seed, replay=best, verbose=True)
  return best, final, tries


def main(props, argv):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('--gen')
  ap.add_argument('--repo')
  ap.add_argument('--property')
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--start', type=int, default=0)
  ap.add_argument('--stride', type=int, default=1)
  ap.add_argument('--count', type=int, default=10)
  ap.add_argument('--time', type=float, default=60)
  ap.add_argument('--min-time', type=float, default=25)
  ap.add_argument('--out', default='')
  ap.add_argument('--replay-dir', default='.')
  ap.add_argument('--tag', default='0')
  ap.add_argument('--known', default='')
  ap.add_argument('--digest', action='store_true')
  ap.add_argument('--replay')
  ap.add_argument('--verbose', action='store_true')
  a = ap.parse_args(argv)
  rep = json.load(open(a.replay)) if a.replay else None
  name = rep['property'] if rep else a.property
  global REPO
  REPO = os.path.abspath(a.repo)
  prop = props(name, a)
  if rep:
    o = run_once(prop, rep['run_seed'], replay=rep['choices'], verbose=True)
    if a.verbose:
      print(o['log'])
    print('verdict %d class %s\n%s' % (o['verdict'], o['cls'], o['msg']))
    same = o['verdict'] == 2 and o['cls'] == rep['class'] and (o['t'] == rep['trace'] or rep['class'] == 'hang')
    print('REPRODUCED' if same else 'NOT-REPRODUCED trace %s, recorded %s' % (o['t'], rep['trace']))
    return 1 if o['verdict'] == 2 else 0
  res = dict(runs=0, skips=0, steps=0, switches=0, nontrivial=0, multi=0, choice_overflow=0)
  wl, tr, di = set(), set(), set()
  counters, samples, known_hits = {}, [], {}
  harness = replay = ''
  sim_ms = 0.0
  rc = 0
  t0 = _perf()
  known = set(a.known.split(',')) - {''}
  for k in range(a.count):
    if _perf() - t0 > a.time:
      break
    idx = a.start + k * a.stride
    seed = mix((a.seed * 1000003 + idx) & M64)
    o = run_once(prop, seed, verbose=len(samples) < 2)
    res['runs'] += 1
    if a.digest:
      print('D %d %d %s %s %s %d' % (idx, o['verdict'], o['cls'], o['w'], o['t'], o['steps']), flush=True)
    res['steps'] += o['steps']
    res['switches'] += o['switches']
    res['multi'] += o['switches'] > 1
    sim_ms += o['clock'] / 1e6
    for kind, n, v in o['counters']:
      x = counters.setdefault((kind, n), [0, 0])
      x[0] += v
      x[1] += 1
    if o['verdict'] == 1:
      res['skips'] += 1
      continue
    if o['verdict'] == 3:
      harness = 'run %d: %s' % (idx, o['msg'])
      rc = 3
      break
    wl.add(o['w'])
    tr.add(o['t'])
    if o['nontrivial']:
      res['nontrivial'] += 1
      di.add(o['w'] + o['t'])
      if len(samples) < 2 and o['log']:
        samples.append('seed=%d run=%d: %s' % (a.seed, idx, o['log'][:1500]))
    if o['verdict'] == 2:
      if o['cls'] in known:
        known_hits[o['cls']] = known_hits.get(o['cls'], 0) + 1
        continue
      if a.digest:
        continue
      again = run_once(prop, seed)
      if again['cls'] != o['cls'] or again['t'] != o['t'] and o['cls'] != 'hang':
        harness = 'run %d (%s: %s) did not repeat' % (idx, o['cls'], o['msg'])
        rc = 3
        break
      if o['choices'] is None:
        best, final, tries = None, o, 0
      else:
        best, final, tries = minimise(prop, seed, o, a.min_time)
      replay = '%s/%s-%s.json' % (a.replay_dir, name, a.tag)
      rec = dict(property=name, engine='py', seed=a.seed, run=idx, run_seed=seed, choices=best)
      rec.update({'class': o['cls'], 'message': final['msg'] or o['msg'], 'trace': final['t'],
                  'original_choices': sum(map(len, o['choices'] or [])), 'minimiser_tries': tries,
                  'log': final['log'].split('\n')[:400]})
      json.dump(rec, open(replay, 'w'), indent=1)
      print('FOUND property=%s class=%s replay=%s run=%d msg=%s' % (name, o['cls'], replay, idx, rec['message']))
      rc = 1
      break
  if a.out:
    out = dict(res, wall=_perf() - t0, rc=rc, harness=harness, replay=replay, workloads=sorted(wl), traces=sorted(tr),
               distinct=sorted(di), known=known_hits, samples=samples, extra=dict(sim_ms=sim_ms),
               faults={k[1]: v for k, v in counters.items() if k[0] == 1},
               probes={k[1]: v for k, v in counters.items() if k[0] == 0})
    json.dump(out, open(a.out, 'w'))
  if harness:
    sys.stderr.write('harness error: %s\n' % harness)
  sys.stdout.flush()
  return rc
