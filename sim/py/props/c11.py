"""C11: the latency evaluator, run as a script over a simulated disk and clock."""
import os, sys, types
import numpy as np
import rt, world
from rt import W, WP, F, FP, S, pick, probe, fault, check

FIELDS = ['TOP_RANGE_IMAGE_FIRST_RETURN', 'TOP_RANGE_IMAGE_FIRST_RETURN_1', 'TOP_RANGE_IMAGE_FIRST_RETURN_2', 'FRONT_IMAGE',
          'FRONT_IMAGE_1', 'POSE', 'TIMESTAMP', 'SIDE_LEFT_EXTRINSIC']
CODE = None


def gen_array(k):
  r = np.random.RandomState(k)
  kind = W(4)
  if kind == 0:
    return r.rand(2 + W(3), 1 + W(4), 6).astype(np.float32)
  if kind == 1:
    return np.int64(k * 1000003)
  if kind == 2:
    return r.randint(0, 256, (3 + W(60), 4 + W(50), 3)).astype(np.uint8)
  return r.rand(4, 4).astype(np.float32)


def answer(data, frame_key, dof, n):
  """The detections of a frame: a function of everything the model was given."""
  h = 0
  for k in sorted(data):
    a = np.asarray(data[k])
    h = (h * 31 + int(rt.hashlib.blake2b(k.encode() + str(a.dtype).encode() + str(a.shape).encode() + a.tobytes(),
                                         digest_size=4).hexdigest(), 16)) % (1 << 32)
  r = np.random.RandomState(h)
  return dict(boxes=r.rand(n, dof).astype(np.float32), scores=r.rand(n).astype(np.float32),
              classes=r.randint(1, 5, n).astype(np.uint8))


def equal(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


class Stop(Exception):
  pass


def run():
  fs, clock = world.FS(), world.Clock()
  clock.patch()
  try:
    _run(fs, clock)
  finally:
    fs.remove()


def _run(fs, clock):
  ind, outd, lat = fs.path('in'), fs.path('out'), fs.path('latency.txt')
  os.mkdir(ind)
  os.mkdir(outd)
  fields = [FIELDS[i] for i in rt.permutation(rt.WORK, len(FIELDS))[:1 + W(4)]]
  dof = pick([7, 7, 4])
  frames = {}
  for c in range(W(4)):
    ctx = 'ctx-%d-%d' % (c, W(100))
    os.mkdir(fs.path('in', ctx))
    for t in range(W(4)):
      # The same timestamps occur in different contexts.
      ts = str(1500000000000000 + (t if WP(1, 2) else t * 100000 + c))
      if (ctx, ts) in frames:
        continue
      d = fs.path('in', ctx, ts)
      os.mkdir(d)
      data = {}
      for k, f in enumerate(FIELDS):
        if f in fields or WP(1, 4):
          data[f] = gen_array(len(frames) * 50 + k + 1)
          np.save(os.path.join(d, f + '.npy'), data[f])
      frames[ctx, ts] = dict(data={f: data[f] for f in fields}, n=W(6))
    if WP(1, 6):
      open(fs.path('in', ctx, 'notes.txt'), 'w').close()
  if WP(1, 6):
    open(fs.path('in', 'README'), 'w').close()
  damaged = None
  if frames and WP(1, 6):
    damaged = pick(sorted(frames))
    p = fs.path('in', damaged[0], damaged[1], pick(fields) + '.npy')
    if W(2):
      os.remove(p)
      fault('input file missing')
    else:
      size = os.path.getsize(p)
      os.truncate(p, W(size))
      fault('input file truncated')
  stale = WP(1, 4)
  if stale:  # results of an earlier run
    for key in sorted(frames):
      if W(2):
        d = fs.path('out', *key)
        os.makedirs(d)
        for k, v in answer({}, key, dof, 9).items():
          np.save(os.path.join(d, k), v)
    with open(lat, 'w') as f:
      f.write('\n'.join(['0.25'] * 40))
  rt.note(sorted(fields), dof, sorted((k, v['n'], sorted((f, a.tobytes()) for f, a in v['data'].items()))
                                      for k, v in frames.items()), damaged, stale)
  rt.log('frames %r fields %r dof %d damaged %r stale %r', sorted(frames), fields, dof, damaged, stale)
  probe('frames', len(frames))
  if len(frames) >= 2:
    rt.nontrivial()
  reuse = WP(1, 4)   # the model returns the same buffers every time
  mutate = WP(1, 4)  # the model works in place on its inputs
  bad = W(12)        # 1: raises, 2: lengths differ, 3: keys missing

  def play(rate, kinds, model_fails):
    calls, inits = [], []
    buffers = {}
    fail_at = F(max(len(frames), 1)) if model_fails else -1
    m = types.ModuleType('wod_latency_submission')
    m.DATA_FIELDS = list(fields)

    def initialize_model():
      clock.wait(F(1000) * 10**6 + 10**6, cpu=10**6)
      inits.append(len(calls))

    def run_model(**data):
      given = {k: np.array(v, copy=True) for k, v in data.items()}
      t = (1 + F(200)) * 10**6 + F(1000) * 7
      rt.event('model %d ns' % t)
      clock.maybe_jump()
      clock.wait(t, cpu=t // 3)
      key = None
      for k, v in frames.items():
        if set(given) == set(v['data']) and all(equal(given[f], v['data'][f]) for f in given):
          key = k
      calls.append((key, given, t))
      if len(calls) - 1 == fail_at:
        if bad == 1:
          fault('model raises')
          raise Stop('out of GPU memory')
      out = answer(given, key, dof, frames[key]['n'] if key else 1)
      if mutate:
        for v in data.values():
          if getattr(v, 'ndim', 0):
            v[...] = 0
      if len(calls) - 1 == fail_at:
        if bad == 2:
          fault('model returns arrays of different lengths')
          k = ('boxes', 'scores', 'classes')[F(3)]
          out[k] = np.concatenate([out[k], out[k][:1]]) if len(out[k]) else np.ones((1, dof) if k == 'boxes' else 1, out[k].dtype)
        elif bad == 3:
          fault('model leaves an output out')
          del out[('boxes', 'scores', 'classes')[F(3)]]
      elif reuse:
        for k in out:
          n = len(out[k])
          b = buffers.setdefault(k, np.zeros((16,) + out[k].shape[1:], out[k].dtype))
          b[:n] = out[k]
          out[k] = b[:n]
      return out
    m.initialize_model, m.run_model = initialize_model, run_model
    sys.modules['wod_latency_submission'] = m
    fs.hard = 0
    fs.start(rate, kinds)
    fs.patch()
    how = world.run_script(CODE, ['--input_data_dir', ind, '--output_dir', outd, '--latency_result_file', lat])
    fs.stop()
    fs.unpatch()
    rt.event('end ' + how.split(':')[0])
    rt.log('%s', how)
    model_failed = fail_at >= 0 and len(calls) > fail_at
    return how, calls, inits, model_failed

  def judge(how, calls, inits, model_failed, fresh_disk):
    clean = not fs.hard and not model_failed and damaged is None
    if how != 'ok':
      check(not clean or how == 'crash', 'fails-on-good-input', 'the evaluator ended with %s although nothing failed', how)
      return False
    check(damaged is None, 'damaged-input-accepted', 'frame %r has a missing or truncated input, yet the run succeeded', damaged)
    check(not model_failed, 'model-failure-accepted', 'a failing model call was reported as success')
    check(inits == [0] or (not inits and not frames), 'initialisation', 'initialize_model ran %r', inits)
    keys = [c[0] for c in calls]
    for k, given, _ in calls:
      check(k is not None, 'foreign-data', 'the model was called with data of no frame: fields %r', sorted(given))
    check(sorted(keys) == sorted(frames), 'frames-submitted', 'frames submitted: %r, frames present: %r', sorted(keys), sorted(frames))
    for k in sorted(frames):
      want = answer(frames[k]['data'], k, dof, frames[k]['n'])
      for name, v in want.items():
        p = fs.path('out', k[0], k[1], name + '.npy')
        try:
          got = np.load(p)
        except Exception as e:
          rt.violation('result-missing', 'success, but %s of frame %r: %s', name, k, str(e)[:200])
        check(equal(got, v), 'result-wrong', 'success, but %s of frame %r is not what the model returned', name, k)
      try:
        got = open(fs.path('out', k[0], k[1], 'input_fields.txt')).read()
      except OSError:
        rt.violation('fields-missing', 'success, but no input_fields.txt for frame %r', k)
      check(got.split() == fields, 'fields-wrong', 'input_fields.txt of %r holds %r', k, got)
    here = set()
    for c in os.listdir(outd):
      for t in os.listdir(os.path.join(outd, c)):
        here.add((c, t))
    check(here == set(frames), 'foreign-results', 'result directories %r, frames %r', sorted(here), sorted(frames))
    try:
      text = open(lat).read()
    except OSError:
      rt.violation('latency-missing', 'success, but no latency file')
    try:
      got = [float(x) for x in text.split()]
    except ValueError:
      rt.violation('latency-wrong', 'latency file holds %r', text[:300])
    want = sorted(c[2] / 1e9 for c in calls)
    check(len(got) == len(want) and all(abs(a - b) < 2e-9 for a, b in zip(sorted(got), want)), 'latency-wrong',
          'latencies reported %r, model calls took %r', sorted(got), want)
    return True

  kinds = [(), ('short',), ('short', 'eio', 'emfile'), ('enospc', 'eio', 'short'), ('close-eio',), ('crash',),
           ('short', 'eio', 'enospc', 'close-eio', 'crash', 'emfile')][F(7)]
  rate = (0, 6, 25, 80)[F(4)]
  r = play(rate, kinds, bad in (1, 2, 3))
  if judge(*r, fresh_disk=True):
    probe('complete run')
  else:
    probe('failed run')
    # Whatever it left behind, the next attempt gives the complete result.
    if damaged is None:
      r = play(0, (), False)
      probe('run again after a failure')
      judge(*r, fresh_disk=False)


def setup(args):
  global CODE
  CODE = world.compile_script('waymo_open_dataset/latency/wod_latency_evaluator.py')
  return run
