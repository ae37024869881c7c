"""C12: the conversion of latency results to an objects file, run as a script over a simulated disk."""
import collections, os
import numpy as np
import rt, world
from rt import W, WP, F, FP, pick, probe, fault, check

CODE = None
CAMERAS = ['FRONT', 'FRONT_LEFT', 'FRONT_RIGHT', 'SIDE_LEFT', 'SIDE_RIGHT']


def f32(x):
  return float(np.float32(x))


def gen_frame(k, dim):
  """Result arrays of one frame and the detections they stand for."""
  n = pick([0, 1, 1, 2, 3, 5])
  dt = pick([np.float32, np.float32, np.float64])
  rows = []
  for i in range(n):
    if rows and WP(1, 5):
      rows.append(rows[-1])  # the same detection twice
      continue
    drop = WP(1, 5)
    score = WU(0.05, 1)
    box = [WU(-50, 50) for _ in range(3)] + [WU(0.1, 6) for _ in range(3)] + [WU(-3, 3)]
    if drop:
      what = W(4)
      if what == 0:
        score = pick([0.0, 0.02])
      else:
        box[2 + what] = pick([0.0, 0.005])
    rows.append((score, box, 1 + W(4) if WP(9, 10) else 0))
  boxes = np.zeros((n, dim), dt)
  want = []
  for i, (score, b, t) in enumerate(rows):
    boxes[i] = b if dim == 7 else [b[0], b[1], b[3], b[4]]
    # Below these sizes and scores an object is left out by design.
    if score >= 0.03 and b[3] >= 0.01 and b[4] >= 0.01 and (dim == 4 or b[5] >= 0.01):
      want.append((f32(score), t, tuple(f32(v) for v in boxes[i])))
  return dict(boxes=boxes, scores=np.array([r[0] for r in rows], dt).reshape(n),
              classes=np.array([r[2] for r in rows], pick([np.uint8, np.uint8, np.int64])).reshape(n)), want


def WU(lo, hi):
  return rt.WU(lo, hi, 4000)


def damage(d, dim, arrays):
  """Damages the results of one frame; True if the conversion has to fail."""
  kind = W(9)
  name = pick(['boxes', 'scores', 'classes'])
  p = os.path.join(d, name + '.npy')
  n = len(arrays['scores'])
  if kind == 0:
    os.remove(p)
    fault('result file missing')
  elif kind == 1:
    os.truncate(p, W(os.path.getsize(p)))
    fault('result file truncated')
  elif kind == 2:
    a = arrays[name]
    np.save(p, np.concatenate([a, np.ones((1,) + a.shape[1:], a.dtype)]))
    fault('result arrays of different lengths')
  elif kind == 3:
    if not n:
      return False
    np.save(p, arrays[name][:-1])
    fault('result arrays of different lengths')
  elif kind == 4:
    if not n:
      return False
    bad = np.zeros((n, pick([5, 6, 8, 3, 1])), np.float32) + np.float32(0.5)
    np.save(os.path.join(d, 'boxes.npy'), bad)
    fault('boxes of neither 4 nor 7 numbers')
  elif kind == 5:
    if not n:
      return False
    c = arrays['classes'].copy()
    c[W(n)] = pick([5, 9, 200])
    np.save(os.path.join(d, 'classes.npy'), c)
    fault('unknown object class')
  elif kind == 6:
    os.remove(os.path.join(d, 'input_fields.txt'))
    fault('input_fields.txt missing')
    return dim == 4 and n > 0
  elif kind == 7:
    with open(os.path.join(d, 'input_fields.txt'), 'w') as f:
      f.write(pick(['FRONT_IMAGE\nFRONT_LEFT_IMAGE', 'TOP_RANGE_IMAGE_FIRST_RETURN', 'FRONT_IMAGE_1', 'ROOF_IMAGE',
                    '', 'FRONT']))
    fault('unusable input_fields.txt')
    return dim == 4 and n > 0
  else:
    # The evaluator died after making the directory.
    for f in os.listdir(d):
      os.remove(os.path.join(d, f))
    fault('results of a frame missing')
  return True


def run():
  fs, clock = world.FS(), world.Clock()
  clock.patch()
  try:
    _run(fs)
  finally:
    fs.remove()


def _run(fs):
  from waymo_open_dataset.protos import metrics_pb2
  from waymo_open_dataset import dataset_pb2
  ind, out = fs.path('res'), fs.path('objects.bin')
  os.mkdir(ind)
  dim = pick([7, 7, 4])
  cam = pick(CAMERAS)
  frames = {}
  for c in range(W(4)):
    ctx = 'ctx-%d-%d' % (c, W(100))
    os.mkdir(fs.path('res', ctx))
    for t in range(W(4)):
      ts = str(1500000000000000 + (t if WP(1, 2) else t * 100000 + c))
      if (ctx, ts) in frames:
        continue
      d = fs.path('res', ctx, ts)
      os.mkdir(d)
      arrays, want = gen_frame(len(frames), dim)
      for k, v in arrays.items():
        np.save(os.path.join(d, k), v)
      with open(os.path.join(d, 'input_fields.txt'), 'w') as f:
        f.write(cam + '_IMAGE' if dim == 4 else 'TOP_RANGE_IMAGE_FIRST_RETURN\nPOSE')
      frames[ctx, ts] = arrays, want
    if WP(1, 6):
      open(fs.path('res', ctx, 'log.txt'), 'w').close()
  if WP(1, 6):
    open(fs.path('res', 'README'), 'w').close()
  want = collections.Counter()
  for (ctx, ts), (arrays, w) in frames.items():
    for score, t, b in w:
      want[ctx, int(ts), score, t, b, cam if dim == 4 else ''] += 1
  must_fail = None
  if frames and WP(1, 5):
    k = pick(sorted(frames))
    if damage(fs.path('res', *k), dim, frames[k][0]):
      must_fail = k
  if WP(1, 4):  # an earlier, larger result
    o = metrics_pb2.Objects()
    for i in range(40):
      o.objects.add(context_name='old', frame_timestamp_micros=i, score=1)
    with open(out, 'wb') as f:
      f.write(o.SerializeToString())
  rt.note(dim, cam, sorted((k, v[0]['boxes'].tobytes(), v[0]['scores'].tobytes(), v[0]['classes'].tobytes())
                           for k, v in frames.items()), must_fail)
  rt.log('frames %r dim %d camera %s must fail for %r', sorted(frames), dim, cam, must_fail)
  probe('detections', sum(want.values()))
  if sum(want.values()) >= 2 and len(frames) >= 2:
    rt.nontrivial()

  def play(rate, kinds):
    fs.hard = 0
    fs.start(rate, kinds)
    fs.patch()
    how = world.run_script(CODE, ['--results_dir', ind, '--output_file', out])
    fs.stop()
    fs.unpatch()
    rt.event('end ' + how.split(':')[0])
    rt.log('%s', how)
    if how != 'ok':
      check(how == 'crash' or fs.hard or must_fail, 'fails-on-good-input',
            'the conversion ended with %s although nothing was wrong', how)
      return False
    check(not must_fail, 'damage-accepted', 'the results of frame %r are unusable, yet the conversion succeeded', must_fail)
    try:
      data = open(out, 'rb').read()
    except OSError:
      rt.violation('no-output', 'success, but there is no objects file')
    o = metrics_pb2.Objects()
    try:
      o.ParseFromString(data)
      ok = o.IsInitialized() or True
    except Exception as e:
      rt.violation('output-torn', 'success, but the objects file does not parse: %s', str(e)[:200])
    got = collections.Counter()
    for x in o.objects:
      b = x.object.box
      v = (b.center_x, b.center_y, b.center_z, b.length, b.width, b.height, b.heading)
      if not b.HasField('height') and not b.HasField('center_z'):
        v = (v[0], v[1], v[3], v[4])
      name = dataset_pb2.CameraName.Name.Name(x.camera_name) if x.HasField('camera_name') and x.camera_name else ''
      got[x.context_name, x.frame_timestamp_micros, f32(x.score), x.object.type, tuple(f32(t) for t in v), name] += 1
    lost, extra = want - got, got - want
    check(not lost and not extra, 'detections-differ', 'lost %r, invented or foreign %r', sorted(lost.items())[:3],
          sorted(extra.items())[:3])
    return True

  kinds = [(), ('enospc', 'short'), ('short',), ('short', 'eio', 'emfile'), ('enospc', 'eio', 'short'), ('close-eio',), ('crash',),
           ('short', 'eio', 'enospc', 'close-eio', 'crash', 'emfile')][F(8)]
  rate = (0, 2, 6, 25)[F(4)]
  attempts = 0
  while True:
    done = play(rate, kinds)
    probe('complete run' if done else 'failed run')
    attempts += 1
    if done or must_fail:
      break
    if attempts >= 3:
      rate = 0
    probe('run again after a failure')


def setup(args):
  global CODE
  import waymo_open_dataset.protos.metrics_pb2
  CODE = world.compile_script('waymo_open_dataset/latency/make_objects_file_from_latency_results.py')
  return run
