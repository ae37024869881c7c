"""C28: point clouds of frames, computed by unreliable workers in any order from shared parsed frames."""
import math, struct, threading, zlib
import numpy as np
import rt, world, tfsim, tfeager, segsim, arrowsim
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}
TOP = 1
LASERS = {1: 'TOP', 2: 'FRONT', 3: 'SIDE_LEFT', 4: 'SIDE_RIGHT', 5: 'REAR'}
CAMERAS = {1: 'FRONT', 2: 'FRONT_LEFT', 3: 'FRONT_RIGHT', 4: 'SIDE_LEFT', 5: 'SIDE_RIGHT'}
STEP = 0.00585532144  # metres per unit of an encoded range


class Obj:
  pass


f32 = lambda x: np.asarray(x, np.float32).astype(np.float64)


# ---------------------------------------------------------------- geometry, from the definition of the data

def euler(roll, pitch, yaw):
  """Yaw about z, then pitch about y, then roll about x (3-2-1)."""
  c, s = math.cos, math.sin
  z = np.array([[c(yaw), -s(yaw), 0], [s(yaw), c(yaw), 0], [0, 0, 1]])
  y = np.array([[c(pitch), 0, s(pitch)], [0, 1, 0], [-s(pitch), 0, c(pitch)]])
  x = np.array([[1, 0, 0], [0, c(roll), -s(roll)], [0, s(roll), c(roll)]])
  return z.dot(y).dot(x)


def rigid(rot, t):
  m = np.eye(4)
  m[:3, :3], m[:3, 3] = rot, t
  return m


def back(m):
  r = np.eye(4)
  r[:3, :3] = m[:3, :3].T
  r[:3, 3] = -m[:3, :3].T.dot(m[:3, 3])
  return r


def inclinations(cal, h):
  """Inclination of each row: the top row is the highest beam, the last of the list."""
  if cal.values:
    return list(reversed(cal.values))
  step = (cal.hi - cal.lo) / h
  return [cal.hi - (j + .5) * step for j in range(h)]


def azimuth(ext, i, w):
  """Direction of the middle of column i in the sensor's own frame; columns go clockwise, the first starts behind."""
  return math.pi - 2 * math.pi * (i + .5) / w - math.atan2(ext[1, 0], ext[0, 0])


def measured(cal, ranges, poses, frame_pose):
  """[H, W, 3] positions in the vehicle frame of all pixels."""
  h, w = ranges.shape
  out = np.zeros((h, w, 3))
  inc = inclinations(cal, h)
  for j in range(h):
    for i in range(w):
      a, r = azimuth(cal.ext, i, w), ranges[j, i]
      p = np.array([r * math.cos(inc[j]) * math.cos(a), r * math.cos(inc[j]) * math.sin(a), r * math.sin(inc[j]), 1.0])
      p = cal.ext.dot(p)
      if poses is not None:
        q = poses[j, i]
        p = back(frame_pose).dot(rigid(euler(*q[:3]), q[3:]).dot(p))
      out[j, i] = p[:3]
  return out


# ---------------------------------------------------------------- what was recorded

def angle(g, x):
  return float(g.uniform(-x, x))


def pose(g, far, tilt=0.3):
  return rigid(euler(angle(g, tilt), angle(g, tilt), angle(g, math.pi)), [angle(g, far), angle(g, far), angle(g, 3)])


def calibration(g, name, h):
  c = Obj()
  c.name, c.ext = name, pose(g, 4, (0.0, 0.05, 0.6)[g.randint(3)])
  c.lo, c.hi = -float(g.uniform(.1, 1.2)), float(g.uniform(.03, .8))
  c.values = sorted(float(v) for v in g.uniform(c.lo, c.hi, h)) if g.randint(2) else []
  return c


def ret(g, h, w):
  """One return: range, intensity, elongation, no label zone; nothing, or less than nothing, where no return came."""
  o = Obj()
  x = np.zeros((h, w, 4))
  x[..., 0] = g.uniform(.5, 75, (h, w))
  x[..., 1] = g.uniform(0, 2, (h, w)) ** 4
  x[..., 2] = g.uniform(0, 1.4, (h, w))
  x[..., 3] = g.choice([-1, 1], (h, w))
  miss = g.uniform(size=(h, w)) < (0, .2, .6, 1)[g.choice(4, p=(.2, .4, .3, .1))]
  x[miss] = g.choice([-1, 0])
  if g.randint(3) == 0:
    x[0, 0, 0] = 1e-3
  o.image = f32(x)
  o.cp = g.randint(0, 1900, (h, w, 6))
  o.cp[..., 0], o.cp[..., 3] = g.randint(0, 6, (h, w)), g.randint(0, 6, (h, w))
  o.seg = g.randint(0, 30, (h, w, 2)) if g.randint(2) else None
  return o


def matrix(cls, a):
  m = M['pb'].MatrixFloat() if cls == 'f' else M['pb'].MatrixInt32()
  m.data.extend(a.reshape(-1).tolist())
  m.shape.dims.extend(a.shape)
  return zlib.compress(m.SerializeToString())


def jpeg(a):
  return b'\xff\xd8sim' + struct.pack('<HHH', *a.shape) + a.tobytes()


def make_frame(k):
  g = np.random.RandomState(W(1 << 20))
  o = Obj()
  o.k, o.empty = k, False
  f = M['pb'].Frame(timestamp_micros=1500000000000000 + 100000 * k)
  f.context.name = 'seg%d' % W(3)
  o.far = pick((5.0, 300.0, 5.0, 20000.0))
  o.pose = pose(g, o.far)
  f.pose.transform.extend(o.pose.reshape(-1).tolist())
  names = [1 + int(v) for v in g.permutation(5)]
  names = [n for n in names[:1 + W(5)] if n != TOP]
  names.insert(W(len(names) + 1), TOP)
  o.lasers = {}
  full = WP(2, 3)
  for n in names:
    l = Obj()
    h, w = 1 + int(g.randint(5)), 1 + int(g.randint(7))
    l.cal = calibration(g, n, h)
    l.returns = [ret(g, h, w) for _ in range(2 if full or g.randint(2) else 1)]
    if l.returns[0].seg is None:
      l.returns[-1].seg = None
    l.poses = None
    if n == TOP:
      p = np.zeros((h, w, 6))
      base = g.uniform(-1, 1, 6) * [.2, .2, math.pi, o.far, o.far, 3]
      p[:] = base
      p += g.uniform(-1, 1, (h, w, 6)) * [.02, .02, .1, 2, 2, .2]
      l.poses = f32(p)
    o.lasers[n] = l
  for n in (names[j] for j in rt.permutation(rt.WORK, len(names))):
    l = o.lasers[n]
    m = f.lasers.add(name=n)
    for k2, r in enumerate(l.returns):
      t = (m.ri_return1, m.ri_return2)[k2]
      t.range_image_compressed = matrix('f', r.image)
      t.camera_projection_compressed = matrix('i', r.cp)
      if r.seg is not None:
        t.segmentation_label_compressed = matrix('i', r.seg)
    if l.poses is not None:
      m.ri_return1.range_image_pose_compressed = matrix('f', l.poses)
  o.order = [names[j] for j in rt.permutation(rt.WORK, len(names))]
  for n in o.order:
    c = o.lasers[n].cal
    m = f.context.laser_calibrations.add(name=n)
    m.extrinsic.transform.extend(c.ext.reshape(-1).tolist())
    if c.values:
      m.beam_inclinations.extend(c.values)
    if not c.values or g.randint(2):
      m.beam_inclination_min, m.beam_inclination_max = c.lo, c.hi
  if len(names) < 5 and WP(1, 3):  # a laser of which nothing is known
    f.lasers.add(name=[n for n in LASERS if n not in names][0])
    o.empty = True
  o.cameras = {}
  for n in (1 + int(v) for v in g.permutation(5)[:g.randint(4)]):
    c = Obj()
    c.image = g.randint(0, 256, (1 + g.randint(3), 1 + g.randint(3), 3)).astype(np.uint8)
    c.velocity, c.pose = g.normal(size=6), pose(g, 100)
    c.times = g.uniform(0, 100, 4)
    im = f.images.add(name=n, image=jpeg(c.image), pose_timestamp=c.times[0], shutter=c.times[1], camera_trigger_time=c.times[2],
                      camera_readout_done_time=c.times[3])
    for a, v in zip(('v_x', 'v_y', 'v_z', 'w_x', 'w_y', 'w_z'), c.velocity):
      setattr(im.velocity, a, v)
    im.pose.transform.extend(c.pose.reshape(-1).tolist())
    o.cameras[n] = c
  o.camera_cals = {}
  for n in (1 + int(v) for v in g.permutation(5)[:g.randint(4)]):
    c = Obj()
    c.intrinsic, c.ext, c.size, c.dir = g.uniform(0, 2000, 9), pose(g, 3), (int(g.randint(1, 2000)), int(g.randint(1, 2000))), int(g.randint(6))
    m = f.context.camera_calibrations.add(name=n, width=c.size[0], height=c.size[1], rolling_shutter_direction=c.dir)
    m.intrinsic.extend(c.intrinsic.tolist())
    m.extrinsic.transform.extend(c.ext.reshape(-1).tolist())
    o.camera_cals[n] = c
  o.time = f.timestamp_micros
  o.bytes = f.SerializeToString()
  o.name = 'frame %d' % k
  # Where everything is.
  for n, l in o.lasers.items():
    l.xyz = [measured(l.cal, r.image[..., 0], l.poses, o.pose) for r in l.returns]
  o.both = all(len(l.returns) == 2 for l in o.lasers.values())
  return o


# ---------------------------------------------------------------- judging

def tol(fr, name):
  return 2e-4 + (2e-5 * fr.far + 5e-4 if name == TOP else 0)


def near(got, want, t, where):
  got = np.asarray(got.numpy() if hasattr(got, 'numpy') else got)
  check(got.shape == want.shape, 'shape', '%s has the shape %r instead of %r', where, got.shape, want.shape)
  check(got.dtype.kind == 'f' or not want.size, 'type', '%s is of type %s', where, got.dtype)
  bad = ~(np.abs(got.astype(np.float64) - want) <= t)
  if bad.any():
    p = tuple(int(v[0]) for v in np.nonzero(bad))
    rt.violation('position', '%s: %r at %r instead of %r (%d of %d are off, by up to %.3g)', where, float(got[p]), p, float(want[p]), int(bad.sum()), want.size,
                 float(np.nanmax(np.abs(got - want))))


def exact(got, want, where, cls='value'):
  got = np.asarray(got.numpy() if hasattr(got, 'numpy') else got)
  check(got.shape == want.shape, 'shape', '%s has the shape %r instead of %r', where, got.shape, want.shape)
  if not (got.astype(np.float64) == want).all():
    p = tuple(int(v[0]) for v in np.nonzero(got.astype(np.float64) != want))
    rt.violation(cls, '%s: %r at %r instead of %r', where, got[p], p, want[p])


def cartesian(got, fr, n, k, polar, where):
  l = fr.lasers[n]
  got = np.asarray(got.numpy() if hasattr(got, 'numpy') else got)
  if polar:
    check(got.ndim == 3 and got.shape[-1] == 6, 'shape', '%s has the shape %r', where, got.shape)
    exact(got[..., :3], l.returns[k].image[..., :3], where + ' (range, intensity, elongation)', 'feature')
    got = got[..., 3:]
  near(got, l.xyz[k], tol(fr, n), where)


def cloud(got, fr, n, k, polar, where):
  l = fr.lasers[n]
  mask = l.returns[k].image[..., 0] > 0
  got = np.asarray(got.numpy() if hasattr(got, 'numpy') else got)
  check(got.ndim == 2 and len(got) == mask.sum(), 'points', '%s: an array of shape %r for %d returns', where, got.shape, mask.sum())
  if polar:
    check(got.shape[1] == 6, 'shape', '%s has the shape %r', where, got.shape)
    exact(got[:, :3], l.returns[k].image[mask][:, :3], where + ' (range, intensity, elongation)', 'feature')
    got = got[:, 3:]
  near(got, l.xyz[k][mask], tol(fr, n), where)


def projections(got, fr, n, k, where):
  r = fr.lasers[n].returns[k]
  exact(got, r.cp[r.image[..., 0] > 0], where + ' (camera projections)', 'projection')


def mat(m):
  a, dims = np.array(list(m.data), np.float64), list(m.shape.dims)
  check(a.size == (np.prod(dims) if dims else 0), 'parsed', '%d values for the shape %r', a.size, dims)
  return a.reshape(dims) if dims else a


def parsed(p, fr, where):
  ri, cp, seg, top = p
  for what, d, pickf in (('range image', ri, lambda r: r.image), ('camera projection', cp, lambda r: r.cp), ('segmentation', seg, lambda r: r.seg)):
    want = {n: [pickf(r) for r in l.returns if pickf(r) is not None] for n, l in fr.lasers.items()}
    want = {n: v for n, v in want.items() if v}
    check(set(d) == set(want), 'parsed', '%s: the %ss of %r instead of %r', where, what, sorted(d), sorted(want))
    for n, v in want.items():
      check(len(d[n]) == len(v), 'parsed', '%s: %d %ss of %s instead of %d', where, len(d[n]), what, LASERS[n], len(v))
      for k, a in enumerate(v):
        exact(mat(d[n][k]), a, '%s: %s %d of %s' % (where, what, k, LASERS[n]), 'parsed')
  exact(mat(top), fr.lasers[TOP].poses, where + ': pixel poses', 'parsed')


def frame_dict(d, fr, where):
  want = {}
  for n, l in fr.lasers.items():
    p = LASERS[n]
    h = l.returns[0].image.shape[0]
    want[p + '_BEAM_INCLINATION'] = np.array(inclinations(l.cal, h)[::-1]), 1e-5
    want[p + '_LIDAR_EXTRINSIC'] = l.cal.ext, 1e-5
    for k, w in enumerate(('FIRST', 'SECOND')):
      want['%s_RANGE_IMAGE_%s_RETURN' % (p, w)] = np.concatenate([l.returns[k].image[..., :3], l.xyz[k]], -1), tol(fr, n)
      want['%s_CAM_PROJ_%s_RETURN' % (p, w)] = l.returns[k].cp, 0
  for n, c in fr.cameras.items():
    p = CAMERAS[n]
    want[p + '_IMAGE'] = c.image, 0
    want[p + '_SDC_VELOCITY'] = c.velocity, 1e-5
    want[p + '_POSE'] = c.pose, 1e-4
    for t, k in zip(c.times, ('POSE_TIMESTAMP', 'ROLLING_SHUTTER_DURATION', 'CAMERA_TRIGGER_TIME', 'CAMERA_READOUT_DONE_TIME')):
      want['%s_%s' % (p, k)] = np.array(t), 1e-4
  for n, c in fr.camera_cals.items():
    p = CAMERAS[n]
    want[p + '_INTRINSIC'] = c.intrinsic, 1e-3
    want[p + '_EXTRINSIC'] = c.ext, 1e-4
    want[p + '_WIDTH'], want[p + '_HEIGHT'] = (np.array(c.size[0]), 0), (np.array(c.size[1]), 0)
    want[p + '_ROLLING_SHUTTER_DIRECTION'] = np.array(c.dir), 0
  want['TOP_RANGE_IMAGE_POSE'] = fr.lasers[TOP].poses, 0
  want['POSE'] = fr.pose, 1e-6 * fr.far + 1e-5
  want['TIMESTAMP'] = np.array(fr.time), 0
  check(set(d) == set(want), 'keys', '%s: the entries %s differ', where, sorted(set(d) ^ set(want)))
  for k, (v, t) in want.items():
    if t:
      near(d[k], v, t, '%s[%s]' % (where, k))
    else:
      exact(d[k], v, '%s[%s]' % (where, k))


# ---------------------------------------------------------------- synthetic range images and depth images

def fake_batch():
  """Points seen by virtual sensors: a batch of point clouds with what their range images must be."""
  g = np.random.RandomState(W(1 << 20))
  o = Obj()
  b, h, w, n = 1 + W(3), 1 + W(5), 1 + W(9), 1 + W(12)
  o.size, o.features = (h, w), WP(1, 2)
  o.ext = np.stack([pose(g, 3, .3) for _ in range(b)])
  # rows from the highest to the lowest beam, at least .06 apart
  o.inc = np.stack([(.5 - .08 * np.arange(h) + g.uniform(-.01, .01, h)) for _ in range(b)])
  o.points, o.index, o.ranges = np.zeros((b, n, 3)), np.zeros((b, n, 2), int), np.zeros((b, n))
  o.feat = np.stack([g.uniform(0, 2, (b, n)) ** 3, g.uniform(0, 1.4, (b, n))], -1)
  o.feat = f32(o.feat)
  o.count = [0] * b
  o.image = np.zeros((b, h, w))
  o.polar = np.zeros((b, h, w, 3))
  near_ = WP(1, 2)
  for q in range(b):
    o.count[q] = int(g.randint(n + 1))
    best = {}
    steps = 100 + 20 * g.permutation(n)  # all ranges differ by several units
    for k in range(n):
      if near_ and k and g.randint(2):
        j, i = o.index[q, k - 1]
      else:
        j, i = int(g.randint(h)), int(g.randint(w))
      a = azimuth(o.ext[q], i, w) + float(g.uniform(-.4, .4)) * 2 * math.pi / w
      e = o.inc[q, j] + float(g.uniform(-.02, .02))
      r = (steps[k] + .5) * STEP
      p = o.ext[q].dot([r * math.cos(e) * math.cos(a), r * math.cos(e) * math.sin(a), r * math.sin(e), 1])
      o.points[q, k], o.index[q, k], o.ranges[q, k] = p[:3], (j, i), r
      if k < o.count[q] and r < best.get((j, i), (1e9,))[0]:
        best[j, i] = r, k
    for (j, i), (r, k) in best.items():
      o.image[q, j, i] = r
      o.polar[q, j, i] = steps[k] * STEP, o.feat[q, k, 0], math.floor(o.feat[q, k, 1] / STEP) * STEP
  return o


def depth_batch():
  g = np.random.RandomState(W(1 << 20))
  o = Obj()
  b, h, w = 1 + W(3), 1 + W(4), 1 + W(5)
  o.size = (1 + W(6), 1 + W(6))
  o.ext = np.stack([pose(g, 3) for _ in range(b)])
  o.xyz = f32(g.uniform(-40, 40, (b, h, w, 3)))
  o.cp = np.zeros((b, h, w, 6), int)
  o.cp[..., 0], o.cp[..., 3] = g.randint(0, 3, (b, h, w)), g.randint(0, 3, (b, h, w))
  for k in (1, 4):
    o.cp[..., k], o.cp[..., k + 1] = g.randint(0, o.size[1], (b, h, w)), g.randint(0, o.size[0], (b, h, w))
  o.camera = 1 + W(2)
  o.want = np.zeros((b,) + o.size)
  for q, j, i in np.ndindex(b, h, w):
    c = o.cp[q, j, i]
    k = 0 if c[0] == o.camera else 3 if c[3] == o.camera else None
    if k is None:
      continue
    d = float(np.linalg.norm(o.xyz[q, j, i] - o.ext[q, :3, 3]))
    y, x = c[k + 2], c[k + 1]
    if o.want[q, y, x] == 0 or d < o.want[q, y, x]:
      o.want[q, y, x] = d
  return o


def check_virtual(o, out, where):
  images, index, ranges = (np.asarray(x.numpy()) for x in out)
  exact(index, o.index, where + ': pixels of the points', 'pixel')
  near(ranges, o.ranges, 1e-3, where + ': ranges of the points')
  if not o.features:
    near(images, o.image, 1e-3, where)
    return
  check(images.shape == o.polar.shape, 'shape', '%s has the shape %r', where, images.shape)
  near(images[..., 0], o.polar[..., 0], STEP * 1.01, where + ' (range)')
  # intensity keeps the upper half of the bits of a float
  near(images[..., 1], o.polar[..., 1], 0.008 * np.abs(o.polar[..., 1]) + 1e-30, where + ' (intensity)')
  near(images[..., 2], o.polar[..., 2], STEP * 1.01, where + ' (elongation)')


# ---------------------------------------------------------------- compressed lidar of the motion data

def womd_laser(fr, n):
  """(laser, quantised copy of the laser): recorded with finite steps."""
  l = fr.lasers[n]
  enc, q = M['delta'], Obj()
  q.cal, q.returns, q.poses = l.cal, [], None
  m = M['clpb'].CompressedLaser(name=n)
  steps = [2.0 ** -8, 2.0 ** -6, 2.0 ** -7, 1.0]
  for k in range(2):
    r, t = Obj(), (m.ri_return1, m.ri_return2)[k]
    image = l.returns[k % len(l.returns)].image
    r.image = np.round(image / steps) * steps
    t.range_image_delta_compressed = enc.compress(r.image, steps)
    q.returns.append(r)
  if n == TOP:
    steps = [2.0 ** -14] * 3 + [2.0 ** -6] * 3
    q.poses = np.round(l.poses / steps) * steps
    m.ri_return1.range_image_pose_delta_compressed = enc.compress(q.poses, steps)
  q.xyz = [measured(q.cal, r.image[..., 0], q.poses, fr.pose) for r in q.returns]
  return m, q


def check_womd(out, fr, n, q, where):
  check(len(out) == 4, 'shape', '%s: %d results', where, len(out))
  for k in range(2):
    mask = q.returns[k].image[..., 0] > 0
    near(out[2 * k], q.xyz[k][mask], tol(fr, n), '%s: points of return %d' % (where, k + 1))
    near(out[2 * k + 1], q.returns[k].image[mask][:, :3], 1e-6, '%s: features of return %d' % (where, k + 1))


# ---------------------------------------------------------------- workers

RATES = {}


def on_op(name):
  rt.C.steps += 1
  rate = RATES.get(threading.get_ident(), 0)
  if rate and FP(1, rate):
    fault('op fails')
    rt.event('fails in ' + name)
    raise tfsim.ResourceExhaustedError('OOM in ' + name)


def damage(frame):
  """Spoils one compressed image; None if it may read as before."""
  las = frame.lasers[F(len(frame.lasers))]
  r = (las.ri_return1, las.ri_return2)[F(2)]
  names = [n for n in ('range_image_compressed', 'camera_projection_compressed', 'segmentation_label_compressed') if getattr(r, n)]
  if las.name == TOP and r.range_image_pose_compressed:
    names.append('range_image_pose_compressed')
  if not names:
    return None
  name = names[F(len(names))]
  b = bytearray(getattr(r, name))
  if F(2):
    del b[1 + F(len(b) - 1):]
    what = 'image cut'
  else:
    k = F(len(b) * 8)
    b[k // 8] ^= 1 << k % 8
    what = 'bit of an image flipped'
  try:
    x = (M['pb'].MatrixInt32 if 'proj' in name or 'label' in name else M['pb'].MatrixFloat).FromString(zlib.decompressobj().decompress(bytes(b)))
    del x
    return None
  except (zlib.error, M['DecodeError']):
    pass
  setattr(r, name, bytes(b))
  return what


def refused(f, what, where):
  try:
    f()
  except rt.End:
    raise
  except MemoryError:
    raise
  except Exception as e:  # pylint: disable=broad-except
    rt.event('refused %s: %s' % (what, type(e).__name__))
    probe('refused: ' + what)
  else:
    rt.violation('accepted', '%s: %s gave a result', where, what)


def run():
  frames = [make_frame(k) for k in range(1 + W(2))]
  rt.note([f.bytes for f in frames])
  fu, lu, ru, wu, tf = M['frame_utils'], M['lidar_utils'], M['range_image_utils'], M['womd'], M['tf']
  tfsim.ON_OP = on_op
  rate = (0, 120, 30, 10)[F(4)]
  nw, keep = 1 + W(3), W(2)
  read, clouds = {}, []
  total = [0]
  jobs = []
  for fr in frames:
    jobs += [(fr, 'cartesian', k, p) for k in (0, 1) for p in (0, 1) if W(2)]
    jobs += [(fr, 'cloud', k, p) for k in (0, 1) for p in (0, 1)]
    jobs += [(fr, 'dict', 0, 0), (fr, 'parse', 0, 0)]
    for n in list(fr.lasers):
      jobs.append((fr, 'v2', n, W(2)))
      if W(2):
        jobs.append((fr, 'womd', n, 0))
    if len(fr.lasers) < 5 and not fr.empty and W(2):
      jobs.append((fr, 'absent', 0, 0))
  jobs += [(fake_batch(), 'virtual', 0, 0) for _ in range(W(3))] + [(depth_batch(), 'depth', 0, 0) for _ in range(W(3))]
  jobs += [(None, 'crop', W(1 << 16), 0) for _ in range(W(3))]
  if W(2):
    jobs.append((None, 'codes', W(1 << 16), 0))
  jobs = jobs[:40]
  womd = {}

  def of(fr, t):
    """The frame, parsed, as worker t has it."""
    k = fr.k if keep else (fr.k, t)
    if k not in read:
      f = M['pb'].Frame.FromString(fr.bytes)
      p = fu.parse_range_image_and_camera_projection(f)
      parsed(p, fr, fr.name)
      read.setdefault(k, (f, p, [[m.SerializeToString() for v in d.values() for m in v] for d in p[:3]], p[3].SerializeToString(), fr))
    return read[k][:2]

  def components(fr, f, n):
    """The v2 components of one laser."""
    i, x = M['interfaces'], M['extract']
    las = lu.get_laser_by_name(f, M['LaserName'](n))
    check(las.name == n, 'laser', 'get_laser_by_name(%s) returns the laser %s', LASERS[n], LASERS.get(las.name))
    cal = [c for c in f.context.laser_calibrations if c.name == n][0]
    src = i.LiDARComponentSrc(frame=f, laser=las)
    one = lambda c, s: list(x[c]()(s))[0]
    return (one('lidar', src), one('projection', src), one('pose', src) if n == TOP else None,
            one('calibration', i.LiDARCalibrationComponentSrc(frame=f, lidar_calibration=cal)), one('vehicle', i.FrameComponentSrc(frame=f)))

  def do(t, job):
    fr, kind, a, polar = job
    if kind in ('virtual', 'depth', 'crop', 'codes'):
      return do_plain(t, job)
    f, p = of(fr, t)
    where = 'worker %d, %s, %s' % (t, fr.name, kind)
    kw = dict(([('ri_index', a)] if a else []) + ([('keep_polar_features', True)] if polar else []))
    if kind == 'cartesian':
      if a == 1 and not fr.both:
        refused(lambda: fu.convert_range_image_to_cartesian(f, p[0], p[3], ri_index=a), 'a return that was not recorded', where)
        return None
      out = fu.convert_range_image_to_cartesian(f, p[0], p[3], **kw)
      check(set(out) == set(fr.lasers), 'lasers', '%s: lasers %r instead of %r', where, sorted(out), sorted(fr.lasers))
      return lambda: [cartesian(out[n], fr, n, a, polar, '%s of %s, return %d' % (where, LASERS[n], a + 1)) for n in fr.lasers]
    if kind == 'cloud':
      if a == 1 and not fr.both:
        refused(lambda: fu.convert_range_image_to_point_cloud(f, p[0], p[1], p[3], ri_index=a), 'a return that was not recorded', where)
        return None
      points, cps = fu.convert_range_image_to_point_cloud(f, p[0], p[1], p[3], **kw)
      names = sorted(fr.lasers)
      check(len(points) == len(names) == len(cps), 'lasers', '%s: %d point clouds and %d projections for %d lasers', where, len(points), len(cps), len(names))

      def judge():
        for n, x, c in zip(names, points, cps):
          w = '%s of %s, return %d' % (where, LASERS[n], a + 1)
          cloud(x, fr, n, a, polar, w)
          projections(c, fr, n, a, w)
          total[0] += len(x)
      return judge
    if kind == 'dict':
      if not fr.both:
        refused(lambda: fu.convert_frame_to_dict(f), 'a return that was not recorded', where)
        return None
      d = fu.convert_frame_to_dict(f)
      return lambda: frame_dict(d, fr, where)
    if kind == 'parse':
      if FP(1, 2):
        mine = M['pb'].Frame.FromString(fr.bytes)
        what = damage(mine)
        if what:
          fault(what)
          rates, RATES[threading.get_ident()] = RATES.get(threading.get_ident(), 0), 0
          refused(lambda: fu.parse_range_image_and_camera_projection(mine), 'a damaged image', where)
          RATES[threading.get_ident()] = rates
      q = fu.parse_range_image_and_camera_projection(f)
      return lambda: parsed(q, fr, where)
    if kind == 'absent':
      n = [n for n in LASERS if n not in fr.lasers][0]
      refused(lambda: lu.get_laser_by_name(f, M['LaserName'](n)), 'a laser that is not there', where)
      return None
    where += ' of ' + LASERS[a]
    if kind == 'v2':
      lidar, proj, lpose, cal, vehicle = components(fr, f, a)
      kw = dict(pixel_pose=lpose.range_image_return1, frame_pose=vehicle) if a == TOP else {}
      if polar:
        kw['keep_polar_features'] = True
      outs = []
      for k, r in enumerate(lidar.range_image_returns):
        if k >= len(fr.lasers[a].returns):
          check(r is None, 'extra', '%s: a return that was not recorded', where)
          continue
        outs.append((k, lu.convert_range_image_to_cartesian(r, cal, **kw),
                     lu.convert_range_image_to_point_cloud(r, cal, **kw),
                     lu.extract_pointwise_camera_projection(r, proj.range_image_returns[k])))
      if a == TOP:
        local = lu.convert_lidar_pose_range_image_to_transformation(lpose.range_image_return1)

      def judge():
        for k, x, c, e in outs:
          w = '%s, return %d' % (where, k + 1)
          cartesian(x, fr, a, k, polar, w)
          cloud(c, fr, a, k, polar, w)
          projections(e, fr, a, k, w)
          total[0] += len(np.asarray(c.numpy()))
        if a == TOP:
          ps = fr.lasers[a].poses
          want = np.array([[rigid(euler(*q[:3]), q[3:]) for q in row] for row in ps])
          near(local, want, 2e-6, where + ': pixel poses')
      return judge
    assert kind == 'womd'
    if (fr.k, a) not in womd:
      womd[fr.k, a] = womd_laser(fr, a)
    m, q = womd[fr.k, a]
    before = m.SerializeToString()
    cal = [c for c in f.context.laser_calibrations if c.name == a][0]
    if a == TOP:
      out = wu.extract_top_lidar_points(m, tf.convert_to_tensor(np.array(f.pose.transform).reshape(4, 4)), cal)
    else:
      out = wu.extract_side_lidar_points(m, cal)
    check(m.SerializeToString() == before, 'input-changed', '%s changed the laser', where)
    return lambda: check_womd(out, fr, a, q, where)

  def do_plain(t, job):
    o, kind, a, _ = job
    where = 'worker %d, %s' % (t, kind)
    c = lambda x, d=np.float32: tf.constant(np.asarray(x, d))
    if kind == 'virtual':
      out = ru.build_range_image_from_point_cloud(c(o.points), c(o.count, np.int32), c(o.ext), c(o.inc), list(o.size),
                                                  point_features=c(o.feat) if o.features else None)
      return lambda: check_virtual(o, out, where)
    if kind == 'depth':
      out = ru.build_camera_depth_image(c(o.xyz), c(o.ext), c(o.cp, np.int32), list(o.size), o.camera)
      return lambda: near(out, o.want, 1e-4, where)
    g = np.random.RandomState(a)
    if kind == 'codes':
      n = 1 + g.randint(8)
      x = f32(np.stack([g.uniform(0, 380, n), g.uniform(0, 2, n) ** 4, g.uniform(0, 1.48, n)], -1))
      bad = x.copy()
      bad[g.randint(n), (0, 2, 0, 2)[a % 4]] = (-1, -.5, 384, 1.6)[a % 4]
      refused(lambda: ru.encode_lidar_features(c(bad)), 'a range or elongation that cannot be encoded', where)
      codes = ru.encode_lidar_features(c(x))
      y = ru.decode_lidar_features(codes)

      def judge():
        near(y, x, np.array([1.01 * STEP, 1, 1.01 * STEP]) * 1.0, where)
        z = np.asarray(y.numpy())
        near(z[:, 1], x[:, 1], .008 * x[:, 1], where + ' (intensity)')
        check((z <= x + 1e-4).all(), 'order', '%s: decoded values exceed the encoded', where)
        k = np.asarray(codes.numpy())
        for i in range(n):
          for j in range(n):
            if x[i, 0] > x[j, 0] + 2 * STEP:
              check((k[i] > k[j]).all(), 'order', '%s: codes are not ordered by range', where)
      return judge
    b, h, w = 1 + g.randint(3), 1 + g.randint(3), 1 + g.randint(9)
    x = g.uniform(size=(b, h, w) + ((2,) if g.randint(2) else ()))
    new = 1 + g.randint(w)
    left = (w - new) // 2
    shift = [int(g.randint(-left, w - new - left + 1)) for _ in range(b)] if g.randint(2) else None
    if new < w:
      bad = list(shift or [0] * b)
      bad[g.randint(b)] = (-left - 1, w - new - left + 1)[g.randint(2)]
      refused(lambda: ru.crop_range_image(tf.constant(x), int(new), shift=bad), 'a window outside the image', where)
      refused(lambda: ru.crop_range_image(tf.constant(x), 0), 'an empty window', where)
    refused(lambda: ru.crop_range_image(tf.constant(x), int(w + 1)), 'a window wider than the image', where)
    out = ru.crop_range_image(tf.constant(x), int(new), shift=shift)
    want = np.stack([x[q][:, left + (shift[q] if shift else 0):][:, :new] for q in range(b)])
    return lambda: near(out, want, 1e-6, where)

  order = rt.permutation(rt.SCHED, len(jobs))
  shares = [[jobs[k] for k in order[i::nw]] for i in range(nw)]
  th = world.Threads((4, 10, 40)[S(3)])
  oom = F(3) == 2

  def body(t):
    def go():
      for job in shares[t]:
        for again in range(5):
          RATES[threading.get_ident()] = rate if again < 3 else 0
          try:
            if oom and again < 3 and F(4) == 3:
              th.fail[t] = F(200)
            judge = do(t, job)
            break
          except tfsim.ResourceExhaustedError:
            check(again < 3, 'raises', 'worker %d: an operation fails by itself', t)
            probe('retry')
          except MemoryError:
            check(again < 3, 'raises', 'worker %d runs out of memory by itself', t)
            probe('job repeated')
            th.retrace()
          finally:
            th.fail.pop(t, None)
            RATES[threading.get_ident()] = 0
        if judge is not None:
          judge()
          clouds.append(judge)
        rt.event('worker %d: %s' % (t, job[1]))
        if FP(1, 12):
          fault('worker restarted')
          for key in [q for q in read if not keep and q[1] == t]:
            del read[key]
    return go
  if nw > 1 or oom:
    for t, e in th.run([body(t) for t in range(nw)]):
      if isinstance(e, Exception):
        raise e
      rt.violation('error', 'worker %d: %s: %s', t, type(e).__name__, str(e)[:300])
  else:
    body(0)()
  for f, p, mats, top, fr in read.values():
    check(f.SerializeToString() == fr.bytes, 'input-changed', 'making clouds of %s changed it', fr.name)
    check([[m.SerializeToString() for v in d.values() for m in v] for d in p[:3]] == mats and p[3].SerializeToString() == top, 'input-changed',
          'making clouds of %s changed its parsed images', fr.name)
    f.Clear()
    for d in p[:3]:
      for v in d.values():
        for m in v:
          m.Clear()
    p[3].Clear()
  for judge in clouds:  # clouds outlive the frames they came from
    judge()
  tfsim.ON_OP = None
  if total[0] > 10:
    rt.nontrivial()


def _jpeg(a, b):
  b = bytes(b[()])
  if b[:5] != b'\xff\xd8sim':
    raise tfsim.InvalidArgumentError('Unknown image file format')
  return np.frombuffer(b[11:], np.uint8).reshape(struct.unpack('<HHH', b[5:11]))


def setup(args):
  from props import c27
  c27.setup(args)
  import sys
  tf = sys.modules['tensorflow']
  tfsim.KERNELS['DecodeJpeg'] = _jpeg
  tf.io.decode_jpeg = lambda contents, channels=0, name=None: tfsim._op('DecodeJpeg', [tfsim.Tensor(np.array(contents, object))])
  tf.image.decode_jpeg = tf.io.decode_jpeg
  from waymo_open_dataset import dataset_pb2
  from waymo_open_dataset.protos import compressed_lidar_pb2
  from waymo_open_dataset.utils import frame_utils, range_image_utils, womd_lidar_utils
  from waymo_open_dataset.utils.compression import delta_encoder
  from waymo_open_dataset.v2.perception import lidar
  from waymo_open_dataset.v2.perception.compat_v1 import context as xcontext, interfaces, lidar as xlidar, pose as xpose
  from waymo_open_dataset.v2.perception.utils import lidar_utils
  from google.protobuf import message
  M.update(pb=dataset_pb2, clpb=compressed_lidar_pb2, interfaces=interfaces, DecodeError=message.DecodeError, tf=tf, frame_utils=frame_utils,
           range_image_utils=range_image_utils, womd=womd_lidar_utils, delta=delta_encoder, lidar_utils=lidar_utils, LaserName=lidar.LaserName)
  M['extract'] = dict(lidar=xlidar.LiDARComponentExtractor, projection=xlidar.LiDARCameraProjectionComponentExtractor,
                      pose=xlidar.LiDARPoseComponentExtractor, calibration=xcontext.LiDARCalibrationComponentExtractor,
                      vehicle=xpose.VehiclePoseFrameExtractor)
  return run
