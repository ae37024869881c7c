"""C31: object assets compressed, read back and moved between frames by unreliable workers in any order."""
import json, math, sys, threading, types
import numpy as np
import rt, world, tfsim, tfeager, segsim, arrowsim
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}


class Obj:
  pass


val = lambda x: x.numpy() if hasattr(x, 'numpy') else x
arr = lambda x: np.asarray(val(x), np.float64)
eps = lambda x: float(np.finfo(np.asarray(val(x)).dtype).eps)


def near(have, want, tol, where):
  h, want = arr(have), np.asarray(want, np.float64)
  check(h.shape == want.shape, 'shape', '%s has the shape %r instead of %r', where, h.shape, want.shape)
  bad = ~((np.abs(h - want) <= tol) | (h == want))
  if bad.any():
    k = tuple(int(v) for v in np.argwhere(bad)[0])
    rt.violation('value', '%s: %.9g instead of %.9g at %r', where, h[k], want[k], k)


def same_type(have, like, where):
  check(np.asarray(val(have)).dtype == np.asarray(val(like)).dtype, 'dtype', '%s has the type %s', where, np.asarray(val(have)).dtype)


# ---------------------------------------------------------------- compressed rays

def make_asset(g, ts, i, flat):
  a = Obj()
  a.h, a.w = int(g.randint(1, 3 * ts + 2)), int(g.randint(1, 3 * ts + 2))
  a.fits = (-a.h) % ts <= a.h - 1 and (-a.w) % ts <= a.w - 1  # what a reflection can fill
  base = g.uniform(-30, 30, 3)
  y, x = np.mgrid[:a.h, :a.w]
  slope = g.normal(size=(2, 3)) * .05
  org = base + .02 * (y[..., None] * slope[0] + x[..., None] * slope[1]) + (0 if flat else g.normal(size=(a.h, a.w, 3)) * .01)
  d = g.normal(size=3) * .2 - base / max(np.linalg.norm(base), 1)
  d = d + y[..., None] * slope[0] + x[..., None] * slope[1] + g.normal(size=(a.h, a.w, 3)) * .003
  d /= np.linalg.norm(d, axis=-1, keepdims=True)
  a.origin, a.direction = org.astype(np.float32), d.astype(np.float32)
  a.vec = np.concatenate([a.origin, a.direction], -1)
  cls = M['asset']
  a.key = M['base'].ObjectAssetKey(segment_context_name='seg%d' % g.randint(3), frame_timestamp_micros=int(g.randint(1 << 40)),
                                   laser_object_id='obj%d' % i, camera_name=int(g.randint(1, 6)))
  img = lambda v: cls.CameraRayImage(values=[float(q) for q in v.reshape(-1)], shape=[a.h, a.w, 3])
  a.make = lambda: cls.ObjectAssetRayComponent(key=a.key, ray_origin=img(a.origin), ray_direction=img(a.direction))
  return a


def tiles_of(vec, ts):
  """Tiles in reading order of the differences from the mean."""
  v = vec.astype(np.float64)
  ref = v.mean((0, 1))
  h, w, d = v.shape
  ny, nx = -(-h // ts), -(-w // ts)
  fold = lambda k, n: k if k < n else 2 * (n - 1) - k
  rows, cols = [fold(k, h) for k in range(ny * ts)], [fold(k, w) for k in range(nx * ts)]
  p = (v - ref)[rows][:, cols]
  return ref, np.stack([p[y * ts:(y + 1) * ts, x * ts:(x + 1) * ts].reshape(-1) for y in range(ny) for x in range(nx)])


def untile(t, h, w, ts):
  nx = -(-w // ts)
  d = t.shape[1] // (ts * ts)
  out = np.zeros((-(-h // ts) * ts, nx * ts, d))
  for i, r in enumerate(t):
    y, x = divmod(i, nx)
    out[y * ts:(y + 1) * ts, x * ts:(x + 1) * ts] = r.reshape(ts, ts, d)
  return out[:h, :w]


class Oracle:
  """What a configuration makes of rays, in double precision."""

  def __init__(self, config):
    p = config.pca
    self.mean, self.std, self.v = np.array(p.mean), np.array(p.std), np.array(p.eigen_vectors)
    self.q, self.ts = np.array(config.quantization), config.tile_size

  def coefs(self, t):
    return ((t - self.mean) / self.std) @ self.v.T

  def judge_code(self, a, code, where):
    ref, t = tiles_of(a.vec, self.ts)
    big = np.abs(a.vec).max()
    near(code.reference, ref, 2e-6 * big, where + ': reference')
    check(list(code.shape)[:2] == [a.h, a.w], 'shape', '%s: shape %r of %d x %d rays', where, code.shape, a.h, a.w)
    check(all(type(k) is int for k in code.quantized_values), 'dtype', '%s: quantized values are not integers', where)
    have = np.array(code.quantized_values, np.float64)
    check(have.size == len(t) * len(self.q), 'shape', '%s: %d quantized values instead of %d', where, have.size, len(t) * len(self.q))
    want = self.coefs(t) / self.q
    slack = (np.abs(self.v) @ (4e-6 * big / self.std)) / self.q
    tol = .5 + slack + 1e-9 * np.abs(want)
    have = have.reshape(want.shape)
    lim = np.clip(want, -2.0 ** 31, 2.0 ** 31 - 1)
    bad = np.abs(have - lim) > tol
    if bad.any():
      k = tuple(int(v) for v in np.argwhere(bad)[0])
      rt.violation('quantized', '%s: component %d of tile %d is %d, expected %.3f', where, k[1], k[0], have[k], lim[k])
    if (np.abs(want) > 2.0 ** 31).any():
      probe('saturated')

  def judge_decoded(self, a, code, got, where):
    n = np.array(code.quantized_values, np.float64).reshape(-1, len(self.q)) * self.q
    scaled = n @ self.v
    t = scaled * self.std + self.mean
    want = untile(t, a.h, a.w, self.ts) + np.array(code.reference)
    tol = 3e-7 * (np.abs(np.array(code.reference)).max() + np.abs(t).max() + 1)
    check(list(got.ray_origin.shape) == [a.h, a.w, 3] == list(got.ray_direction.shape), 'shape', '%s: shapes %r and %r', where,
          got.ray_origin.shape, got.ray_direction.shape)
    near(got.ray_origin.numpy, want[..., :3], tol, where + ': origins')
    near(got.ray_direction.numpy, want[..., 3:], tol, where + ': directions')
    # No further from what was compressed than the rounding and what the components leave out.
    if not (np.abs(n) >= 2.0 ** 31 * self.q - 1).any():
      _, t0 = tiles_of(a.vec, self.ts)
      left = np.abs((self.coefs(t0) @ self.v) * self.std + self.mean - t0)
      big = np.abs(a.vec).max()
      room = left + self.std * (np.abs(self.v).T @ (self.q / 2 + np.abs(self.v) @ (4e-6 * big / self.std))) + 1e-5 * big
      err = np.abs(np.concatenate([got.ray_origin.numpy, got.ray_direction.numpy], -1) - a.vec)
      check((err <= untile(room, a.h, a.w, self.ts)).all(), 'lost', '%s: a ray moved by %.6g', where, err.max())
      if len(self.q) == len(self.mean):
        probe('all components kept')


def judge_fit(tiles, params, nc, where):
  t = tiles.astype(np.float64)
  near(params.mean, t.mean(0), 1e-9 + 1e-9 * np.abs(t).max(), where + ': mean')
  sd = t.std(0)
  sure = sd > 1e-12
  near(np.array(params.std)[sure], sd[sure], 1e-9 + 1e-9 * np.abs(t).max(), where + ': std')
  v = np.array(params.eigen_vectors)
  check(v.shape == (nc, t.shape[1]), 'shape', '%s: components of shape %r', where, v.shape)
  near(v @ v.T, np.eye(nc), 1e-6, where + ': products of the components')
  z = (t - params.mean) / np.array(params.std)
  c = z @ v.T
  var = (c ** 2).sum(0) / (len(t) - 1)
  near(params.eigen_values, var, 1e-6 * (1 + var.max()), where + ': variances')
  best = np.sort(np.linalg.eigvalsh(z.T @ z / (len(t) - 1)))[::-1][:nc]
  near(params.eigen_values, best, 1e-6 * (1 + best.max()), where + ': the largest variances')


# ---------------------------------------------------------------- rows of tables

def store(comp):
  cols, schema = comp.to_flatten_dict(), type(comp).schema()
  check(sorted(cols) == sorted(schema.names), 'columns', '%s: columns %s', type(comp).__name__, sorted(set(cols) ^ set(schema.names)))
  return {f.name: f.type.store(cols[f.name]) for f in schema}


def load(cls, row):
  names = list(row)
  return cls.from_dict({names[j]: row[names[j]] for j in rt.permutation(rt.SCHED, len(names))})


# ---------------------------------------------------------------- frames and boxes

def rot(yaw, pitch=0.0, roll=0.0):
  c, s = math.cos, math.sin
  rz = np.array([[c(yaw), -s(yaw), 0], [s(yaw), c(yaw), 0], [0, 0, 1]])
  ry = np.array([[c(pitch), 0, s(pitch)], [0, 1, 0], [-s(pitch), 0, c(pitch)]])
  rx = np.array([[1, 0, 0], [0, c(roll), -s(roll)], [0, s(roll), c(roll)]])
  return rz @ ry @ rx


def make_scene(g, k):
  o = Obj()
  o.k, o.name = k, 'scene %d' % k
  o.dtype = dt = (np.float32, np.float64)[g.randint(2)]
  far = (0, 0, 200, 20000)[g.randint(4)]
  mid = g.uniform(-far, far, 3)
  n, m, b = 1 + g.randint(30) + 400 * (g.randint(6) == 0), 1 + g.randint(6), 1 + g.randint(3)
  o.boxes = np.concatenate([mid + g.uniform(-10, 10, (m, 3)), g.uniform(.2, 9, (m, 3)), g.uniform(-7, 7, (m, 1))], 1)
  o.boxes[:, 3:6] *= np.where(g.randint(6, size=(m, 3)) == 0, 0, 1)
  if g.randint(3) == 0:
    o.boxes[:, 6] = (math.pi / 2) * g.randint(-4, 5, m)
  crowd = n > 100
  near_box = o.boxes[g.randint(m, size=n) * (0 if crowd else 1)]
  reach = .55 if crowd else .8
  o.points = near_box[:, :3] + g.uniform(-reach, reach, (n, 3)) * np.maximum(near_box[:, 3:6], .5)
  if g.randint(3) == 0 and not crowd:  # off by one axis only
    o.points[:, g.randint(3)] += g.choice([-40, 40], n)
  o.exact = g.randint(5) == 0
  if o.exact:  # no rounding, so that points lie on the sides
    o.boxes = np.concatenate([g.randint(-9, 10, (m, 3)) * .5, g.randint(8, size=(m, 3)) * .5, np.zeros((m, 1))], 1)
    near_box = o.boxes[g.randint(m, size=n)]
    o.points = near_box[:, :3] + near_box[:, 3:6] * g.choice([-.5, -.5, -.25, 0, .25, .5, .5, .75], (n, 3))
  o.boxes, o.points = o.boxes.astype(dt), o.points.astype(dt)
  for i in range(n):  # in a box as thin as a sheet, if it had an inside
    if g.randint(6) == 0:
      o.points[i] = o.boxes[g.randint(m), :3]

  def pose():
    p = np.tile(np.eye(4), (b, 1, 1))
    for i in range(b):
      p[i, :3, :3] = rot(g.uniform(-3.1, 3.1), *(g.uniform(-.4, .4, 2) * g.randint(2)))
      p[i, :3, 3] = mid + g.uniform(-50, 50, 3)
    return p.astype(dt)
  o.a, o.b = pose(), pose()
  o.bpoints = np.stack([np.roll(o.points, i, 0) for i in range(b)]) - (mid if g.randint(2) else 0)
  o.bboxes = np.stack([np.roll(o.boxes, i, 0) for i in range(b)])
  o.bpoints = o.bpoints.astype(dt)
  return o


def local(p, b):
  """Points in the frame of a box."""
  d = p[:, :3].astype(np.float64) - b[:3]
  c, s = math.cos(b[6]), math.sin(b[6])
  return np.stack([c * d[:, 0] + s * d[:, 1], -s * d[:, 0] + c * d[:, 1], d[:, 2]], 1)


def inside(o, dims):
  """Surely inside, and perhaps inside."""
  lo, hi = [], []
  for b in o.boxes.astype(np.float64):
    room = (b[3:3 + dims] / 2 - np.abs(local(o.points, b)[:, :dims])).min(1)
    tol = 0 if o.exact else 24 * np.finfo(o.dtype).eps * (1 + np.abs(o.points).max() + np.abs(b).max())
    flat = (b[3:3 + dims] == 0).any()
    lo.append((room >= tol) & (not flat))
    hi.append((room >= -tol) & (not flat))
  return np.stack(lo, 1), np.stack(hi, 1)


def judge_inside(have, lo, hi, where):
  h = np.asarray(val(have))
  check(h.dtype == bool and h.shape == lo.shape, 'shape', '%s: %s of shape %r', where, h.dtype, h.shape)
  bad = (h & ~hi) | (~h & lo)
  if bad.any():
    k = tuple(int(v) for v in np.argwhere(bad)[0])
    rt.violation('inside', '%s: point %d is %s box %d', where, k[0], 'in' if h[k] else 'not in', k[1])


def judge_rays(o, d, dim, out, where):
  flag, t0, t1 = [np.asarray(v) for v in out]
  n = len(o)
  check(flag.shape == t0.shape == t1.shape == (n,), 'shape', '%s: shapes %r %r %r', where, flag.shape, t0.shape, t1.shape)
  o, d, half = o.astype(np.float64), d.astype(np.float64), dim.astype(np.float64) / 2
  for i in range(n):
    lo, hi, unsure = -np.inf, np.inf, False
    for k in range(3):
      if d[i, k] == 0:
        room = half[k] - abs(o[i, k])
        unsure |= abs(room) < 1e-5
        if room < 0:
          lo, hi = np.inf, -np.inf
      else:
        a, b = sorted(((-half[k] - o[i, k]) / d[i, k], (half[k] - o[i, k]) / d[i, k]))
        lo, hi = max(lo, a), min(hi, b)
    size = 1e-5 * (1 + min(abs(lo), 1e9) + min(abs(hi), 1e9))
    if unsure or abs(hi - lo) < size or abs(hi) < size or abs(lo) < size:
      continue
    hit = lo < hi and hi > 0
    check(bool(flag[i]) == hit, 'ray', '%s: ray %d %s the box', where, i, 'misses' if hit else 'hits')
    if hit:
      near(np.array([t0[i], t1[i]]), [lo, hi], size, '%s: distances of ray %d' % (where, i))
      probe('ray from inside' if lo < 0 else 'ray hits')
    else:
      check(t0[i] < 0 and t1[i] < 0, 'ray', '%s: ray %d hits nothing at the distances %.6g and %.6g', where, i, t0[i], t1[i])
      probe('ray misses')


RATES = {}


def on_op(name):
  rt.C.steps += 1
  rate = RATES.get(threading.get_ident(), 0)
  if rate and FP(1, rate):
    fault('op fails')
    rt.event('fails in ' + name)
    raise tfsim.ResourceExhaustedError('OOM in ' + name)


def refused(f, what, where, kinds=Exception):
  try:
    f()
  except (rt.End, MemoryError, tfsim.ResourceExhaustedError):
    raise
  except kinds as e:
    rt.event('refused %s: %s' % (what, type(e).__name__))
    probe('refused: ' + what)
  else:
    rt.violation('accepted', '%s: %s gave a result', where, what)


def run():
  tf, pca, codec_mod, asset, utils, boxes = [M[k] for k in ('tf', 'pca', 'codec', 'asset', 'utils', 'box')]
  tfsim.ON_OP = on_op
  rate = (0, 300, 80, 30)[F(4)]
  nw, keep = 1 + W(3), W(2)
  g0 = np.random.RandomState(W(1 << 20))
  ts = pick((1, 2, 2, 3, 4))
  flat = W(4) == 3
  assets = [make_asset(g0, ts, i, flat) for i in range(2 + W(4))]
  while sum(-(-a.h // ts) * -(-a.w // ts) for a in assets if a.fits) < 2:
    assets.append(make_asset(g0, ts, len(assets), flat))
  good = [a for a in assets if a.fits]
  scenes = [make_scene(g0, k) for k in range(1 + W(2))]
  full = W(3) == 2
  nc_pick, q_pick, tiny = W(1 << 16), W(1 << 16), W(8) == 7
  rt.note([[a.vec.tobytes() for a in assets], [(o.points.tobytes(), o.boxes.tobytes(), o.a.tobytes()) for o in scenes], ts, nc_pick, q_pick])
  disk, written, fitted, codecs, shared, judges, inputs = {}, {}, {}, {}, {}, [], []

  def hold(a):
    """An input that no call may change."""
    inputs.append((a, a.copy()))
    return a

  def fit(t, j):
    where = 'worker %d, fit %d' % (t, j)
    rows, part = [], good
    if j and sum(-(-a.h // ts) * -(-a.w // ts) for a in good[1:]) > 1:
      part = good[:0:-1]
    for a in part:
      row = store(a.make())
      if q_pick & 1:
        row = {k: np.array(v, np.float32) if k.endswith('values') else v for k, v in row.items()}
      rows.append(row)
    samples = list(codec_mod.iter_ray_samples(M['pd'].DataFrame(rows)))
    check(len(samples) == len(part), 'rows', '%s: %d samples of %d rows', where, len(samples), len(part))
    tiles = []
    for a, s in zip(part, samples):
      near(s, a.vec.astype(np.float64), 0, '%s: sample' % where)
      ref, x = pca.codec_extract_tiles(tf.constant(np.asarray(s, np.float32)), ts)
      r, y = tiles_of(a.vec, ts)
      tol = 3e-6 * np.abs(a.vec).max()
      near(ref, r, tol, where + ': reference')
      near(x, y, 2 * tol, where + ': tiles')
      tiles.append(np.asarray(x.numpy()))
    tiles = np.concatenate(tiles)
    most = min(tiles.shape)
    nc = most if full else 1 + nc_pick % most
    _, params = pca.fit_pca(tiles, nc)
    judge_fit(tiles, params, nc, where)
    z = ((tiles.astype(np.float64) - params.mean) / np.array(params.std)) @ np.array(params.eigen_vectors).T
    g = np.random.RandomState(q_pick + j)
    buckets = [int(v) for v in g.choice([1, 3, 20, 200, 5000], nc)]
    q = pca.bucketed_quantization(z, buckets)
    near(np.array(q, np.float64), np.abs(z).max(0) / buckets, 1e-12 * (1 + np.abs(z).max()), where + ': quantization')
    q = [max(float(v), 1e-4) for v in q]
    if tiny:
      q[g.randint(nc)] = 1e-11
    return codec_mod.ObjectAssetRayCodecConfig(pca=params, quantization=q, tile_size=ts)

  def config_of(t, j):
    """The configuration, from storage if that holds it."""
    if j in disk:
      text = disk[j]
      try:
        c = pca.CodecConfig.from_json(text)
      except (ValueError, M['dacite'].DaciteError):
        check(text != written[j], 'config', 'a configuration that was written whole is refused')
        probe('torn configuration refused')
      else:
        check(text == written[j], 'config', 'a torn configuration is accepted')
        check(c == fitted[j], 'config', 'a configuration reads back differently')
        probe('configuration read')
        return c
    c = fit(t, j)
    text = c.to_json()
    old = fitted.get(j)
    check(old is None or old == c, 'config', 'worker %d: another fit of the same samples differs', t)
    fitted[j], written[j] = c, text
    if FP(1, 3):
      fault('torn write')
      k = F(len(text) - 1)
      disk[j] = text[:k] + ('\0' * (len(text) - k) if F(2) else '')
    else:
      disk[j] = text
    return c

  def codec_of(t, j):
    k = (j, 0 if keep else t)
    if k not in codecs:
      c = config_of(t, j)
      codecs[k] = codec_mod.ObjectAssetRayCodec(c), Oracle(c)
    return codecs[k]

  def tensor(o, name, t):
    k = (o.k, name) if keep else (o.k, name, t)
    if k not in shared:
      shared[k] = (tf.constant(getattr(o, name)), getattr(o, name).copy())
    return shared[k][0]

  def do(t, job):
    kind, seed = job
    g = np.random.RandomState(seed)
    where = 'worker %d, %s' % (t, kind)
    if kind == 'codec':
      codec, orc = codec_of(t, g.randint(2))
      a = assets[g.randint(len(assets))]
      where = '%s of asset %d' % (where, assets.index(a))
      src = a.make()
      if g.randint(2):
        src = load(asset.ObjectAssetRayComponent, store(src))
      if not a.fits:  # a mirror image that large does not exist
        try:
          codec.encode(src)
        except tfsim.InvalidArgumentError:
          probe('asset smaller than its tile refused')
        return None
      code = codec.encode(src)
      check(code.key == a.key, 'key', '%s: the key became %r', where, code.key)
      row = store(code)
      if g.randint(2):
        code = load(asset.ObjectAssetRayCompressedComponent, row)
      got = codec.decode(code)
      check(got.key == a.key, 'key', '%s: the key became %r', where, got.key)
      back = load(asset.ObjectAssetRayComponent, store(got))
      check(store(back) == store(got), 'row', '%s: a row reads back differently', where)
      tens = got.ray_origin.tensor, got.ray_direction.tensor

      def judge():
        check(store(code) == row, 'row', '%s: compressed rays changed', where)
        orc.judge_code(a, code, where)
        orc.judge_decoded(a, code, got, where)
        near(tens[0], got.ray_origin.numpy, 0, where + ': tensor of origins')
        near(tens[1], got.ray_direction.numpy, 0, where + ': tensor of directions')
        near(src.ray_origin.numpy, a.origin, 0, where + ': source')
      return judge
    if kind == 'rays':
      dt = (np.float32, np.float64)[g.randint(2)]
      n = g.randint(25)
      dim = hold(g.uniform(.3, 8, 3).astype(dt))
      org = g.uniform(-1.5, 1.5, (n, 3)) * dim * g.choice([.3, 1, 1, 6], (n, 1))
      to = g.uniform(-.7, .7, (n, 3)) * dim
      d = (to - org) * g.choice([-1, 1, 1], (n, 1))
      d = np.where(g.randint(5, size=(n, 3)) == 0, 0, d)
      d = np.where((d == 0).all(1, keepdims=True), [0, 0, -1.0], d)
      d *= g.choice([1, -1, 0], (n, 3), p=[.9, .05, .05]) if g.randint(2) else 1
      d = np.where((d == 0).all(1, keepdims=True), [0, 1.0, 0], d)
      d /= np.linalg.norm(d, axis=1, keepdims=True) * (1, 1, .1, 7)[g.randint(4)]
      org, d = hold(org.astype(dt)), hold(d.astype(dt))
      out = utils.get_ray_box_intersects(org, d, dim)
      org0, d0, dim0 = org.copy(), d.copy(), dim.copy()
      return lambda: judge_rays(org0, d0, dim0, out, where)
    if kind == 'frames':
      return frames(g, where)
    if kind == 'boxes':
      return in_boxes(scenes[g.randint(len(scenes))], g, t, where)
    if kind == 'moves':
      return moves(scenes[g.randint(len(scenes))], g, t, where)
    if kind == 'tokens':
      return tokens(g, where)
    if kind == 'images':
      return images(g, where)
    assert kind == 'bad'
    refused(lambda: pca.codec_extract_tiles(tf.constant(np.zeros((4, 4), np.float32)), 2), 'rays without a dimension', where)
    k = 2 + g.randint(3)
    refused(lambda: M['tiling'].combine_tiles(tf.constant(np.zeros((1, k * k * 2 + 1), np.float32)), k, k, k), 'tiles of another size', where,
            ValueError)
    codec_of(t, 0)
    whole = written[0]
    d = json.loads(whole)
    what = g.randint(3)
    if what == 0:
      del d[sorted(d)[g.randint(len(d))]]
    elif what == 1:
      del d['pca'][sorted(d['pca'])[g.randint(4)]]
    else:
      d['tile_size'] = 'two'
    refused(lambda: pca.CodecConfig.from_json(json.dumps(d)), 'a configuration without a field', where)
    refused(lambda: pca.CodecConfig.from_json(whole[:g.randint(len(whole) - 1)]), 'a torn configuration', where)
    return None

  def frames(g, where):
    dt, bt = (np.float32, np.float64)[g.randint(2)], (np.float32, np.float64)[g.randint(2)]
    n = g.randint(20)
    far = (1, 30, 30000)[g.randint(3)]
    p = hold(g.uniform(-far, far, (n, 3)).astype(dt))
    box = hold(np.concatenate([g.uniform(-far, far, 3), g.uniform(.5, 9, 3), g.uniform(-7, 7, 1)]).astype(bt))
    pose = np.eye(4)
    pose[:3, :3], pose[:3, 3] = rot(*g.uniform(-3, 3, 3)), g.uniform(-far, far, 3)
    pose = hold(pose.astype(bt))
    a = float(g.uniform(-7, 7))
    outs = [utils.transform_points_to_frame(p, pose), utils.transform_directions_to_frame(p, pose), utils.rotate_points_along_z(p, a),
            utils.transform_points_to_box_coord(p, box), utils.transform_directions_to_box_coord(p, box),
            utils.transform_points_to_box_coord_reverse(p, box)]
    back = utils.transform_points_to_box_coord_reverse(outs[3], box)
    x, b, m = p.astype(np.float64), box.astype(np.float64), pose.astype(np.float64)
    e = 8 * max(eps(p), eps(box))
    r = rot(b[6])
    rpy = g.uniform(-3, 3, (3, 2)).astype(dt)
    mats = [boxes.transform_utils.get_rotation_matrix(*[tf.constant(v) for v in rpy]), boxes.transform_utils.get_yaw_rotation(tf.constant(rpy[0])),
            boxes.transform_utils.get_yaw_rotation_2d(tf.constant(rpy[1]))]
    whole = boxes.transform_utils.get_transform(mats[0], tf.constant(rpy.T.copy()))

    def judge():
      want = [x @ m[:3, :3].T + m[:3, 3], x @ m[:3, :3].T, x @ rot(a).T, (x - b[:3]) @ r, x @ r, x @ r.T + b[:3]]
      for h, w, what in zip(outs, want, ('points to a frame', 'directions to a frame', 'rotated points', 'points to a box',
                                         'directions to a box', 'points from a box')):
        near(h, w, e * 4 * (1 + far), '%s: %s' % (where, what))
        same_type(h, p, '%s: %s' % (where, what))
      near(back, x, e * 6 * (1 + far), where + ': points to a box and back')
      tol = 16 * np.finfo(dt).eps
      near(mats[0], [rot(float(w), float(v), float(u)) for u, v, w in rpy.T], tol, where + ': rotation')
      near(mats[1], [rot(float(v)) for v in rpy[0]], tol, where + ': yaw rotation')
      near(mats[2], [rot(float(v))[:2, :2] for v in rpy[1]], tol, where + ': yaw rotation in 2D')
      w = np.tile(np.eye(4), (2, 1, 1))
      w[:, :3, :3], w[:, :3, 3] = arr(mats[0]), rpy.T
      near(whole, w, 0, where + ': transform')
    return judge

  def in_boxes(o, g, t, where):
    where += ' in %s' % o.name
    p, b = tensor(o, 'points', t), tensor(o, 'boxes', t)
    flags = boxes.is_within_box_3d(p, b)
    count = boxes.compute_num_points_in_box_3d(p, b)
    flat_p, flat_b = tf.constant(o.points[:, :2].copy()), tf.constant(o.boxes[:, [0, 1, 3, 4, 6]].copy())
    flags2 = boxes.is_within_box_2d(flat_p, flat_b)
    corners = boxes.get_upright_3d_box_corners(b)
    i = g.randint(len(o.boxes))
    names = ('center_x', 'center_y', 'center_z', 'length', 'width', 'height', 'heading')
    proto = M['label'].Label.Box(**dict(zip(names, [float(v) for v in o.boxes[i]])))
    one = boxes.box_to_tensor(proto)

    def judge():
      lo, hi = inside(o, 3)
      judge_inside(flags, lo, hi, where + ' (3D)')
      c = np.asarray(val(count))
      check(c.dtype == np.int32 and c.shape == (len(o.boxes),), 'shape', '%s: counts %s of shape %r', where, c.dtype, c.shape)
      check(((c >= lo.sum(0)) & (c <= hi.sum(0))).all(), 'inside', '%s: counts %s, expected %s to %s', where, c.tolist(), lo.sum(0).tolist(),
            hi.sum(0).tolist())
      judge_inside(flags2, *inside(o, 2), where + ' (2D)')
      if lo.any():
        probe('point in box')
      want = []
      for v in o.boxes.astype(np.float64):
        at = [(x * v[3] / 2, y * v[4] / 2, z * v[5] / 2) for z in (-1, 1) for x, y in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
        want.append(np.array(at) @ rot(v[6]).T + v[:3])
      near(corners, want, 16 * np.finfo(o.dtype).eps * (1 + np.abs(o.boxes).max()), where + ': corners')
      same_type(corners, o.boxes, where + ': corners')
      near(one, o.boxes[i].astype(np.float32), 0, where + ': box of a proto')
    return judge

  def moves(o, g, t, where):
    where += ' in %s' % o.name
    one = g.randint(2)
    a, b, p, x = o.a, o.b, o.bpoints, o.bboxes
    if one:
      args = [tf.constant(v[0].copy()) for v in (p, x, a, b)]
      a, b, p, x = a[:1], b[:1], p[:1], x[:1]
    else:
      args = [tensor(o, n, t) for n in ('bpoints', 'bboxes', 'a', 'b')]
    pts, bxs = boxes.transform_point(args[0], args[2], args[3]), boxes.transform_box(args[1], args[2], args[3])
    again = boxes.transform_box(bxs, args[3], args[2])
    back = boxes.transform_point(pts, args[3], args[2])

    def judge():
      m = np.linalg.inv(b.astype(np.float64)) @ a.astype(np.float64)
      move = lambda v: np.einsum('bij,bnj->bni', m[:, :3, :3], v.astype(np.float64)) + m[:, None, :3, 3]
      tol = 24 * np.finfo(o.dtype).eps * (1 + np.abs(a).max() + np.abs(b).max() + np.abs(p).max() + np.abs(x).max())
      cut = (lambda v: v[0]) if one else (lambda v: v)
      near(pts, cut(move(p)), tol, where + ': points')
      same_type(pts, p, where + ': points')
      near(back, cut(p.astype(np.float64)), 3 * tol, where + ': points there and back')
      check(arr(bxs).shape == cut(x).shape, 'shape', '%s: boxes of shape %r', where, arr(bxs).shape)
      near(arr(bxs)[..., :3], cut(move(x[..., :3])), tol, where + ': centres')
      near(arr(bxs)[..., 3:6], cut(x[..., 3:6].astype(np.float64)), 0, where + ': sizes')
      turn = np.arctan2(m[:, 1, 0], m[:, 0, 0])[:, None]
      off = arr(bxs)[..., 6] - cut(x[..., 6].astype(np.float64) + turn)
      near((off + math.pi) % (2 * math.pi) - math.pi, np.zeros(off.shape), 2e-5, where + ': headings')
      same_type(bxs, x, where + ': boxes')
      near(arr(again)[..., :3], cut(x[..., :3].astype(np.float64)), 3 * tol, where + ': boxes there and back')
    return judge

  def tokens(g, where):
    sc = M['scenario']
    s, d = sc.Scenario(scenario_id='s%d' % g.randint(99), current_time_index=int(g.randint(90))), sc.Scenario()
    s.timestamps_seconds.extend(float(v) for v in range(g.randint(4)))
    for i in range(g.randint(3)):
      s.tracks.add(id=int(g.randint(1 << 20)))
    for m, n in ((s, g.randint(3)), (d, g.randint(4))):
      for _ in range(n):
        f = m.frame_camera_tokens.add()
        for c in range(1, 1 + g.randint(4)):
          f.camera_tokens.add(camera_name=c, tokens=[int(v) for v in g.randint(0, 8192, g.randint(5))])
    before = s.SerializeToString(), d.SerializeToString()
    out = M['womd'].add_camera_tokens_to_scenario(s, d)
    check((s.SerializeToString(), d.SerializeToString()) == before, 'input-changed', '%s: a scenario was changed', where)
    want = sc.Scenario.FromString(before[0])
    want.MergeFrom(sc.Scenario.FromString(before[1]))
    d.Clear()
    for f in s.frame_camera_tokens:
      f.Clear()
    s.scenario_id = 'other'
    n = 1 + g.randint(40)
    book = hold(g.normal(size=(n, 1 + g.randint(6))).astype(np.float32))
    it = (np.int32, np.int64, np.uint32)[g.randint(3)]
    ids = hold(g.randint(0, n, 1 + g.randint(12)).astype(it))
    emb = M['womd'].get_camera_embedding_from_codebook(book, ids)
    rows = book.copy()[ids.astype(np.int64)]
    for k in (n, n + 5, -1, -n):
      if k < 0 and it is np.uint32:
        continue
      bad = ids.copy()
      bad[g.randint(len(bad))] = k
      refused(lambda: M['womd'].get_camera_embedding_from_codebook(book, bad), 'a token outside the codebook', where, ValueError)

    def judge():
      check(out == want, 'tokens', '%s: scenario with tokens\n%s\ninstead of\n%s', where, out, want)
      near(emb, rows, 0, where + ': embedding')
    return judge

  def images(g, where):
    key = M['base'].ObjectAssetKey(segment_context_name='s', frame_timestamp_micros=int(g.randint(9)), laser_object_id='o', camera_name=1)
    h, w = 1 + g.randint(6), 1 + g.randint(6)
    pic = lambda c, dt: g.randint(0, np.iinfo(dt).max + 1, (h, w, c)).astype(dt)
    rgb, mask, sem, ins, obj = pic(3, np.uint8), pic(1, np.uint8), pic(1, np.uint8), pic(1, np.uint16), pic(1, np.uint8)
    dist = g.uniform(0, 80, (h, w)).astype(np.float32)
    c2 = M['columns']
    region = c2.BoxAxisAligned2d(center=c2.Vec2d(x=float(g.uniform(0, 1900)), y=3.5), size=c2.Vec2d(x=float(w), y=float(h)))
    comps = [
        asset.ObjectAssetCameraSensorComponent(
            key=key, camera_region=region, rgb_image=segsim.png_bytes(rgb), proj_points_mask=segsim.png_bytes(mask),
            proj_points_dist=asset.LidarDistanceImage(values=[float(v) for v in dist.reshape(-1)], shape=[h, w])),
        asset.ObjectAssetAutoLabelComponent(key=key, semantic_mask=segsim.png_bytes(sem), instance_mask=segsim.png_bytes(ins),
                                            object_mask=segsim.png_bytes(obj))]
    pts = g.uniform(-3, 3, (g.randint(5), 3)).astype(np.float32)
    lk = M['base'].LaserLabelKey(segment_context_name='s', frame_timestamp_micros=3, laser_object_id='o')
    comps.append(asset.ObjectAssetLiDARSensorComponent(key=lk, points_xyz=asset.PointCoordinates(
        values=[float(v) for v in pts.reshape(-1)], shape=list(pts.shape))))
    pose = [float(v) for v in g.normal(size=16)]
    comps.append(asset.ObjectAssetRefinedPoseComponent(key=lk, box_from_vehicle=c2.Transform(transform=pose)))
    rows = [store(c) for c in comps]
    cam, lab, lid, ref = [load(type(c), r) for c, r in zip(comps, rows)]
    check([cam, lab, lid, ref] == comps, 'row', '%s: a row reads back differently', where)
    got = [cam.rgb_image_numpy, cam.proj_points_mask_numpy, lab.semantic_mask_numpy, lab.instance_mask_numpy, lab.object_mask_numpy]
    shaped = [cam.proj_points_dist.numpy, cam.proj_points_dist.tensor, lid.points_xyz.numpy, lid.points_xyz.tensor]

    def judge():
      for a, b, n in zip(got, (rgb, mask, sem, ins, obj), ('picture', 'mask', 'semantic mask', 'instance mask', 'object mask')):
        near(a, b, 0, '%s: %s' % (where, n))
        same_type(a, b, '%s: %s' % (where, n))
      for a, b in zip(shaped, (dist, dist, pts, pts)):
        near(a, b, 0, where + ': shaped values')
      check(ref.box_from_vehicle.transform == pose, 'row', '%s: the pose reads back differently', where)
    return judge

  kinds = ['codec', 'codec', 'codec', 'rays', 'rays', 'frames', 'boxes', 'moves', 'tokens', 'images', 'bad']
  jobs = [('codec', W(1 << 16))] + [(pick(kinds), W(1 << 16)) for _ in range(3 + W(12))]
  order = rt.permutation(rt.SCHED, len(jobs))
  shares = [[jobs[k] for k in order[i::nw]] for i in range(nw)]
  th = world.Threads((4, 10, 40)[S(3)])
  oom = F(3) == 2

  def body(t):
    def go():
      for job in shares[t]:
        for again in range(5):
          RATES[threading.get_ident()] = rate if again < 3 else 0
          try:
            if oom and again < 3 and F(4) == 3:
              th.fail[t] = F(200)
            judge = do(t, job)
            break
          except tfsim.ResourceExhaustedError:
            check(again < 3, 'raises', 'worker %d: an operation fails by itself', t)
            probe('retry')
          except MemoryError:
            check(again < 3, 'raises', 'worker %d runs out of memory by itself', t)
            probe('job repeated')
            th.retrace()
          finally:
            th.fail.pop(t, None)
            RATES[threading.get_ident()] = 0
        if judge is not None:
          judge()
          judges.append(judge)
        rt.event('worker %d: %s' % (t, job[0]))
        if FP(1, 10):
          fault('worker restarted')
          for d in (codecs, shared):
            for key in [q for q in d if not keep and q[-1] == t]:
              del d[key]
          if keep and FP(1, 2):  # the process that all share
            codecs.clear()
    return go
  if nw > 1 or oom:
    for t, e in th.run([body(t) for t in range(nw)]):
      if isinstance(e, Exception):
        raise e
      rt.violation('error', 'worker %d: %s: %s', t, type(e).__name__, str(e)[:300])
  else:
    body(0)()
  for a, same in inputs:
    check(a.dtype == same.dtype and np.array_equal(a, same), 'input-changed', 'an array that a call was given changed')
    a[...] = -77
  for x, same in shared.values():
    near(x, same.astype(np.float64), 0, 'a shared tensor at the end')
  shared.clear()
  for judge in judges:
    judge()
  tfsim.ON_OP = None
  if len(judges) > 3:
    rt.nontrivial()


# ---------------------------------------------------------------- scikit-learn

class _Base:

  def fit_transform(self, x, y=None):
    return self.fit(x).transform(x)


class StandardScaler(_Base):

  def __init__(self, *, copy=True, with_mean=True, with_std=True):
    if not (with_mean and with_std):
      raise rt.Unsupported('scaler')

  def fit(self, x, y=None):
    self.mean_, self.var_ = x.mean(0), x.var(0)
    tiny = self.var_ <= len(x) * np.finfo(np.float64).eps * self.var_ + (len(x) * self.mean_ * np.finfo(np.float64).eps) ** 2
    self.scale_ = np.where(tiny | (self.var_ == 0), 1.0, np.sqrt(self.var_))
    self.n_samples_seen_ = len(x)
    return self

  def transform(self, x):
    return (x - self.mean_) / self.scale_

  def inverse_transform(self, x):
    return x * self.scale_ + self.mean_


class PCA(_Base):

  def __init__(self, n_components=None, **kw):
    if kw and set(kw) - {'copy', 'svd_solver'}:
      raise rt.Unsupported('PCA(%s)' % ', '.join(kw))
    self.n_components = n_components

  def fit(self, x, y=None):
    n = min(x.shape) if self.n_components is None else self.n_components
    if not 1 <= n <= min(x.shape):
      raise ValueError('n_components=%r must be between 1 and min(n_samples, n_features)=%r' % (n, min(x.shape)))
    self.mean_ = x.mean(0)
    _, s, v = np.linalg.svd(x - self.mean_, full_matrices=False)
    self.components_, self.singular_values_ = v[:n], s[:n]
    self.explained_variance_ = s[:n] ** 2 / (len(x) - 1)
    self.explained_variance_ratio_ = self.explained_variance_ / (s ** 2).sum() * (len(x) - 1)
    self.n_components_ = n
    return self

  def transform(self, x):
    return (x - self.mean_) @ self.components_.T

  def inverse_transform(self, x):
    return x @ self.components_ + self.mean_


class Pipeline(_Base):

  def __init__(self, steps, **_):
    self.steps = steps

  named_steps = property(lambda self: dict(self.steps))

  def __getitem__(self, k):
    return self.named_steps[k] if isinstance(k, str) else self.steps[k][1]

  def fit(self, x, y=None):
    for _, s in self.steps[:-1]:
      x = s.fit_transform(x)
    self.steps[-1][1].fit(x)
    return self

  def transform(self, x):
    for _, s in self.steps:
      x = s.transform(x)
    return x

  def inverse_transform(self, x):
    for _, s in reversed(self.steps):
      x = s.inverse_transform(x)
    return x


def make_pipeline(*steps, **_):
  return Pipeline([(type(s).__name__.lower(), s) for s in steps])


def setup(args):
  import dacite, pandas, warnings
  warnings.simplefilter('ignore')
  np.seterr(all='ignore')
  tf = tfsim.module()
  tfeager.extend(tf)
  segsim.extend(tf)
  sys.modules['tensorflow'] = tf
  arrowsim.install()
  segsim.v2_package(args.repo)
  sk = types.ModuleType('sklearn')
  sk.__path__ = []
  for n, k in (('decomposition', dict(PCA=PCA)), ('pipeline', dict(Pipeline=Pipeline, make_pipeline=make_pipeline)),
               ('preprocessing', dict(StandardScaler=StandardScaler))):
    m = types.ModuleType('sklearn.' + n)
    vars(m).update(k)
    setattr(sk, n, m)
    sys.modules[m.__name__] = m
  sys.modules['sklearn'] = sk
  from waymo_open_dataset import label_pb2
  from waymo_open_dataset.protos import scenario_pb2
  from waymo_open_dataset.utils import box_utils, womd_camera_utils
  from waymo_open_dataset.utils.compression import pca_codec, tiling
  from waymo_open_dataset.v2 import column_types
  from waymo_open_dataset.v2.perception import base, object_asset
  from waymo_open_dataset.v2.perception.utils import object_asset_codec, object_asset_utils
  M.update(tf=tf, pca=pca_codec, tiling=tiling, codec=object_asset_codec, asset=object_asset, utils=object_asset_utils, box=box_utils,
           base=base, label=label_pb2, scenario=scenario_pb2, womd=womd_camera_utils, columns=column_types, pd=pandas, dacite=dacite)
  return run
