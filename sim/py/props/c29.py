"""C29: occupancy and flow ground truth of batches of scenes, made by unreliable workers in any order from shared inputs."""
import math, pickle, threading
import numpy as np
import rt, world, tfsim, tfeager
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}
TYPES = {1: 'vehicles', 2: 'pedestrians', 3: 'cyclists'}
TIMES = ('past', 'current', 'future')
FIELDS = ('x', 'y', 'z', 'bbox_yaw', 'length', 'width')


class Obj:
  pass


f32 = lambda x: np.asarray(x, np.float32).astype(np.float64)
arr = lambda x: np.asarray(x.numpy() if hasattr(x, 'numpy') else x, np.float64)


def near(have, want, tol, where):
  h = arr(have)
  check(h.shape == np.shape(want), 'shape', '%s has the shape %r instead of %r', where, h.shape, np.shape(want))
  bad = ~(np.abs(h - want) <= tol)
  if bad.any():
    k = tuple(np.argwhere(bad)[0])
    rt.violation('value', '%s: %.6g instead of %.6g at %r', where, h[k], np.asarray(want)[k], tuple(int(v) for v in k))


def between(have, lo, hi, where):
  h = arr(have)
  check(h.shape == lo.shape, 'shape', '%s has the shape %r instead of %r', where, h.shape, lo.shape)
  bad = ~((h >= lo - 1e-5) & (h <= hi + 1e-5))
  if bad.any():
    k = tuple(int(v) for v in np.argwhere(bad)[0])
    rt.violation('occupancy', '%s: %.6g at %r, expected %.6g%s', where, h[k], k, lo[k], '' if lo[k] == hi[k] else ' to %.6g' % hi[k])


# ---------------------------------------------------------------- the scenes

def make_config(big, k=0, before=None):
  c = M['pb'].OccupancyFlowTaskConfig()
  if not big:
    c.num_past_steps = 1 + W(4)
    size, c.num_waypoints = 1 + W(3), 1 + W(4)
    c.num_future_steps = size * c.num_waypoints
  c.cumulative_waypoints = bool(W(2))
  if W(3):
    c.normalize_sdc_yaw = bool(W(2))
  c.grid_height_cells, c.grid_width_cells = 3 + W(22), 3 + W(22)
  c.sdc_y_in_grid, c.sdc_x_in_grid = W(c.grid_height_cells), W(c.grid_width_cells)
  c.pixels_per_meter = pick((.5, 1.0, .7, 1.6))
  c.agent_points_per_side_length, c.agent_points_per_side_width = (1 + W(2), 1 + W(2)) if big else (1 + W(5), 1 + W(4))
  if k and not big and WP(1, 3):  # as many points in other rows
    a, b = before.agent_points_per_side_length, before.agent_points_per_side_width
    c.agent_points_per_side_length, c.agent_points_per_side_width = b, a
  return c


def make_batch(k, before=None):
  g = np.random.RandomState(W(1 << 20))
  o = Obj()
  o.k, o.name, o.big = k, 'batch %d' % k, W(12) == 11
  o.config = c = make_config(o.big, k, before)
  b = 1 + W(3)
  n, road = (128, 20000) if o.big else (1 + W(6), W(30))
  if o.big:
    b = 1 + W(2)
  t = c.num_past_steps + 1 + c.num_future_steps
  now = c.num_past_steps
  reach = max(c.grid_height_cells, c.grid_width_cells) / c.pixels_per_meter
  far = pick((0.0, 300.0, 20000.0))
  cx, cy = g.uniform(-far, far, (b, 1, 1)), g.uniform(-far, far, (b, 1, 1))
  o.x = x = {}
  speed = g.uniform(0, reach / 6, (b, n, 1)) * g.choice([0, 1, 1, 3], (b, n, 1))
  head = g.uniform(-math.pi, math.pi, (b, n, 1)) + np.cumsum(g.uniform(-.3, .3, (b, n, t)), -1) * g.choice([0, 1], (b, n, 1))
  step = speed * np.cos(head), speed * np.sin(head)
  for q, s, m in zip('xy', step, (cx, cy)):
    p = m + g.uniform(-.6, .6, (b, n, 1)) * reach
    p = p + np.cumsum(s, -1)
    x[q] = p - p[..., now:now + 1] + m + g.uniform(-.6, .6, (b, n, 1)) * reach
  x['z'] = g.uniform(-5, 5, (b, n, t))
  x['bbox_yaw'] = (head + math.pi) % (2 * math.pi) - math.pi
  x['length'] = g.uniform(.3, .3 * reach, (b, n, 1)) * g.uniform(.9, 1.1, (b, n, t))
  x['width'] = g.uniform(.2, .15 * reach, (b, n, 1)) * g.uniform(.9, 1.1, (b, n, t))
  valid = g.uniform(size=(b, n, t)) < g.choice([.3, .8, 1, 1], (b, n, 1))
  late = g.randint(4, size=(b, n)) == 0  # not seen before the future
  valid[..., :now + 1] &= ~late[..., None]
  past_only = g.randint(6, size=(b, n)) == 0  # seen, but not now
  valid[..., now] &= ~past_only
  types = g.choice([1, 1, 2, 3, 1, 4, 0], (b, n))
  if o.big:
    used = 1 + g.randint(12)
    valid[:, used:], types[:, used:] = False, -1
  o.sdc = g.randint(min(n, 5), size=b)
  for i, s in enumerate(o.sdc):
    valid[i, s, now] = True
    types[i, s] = 1
  stale = g.randint(2)
  for f in FIELDS:  # what stands where nothing was seen means nothing
    x[f] = f32(np.where(valid, x[f], x[f] if stale else -1.0))
  o.valid, o.types = valid, types
  o.is_sdc = np.zeros((b, n), np.int64)
  o.is_sdc[np.arange(b), o.sdc] = 1
  o.at = {f: np.array([x[f][i, s, now] for i, s in enumerate(o.sdc)])[:, None] for f in FIELDS}
  rx, ry = [f32(m[:, 0] + g.uniform(-1, 1, (b, road)) * reach) for m in (cx, cy)]
  o.road = np.stack([rx, ry, g.uniform(-3, 3, rx.shape)], -1)
  o.road_valid = g.randint(4, size=(b, road, 1)) > 0
  o.raw = raw = {'state/type': types.astype(np.float32), 'state/is_sdc': o.is_sdc, 'roadgraph_samples/xyz': o.road.astype(np.float32),
                 'roadgraph_samples/valid': o.road_valid.astype(np.int64)}
  for w, s in zip(TIMES, (slice(0, now), slice(now, now + 1), slice(now + 1, None))):
    for f in FIELDS:
      raw['state/%s/%s' % (w, f)] = x[f][..., s].astype(np.float32)
    raw['state/%s/valid' % w] = valid[..., s].astype(np.int64)
  if o.big:
    extra(o, g, b)
  o.span = {'past': slice(0, now), 'current': slice(now, now + 1), 'future': slice(now + 1, t)}
  o.steps, o.now, o.cells = t, now, {}
  points(o)
  rt.note([sorted((a, v.tobytes()) for a, v in raw.items()), c.SerializeToString()])
  return o


def extra(o, g, b):
  """The rest of what examples of the motion dataset hold."""
  raw, n = o.raw, 128
  real = lambda *s: g.uniform(-50, 50, (b,) + s).astype(np.float32)
  ints = lambda *s: g.randint(-1, 9, (b,) + s).astype(np.int64)
  for w, s in zip(TIMES, (10, 1, 80)):
    for f in ('height', 'vel_yaw', 'velocity_x', 'velocity_y'):
      raw['state/%s/%s' % (w, f)] = real(n, s)
    raw['state/%s/timestamp_micros' % w] = ints(n, s)
    if w != 'future':
      for f in 'xyz':
        raw['traffic_light_state/%s/%s' % (w, f)] = real(s, 16)
      for f in ('state', 'valid'):
        raw['traffic_light_state/%s/%s' % (w, f)] = ints(s, 16)
  raw['state/id'], raw['state/tracks_to_predict'] = real(n), ints(n)
  raw['roadgraph_samples/dir'], raw['roadgraph_samples/id'], raw['roadgraph_samples/type'] = real(20000, 3), ints(20000, 1), ints(20000, 1)


# ---------------------------------------------------------------- what belongs in the grids

def grid(n):
  return [.0] if n == 1 else [i / (n - 1) - .5 for i in range(n)]


def pixels(o, x, y):
  """Pixels of points, which of them are certain, and the other pixel that rounding may give; from world coordinates."""
  c = o.config
  up = (-1,) + (1,) * (np.ndim(x) - 1)
  x, y = x - o.at['x'].reshape(up), y - o.at['y'].reshape(up)
  if c.normalize_sdc_yaw:  # the vehicle looks up
    a = math.pi / 2 - o.at['bbox_yaw'].reshape(up)
    x, y = np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y
  eps = 2e-4 + 1e-5 * c.pixels_per_meter * np.hypot(x, y)
  u, v = x * c.pixels_per_meter, -y * c.pixels_per_meter
  return (np.rint(u - eps) + c.sdc_x_in_grid, np.rint(u + eps) + c.sdc_x_in_grid, np.rint(v - eps) + c.sdc_y_in_grid,
          np.rint(v + eps) + c.sdc_y_in_grid)


def points(o):
  """[B, N, T, P] pixels of the points of all boxes."""
  c, x = o.config, o.x
  l, w = np.meshgrid(grid(c.agent_points_per_side_length), grid(c.agent_points_per_side_width), indexing='ij')
  l, w = x['length'][..., None] * l.reshape(-1), x['width'][..., None] * w.reshape(-1)
  yaw = x['bbox_yaw'][..., None]
  px = x['x'][..., None] + np.cos(yaw) * l - np.sin(yaw) * w
  py = x['y'][..., None] + np.sin(yaw) * l + np.cos(yaw) * w
  o.px = pixels(o, px, py)


def mark(out, sel, u, v, idx, value):
  """Writes value at the pixels (v, u) of the selected points."""
  h, w = out.shape[1:3]
  sel = sel & (u >= 0) & (v >= 0) & (u < w) & (v < h)
  k = np.nonzero(sel)
  out[(k[0], v[sel].astype(int), u[sel].astype(int)) + idx(k)] = value


def occupancy(o, t, steps, seen=None):
  """Least and greatest occupancy [B, H, W, len(steps)] of the agents of a type."""
  key = (t, tuple(steps), seen)
  if key in o.cells:
    return o.cells[key]
  c = o.config
  shape = (len(o.sdc), c.grid_height_cells, c.grid_width_cells, len(steps))
  lo, hi = np.zeros(shape), np.zeros(shape)
  who = o.types == t
  if seen is not None:
    who = who & (o.valid[..., :o.now + 1].any(-1) == seen)
  u0, u1, v0, v1 = [q[:, :, steps] for q in o.px]
  sel = np.broadcast_to((who[..., None] & o.valid[:, :, steps])[..., None], u0.shape)
  last = lambda k: (k[2],)
  mark(lo, sel & (u0 == u1) & (v0 == v1), u0, v0, last, 1)
  for u in (u0, u1):
    for v in (v0, v1):
      mark(hi, sel, u, v, last, 1)
  o.cells[key] = lo, hi
  return lo, hi


def flow(o, t, steps, seen=None):
  """Mean motion back over one waypoint [B, H, W, steps, 2] of the points in each pixel, and where that is certain."""
  c = o.config
  ws = c.num_future_steps // c.num_waypoints
  key = ('flow', t, tuple(steps), seen)
  if key in o.cells:
    return o.cells[key]
  then, now = steps[:-ws], steps[ws:]
  shape = (len(o.sdc), c.grid_height_cells, c.grid_width_cells, len(now))
  total, count, sure = np.zeros(shape + (2,)), np.zeros(shape), np.ones(shape, bool)
  who = o.types == t
  if seen is not None:
    who = who & (o.valid[..., :o.now + 1].any(-1) == seen)
  a, b = [q[:, :, then] for q in o.px], [q[:, :, now] for q in o.px]
  sel = np.broadcast_to((who[..., None] & o.valid[:, :, then] & o.valid[:, :, now])[..., None], a[0].shape)
  known = (a[0] == a[1]) & (a[2] == a[3]) & (b[0] == b[1]) & (b[2] == b[3])
  for u in b[:2]:
    for v in b[2:]:
      mark(sure, sel & ~known, u, v, lambda k: (k[2],), False)
  u, v = b[0], b[2]
  on = sel & known & (u >= 0) & (v >= 0) & (u < shape[2]) & (v < shape[1])
  k = np.nonzero(on)
  at = (k[0], v[on].astype(int), u[on].astype(int), k[2])
  np.add.at(total, at + (0,), (a[0] - u)[on])
  np.add.at(total, at + (1,), (a[2] - v)[on])
  np.add.at(count, at, 1)
  out = total / np.maximum(count, 1)[..., None], sure
  o.cells[key] = out
  return out


def flow_near(have, want, sure, where):
  h = arr(have)
  check(h.shape == want.shape, 'shape', '%s has the shape %r instead of %r', where, h.shape, want.shape)
  bad = ~(np.abs(h - want) <= 1e-4) & sure[..., None]
  if bad.any():
    k = tuple(int(v) for v in np.argwhere(bad)[0])
    rt.violation('flow', '%s: %.6g instead of %.6g at %r', where, h[k], want[k], k)


def judge_timesteps(g, o, where):
  all_ = list(range(o.steps))
  for t, n in TYPES.items():
    v, w = g.view(t), '%s of %s' % (where, n)
    check(v is getattr(g, n), 'view', '%s: the view differs', w)
    between(v.past_occupancy, *occupancy(o, t, all_[o.span['past']]), w + ' in the past')
    between(v.current_occupancy, *occupancy(o, t, all_[o.span['current']]), w + ' now')
    between(v.future_observed_occupancy, *occupancy(o, t, all_[o.span['future']], True), w + ' seen, in the future')
    between(v.future_occluded_occupancy, *occupancy(o, t, all_[o.span['future']], False), w + ' not seen, in the future')
    between(v.all_occupancy, *occupancy(o, t, all_), w + ' over all steps')
    flow_near(v.all_flow, *flow(o, t, all_), w + ' (flow)')


def waypoint(o, k, cumulative):
  """Future steps that waypoint k speaks of."""
  ws = o.config.num_future_steps // o.config.num_waypoints
  return list(range(o.now + 1 + k * ws, o.now + 1 + (k + 1) * ws))[0 if cumulative else -1:]


def judge_waypoints(g, o, cumulative, where):
  n, c = o.config.num_waypoints, o.config
  ws = c.num_future_steps // n
  every = list(range(o.steps))
  for t, name in TYPES.items():
    v = g.view(t)
    check(v is getattr(g, name), 'view', '%s: the view of %s differs', where, name)
    for f in ('observed_occupancy', 'occluded_occupancy', 'flow', 'flow_origin_occupancy'):
      check(len(getattr(v, f)) == n, 'waypoints', '%s: %d waypoints of %s of %s instead of %d', where, len(getattr(v, f)), f, name, n)
    mean, sure = flow(o, t, every)
    for k in range(n):
      w = '%s of %s at waypoint %d' % (where, name, k)
      s = waypoint(o, k, cumulative)
      lim = lambda steps, seen: [x.max(-1, keepdims=True) for x in occupancy(o, t, steps, seen)]
      between(v.observed_occupancy[k], *lim(s, True), w + ' (seen)')
      between(v.occluded_occupancy[k], *lim(s, False), w + ' (not seen)')
      between(v.flow_origin_occupancy[k], *lim([i - ws for i in s], None), w + ' (origin)')
      m, q = mean[..., [i - ws for i in s], :], sure[..., [i - ws for i in s]].all(-1)
      if cumulative:
        m = m.sum(3) / np.maximum((m != 0).sum(3), 1)
      else:
        m = m[..., 0, :]
      flow_near(v.flow[k], m, q, w + ' (flow)')
      for f, call in (('observed_occupancy', g.get_observed_occupancy_at_waypoint), ('occluded_occupancy', g.get_occluded_occupancy_at_waypoint),
                      ('flow', g.get_flow_at_waypoint)):
        near(getattr(call(k), name), arr(getattr(v, f)[k]), 0, w + ' by get_*_at_waypoint')
        near(call(k).view(t), arr(getattr(v, f)[k]), 0, w + ' by view')


def road(o):
  c = o.config
  shape = (len(o.sdc), c.grid_height_cells, c.grid_width_cells, 1)
  lo, hi = np.zeros(shape), np.zeros(shape)
  u0, u1, v0, v1 = pixels(o, o.road[..., 0], o.road[..., 1])
  sel = o.road_valid[..., 0]
  last = lambda k: (0,)
  mark(lo, sel & (u0 == u1) & (v0 == v1), u0, v0, last, 1)
  for u in (u0, u1):
    for v in (v0, v1):
      mark(hi, sel, u, v, last, 1)
  return lo, hi


def trails(o, which):
  """Earlier boxes fade by a fifth with each step, and twice before now."""
  out = 0
  for s in range(o.now + 1):
    new = sum(occupancy(o, t, [s])[which] for t in TYPES)
    out = np.minimum(out * (.8 ** (2 if s == o.now else 1)) + new, 1)
  return out


# ---------------------------------------------------------------- pictures and metrics

def over(picture, colour, alpha):
  return np.asarray(colour) * alpha + picture * (1 - alpha)


def judge_picture(img, veh, ped, cyc, rd, gamma, where):
  want = np.ones(rd.shape[:3] + (3,))
  want = over(want, (0, 0, 0), rd)
  for x, hue in ((veh, (1, 0, 0)), (ped, (0, .67, 0)), (cyc, (0, 0, 1))):
    if x is not None:
      a = x ** (1 / gamma)
      want = over(want, np.array(hue) * a, a)
  near(img, want, 2e-5, where)


def judge_flow_picture(img, fl, rd, tr, where):
  d = np.hypot(fl[..., 0], fl[..., 1])
  sat = d / np.maximum(d.max((1, 2), keepdims=True), 1e-30)
  h = np.arctan2(fl[..., 0], fl[..., 1]) % (2 * math.pi) / (2 * math.pi) * 6
  hue = np.clip(np.stack([np.abs(h - 3) - 1, 2 - np.abs(h - 2), 2 - np.abs(h - 4)], -1), 0, 1)
  want = 1 - sat[..., None] * (1 - hue)
  want = over(over(want, (0, 0, 0), rd), (0, 0, 0), .2 * tr)
  near(img, want, 1e-4, where)


def auc(t, p):
  th = np.array([-1e-7] + [(i + 1) / 99 for i in range(98)] + [1 + 1e-7], np.float32)
  t, p = t.reshape(-1) > 0, p.astype(np.float32).reshape(-1)
  on = p[None] > th[:, None]
  tp, fp, fn = [x.sum(1).astype(float) for x in (on & t, on & ~t, ~on & t)]
  area = 0
  for i in range(99):
    dtp, a, b = tp[i] - tp[i + 1], tp[i] + fp[i], tp[i + 1] + fp[i + 1]
    slope = dtp / (a - b) if a > b else 0
    ratio = a / b if a > 0 and b > 0 else 1
    if tp[i + 1] + fn[i + 1] > 0:
      area += slope * (dtp + (tp[i + 1] - slope * b) * math.log(ratio)) / (tp[i + 1] + fn[i + 1])
  return area


def iou(t, p):
  both = (t * p).sum()
  rest = t.sum() + p.sum() - both
  return both / rest if rest else 0


def warped(origin, fl):
  """What flows say where the occupancy of waypoints comes from (stands for the function that is disabled)."""
  b, h, w = origin.shape[:3]
  y, x = np.meshgrid(np.arange(h), np.arange(w), indexing='ij')
  x, y = x + fl[..., 0], y + fl[..., 1]
  out = np.zeros((b, h, w))
  x0, y0 = np.floor(x), np.floor(y)
  n = np.arange(b)[:, None, None]
  for i in (0, 1):
    for j in (0, 1):
      u, v = x0 + i, y0 + j
      k = np.where(i, x - x0, 1 - x + x0) * np.where(j, y - y0, 1 - y + y0)
      ok = (u >= 0) & (v >= 0) & (u < w) & (v < h)
      out += np.where(ok, k * origin[n, np.where(ok, v, 0).astype(int), np.where(ok, u, 0).astype(int), 0], 0)
  return out[..., None]


def simulated_warp(config, true_waypoints, pred_waypoints):
  tf = M['tf']
  return [tf.constant(warped(arr(true_waypoints.vehicles.flow_origin_occupancy[k]), arr(pred_waypoints.vehicles.flow[k])).astype(np.float32))
          for k in range(config.num_waypoints)]


def make_prediction(g, shape, n, truth, kind):
  """Guesses from nothing to nearly right."""
  tf, v = M['tf'], M['grids'].WaypointGrids()
  c = lambda x: tf.constant(np.asarray(x, np.float32))
  for k in range(n):
    for f in ('observed_occupancy', 'occluded_occupancy'):
      p = g.uniform(size=shape + (1,)) * (g.uniform(size=shape + (1,)) < .5)
      if kind:
        p = np.clip(arr(getattr(truth.vehicles, f)[k]) * g.uniform(.5, 1) + .2 * p, 0, 1)
      if kind == 2:
        p = np.round(p * 99) / 99
      getattr(v.vehicles, f).append(c(p))
    fl = g.normal(size=shape + (2,)) * g.choice([0, 1, 5])
    v.vehicles.flow.append(c(fl + (arr(truth.vehicles.flow[k]) if kind else 0)))
  return v


def make_truth(g, shape, n):
  """Any ground truth of vehicles, with waypoints that are empty."""
  tf, v = M['tf'], M['grids'].WaypointGrids()
  c = lambda x: tf.constant(np.asarray(x, np.float32))
  some = lambda p: c((g.uniform(size=shape + (1,)) < g.choice([.1, .5])) * (g.uniform() < p))
  for _ in range(n):
    v.vehicles.observed_occupancy.append(some(.5))
    v.vehicles.occluded_occupancy.append(some(.5))
    v.vehicles.flow_origin_occupancy.append(some(.8))
    v.vehicles.flow.append(c(np.round(g.normal(size=shape + (2,)) * 2) * (g.uniform(size=shape + (1,)) < .5)))
  return v


def judge_metrics(m, n, truth, guess, where):
  t, p = truth.vehicles, guess.vehicles
  lists = {k: [] for k in ('observed_auc', 'observed_iou', 'occluded_auc', 'occluded_iou', 'flow_epe', 'warped_auc', 'warped_iou')}
  had = {}
  for k in range(n):
    now, both = {}, []
    for f in ('observed', 'occluded'):
      a, b = arr(getattr(t, f + '_occupancy')[k]), arr(getattr(p, f + '_occupancy')[k])
      now[f] = a.max() > 0
      both.append((a, b))
      if now[f]:
        lists[f + '_auc'].append(auc(a, b))
        lists[f + '_iou'].append(iou(a, b))
    if any(now[f] and had.get(f, True) for f in now):
      a, b = arr(t.flow[k]), arr(p.flow[k])
      on = (a != 0).any(-1)
      lists['flow_epe'].append(np.hypot(*np.moveaxis(a - b, -1, 0))[on].sum() / max(on.sum(), 1))
      a, b = [np.clip(both[0][i] + both[1][i], 0, 1) for i in (0, 1)]
      b = arr(b.astype(np.float32) * warped(arr(t.flow_origin_occupancy[k]), arr(p.flow[k])).astype(np.float32))
      lists['warped_auc'].append(auc(a, b))
      lists['warped_iou'].append(iou(a, b))
    had = now
  for f, k in (('observed_occupancy', 'observed_auc'), ('occluded_occupancy', 'occluded_auc'), ('flow', 'flow_epe')):
    have = getattr(m, 'num_waypoints_with_' + f)
    check(have == len(lists[k]), 'waypoints', '%s: %d waypoints with %s instead of %d', where, have, f, len(lists[k]))
  for k, v in lists.items():
    have = getattr(m, 'vehicles_' + k.replace('warped', 'flow_warped_occupancy'))
    want = sum(v) / len(v) if v else 0
    # rounding may carry a predicted product across a threshold
    check(abs(have - want) <= (.02 if k == 'warped_auc' else 2e-4 * (1 + abs(want))), 'metric', '%s: %s is %.6g instead of %.6g', where, k, have, want)


# ---------------------------------------------------------------- workers

RATES = {}


def on_op(name):
  rt.C.steps += 1
  rate = RATES.get(threading.get_ident(), 0)
  if rate and FP(1, rate):
    fault('op fails')
    rt.event('fails in ' + name)
    raise tfsim.ResourceExhaustedError('OOM in ' + name)


def refused(f, what, where, kinds=Exception):
  try:
    f()
  except (rt.End, MemoryError, tfsim.ResourceExhaustedError):
    raise
  except kinds as e:
    rt.event('refused %s: %s' % (what, type(e).__name__))
    probe('refused: ' + what)
  else:
    rt.violation('accepted', '%s: %s gave a result', where, what)


def run():
  batches = [make_batch(0)]
  if W(2):
    batches.append(make_batch(1, batches[0].config))
  tf, data, grids, render, vis, metrics = [M[k] for k in ('tf', 'data', 'grids', 'render', 'vis', 'metrics')]
  tfsim.ON_OP = on_op
  rate = (0, 400, 100, 30)[F(4)]
  nw, keep = 1 + W(3), W(2)
  loaded, made, judges = {}, {}, []
  jobs = []
  for o in batches:
    jobs += [(o, 'timesteps', 0), (o, 'waypoints', 0), (o, 'waypoints', 1)]
    jobs += [(o, 'occupancy', W(1 << 16)) for _ in range(W(3))] + [(o, 'flow', W(1 << 16)) for _ in range(W(2))]
    jobs += [(o, 'vis', 0)] * W(2) + [(o, 'pictures', W(1 << 16)) for _ in range(W(3))] + [(o, 'metrics', W(1 << 16)) for _ in range(W(3))]
    if W(3) == 2:
      jobs.append((o, 'bad', W(1 << 16)))

  again_into = [{n: tf.constant(np.roll(v, 1, 1) if n.startswith('state') else v) for n, v in o.raw.items()} for o in batches if WP(1, 3)]

  def parsed(o, t):
    """The scenes, each parsed from its own example, as a batch."""
    scenes = []
    for i in range(len(o.sdc)):
      ex = {k: v[i].reshape(-1) for k, v in o.raw.items()}
      ex['scenario/id'] = np.array([b'scene%d' % i], object)
      ex['more'] = np.zeros(3, np.float32)
      record = lambda e: tf.constant(np.array(pickle.dumps(e), object))
      if FP(1, 3):
        gone = sorted(o.raw)[F(len(o.raw))]
        bad = dict(ex)
        if F(2):
          del bad[gone]
        else:
          bad[gone] = bad[gone][:-1]
        fault('field of an example missing or cut')
        mine, RATES[threading.get_ident()] = RATES.get(threading.get_ident(), 0), 0
        refused(lambda: data.parse_tf_example(record(bad)), 'a spoiled example', o.name)
        RATES[threading.get_ident()] = mine
      d = data.parse_tf_example(record(ex))
      for k, v in o.raw.items():
        check(k in d, 'field', '%s: %s is missing from the parsed example', o.name, k)
        near(d[k], v[i].astype(float), 0, '%s: %s' % (o.name, k))
      check(d['scenario/id'].numpy() == b'scene%d' % i, 'field', '%s: scenario/id', o.name)
      scenes.append(d)
    return {k: tf.constant(np.stack([s[k].numpy() for s in scenes])) for k in scenes[0] if k != 'scenario/id'}

  def of(o, t):
    k = o.k if keep else (o.k, t)
    if k not in loaded:
      x = parsed(o, t) if o.big else {n: tf.constant(v) for n, v in o.raw.items()}
      if again_into:  # a dictionary that held another batch
        first = again_into.pop()
        data.add_sdc_fields(first)
        first.update(x)
        x = first
      x = data.add_sdc_fields(x)
      for f in ('x', 'y', 'z', 'bbox_yaw'):
        near(x['sdc/current/' + f], o.at[f], 0, '%s: %s of the vehicle' % (o.name, f))
      loaded.setdefault(k, (x, dict(x), o))
    return loaded[k][0]

  def timesteps(o, t):
    k = o.k if keep else (o.k, t)
    if k not in made:
      g = grids.create_ground_truth_timestep_grids(of(o, t), o.config)
      made.setdefault(k, (g, o))
    return made[k][0]

  def ask(o, g):
    flags = [(True, True), (True, False), (False, True)][g.randint(3)]
    times = [w for w in TIMES if g.randint(2)] or ['future']
    steps = [s for w in times for s in range(o.steps)[o.span[w]]]
    return flags, times, steps, None if flags[0] == flags[1] or 'future' not in times else flags[0]

  def do(t, job):
    o, kind, seed = job
    x, c = of(o, t), o.config
    g = np.random.RandomState(seed)
    where = 'worker %d, %s, %s' % (t, o.name, kind)
    if kind == 'timesteps':
      out = timesteps(o, t)
      return lambda: judge_timesteps(out, o, where)
    if kind in ('waypoints', 'vis', 'pictures', 'metrics'):
      out = timesteps(o, t)
      mine = M['pb'].OccupancyFlowTaskConfig()
      mine.CopyFrom(c)
      mine.cumulative_waypoints = bool(seed & 1)
      if kind == 'vis':
        v = grids.create_ground_truth_vis_grids(x, out, c)

        def judge():
          between(v.roadgraph, *road(o), where + ' (road)')
          between(v.agent_trails, trails(o, 0), trails(o, 1), where + ' (trails)')
        return judge
      if c.num_future_steps // c.num_waypoints > c.num_past_steps + 1:
        refused(lambda: grids.create_ground_truth_waypoint_grids(out, mine), 'waypoints longer than the history', where, ValueError)
        return None
      way = grids.create_ground_truth_waypoint_grids(out, mine)
      if kind == 'waypoints':
        return lambda: judge_waypoints(way, o, mine.cumulative_waypoints, where)
      shape = (len(o.sdc), c.grid_height_cells, c.grid_width_cells)
      if kind == 'metrics':
        if g.randint(2):
          way = make_truth(g, shape, c.num_waypoints)
        guess = make_prediction(g, shape, c.num_waypoints, way, g.randint(3))
        try:
          m = metrics.compute_occupancy_flow_metrics(mine, way, guess)
        except NotImplementedError:
          probe('metrics are disabled')
          return None
        text = m.SerializeToString()

        def judge():
          judge_metrics(m, c.num_waypoints, way, guess, where)
          check(m.SerializeToString() == text, 'changed', '%s: metrics changed later', where)
        return judge
      k = g.randint(c.num_waypoints)
      ag = [way.get_observed_occupancy_at_waypoint, way.get_occluded_occupancy_at_waypoint][g.randint(2)](k)
      rd = render.render_roadgraph_from_inputs(x, c)
      tr = g.uniform(size=shape + (1,)).astype(np.float32)
      parts = [getattr(ag, n) if g.randint(4) else None for n in TYPES.values()]
      if g.randint(2):
        parts = [p if p is None else tf.constant((arr(p) * g.uniform(size=shape + (1,))).astype(np.float32)) for p in parts]
      gamma = (1.6, 1.0, 2.5)[g.randint(3)]
      kw = dict(gamma=gamma) if gamma != 1.6 else {}
      img = vis.occupancy_rgb_image(M['data'].AgentGrids(*parts), rd, **kw)
      fl = way.get_flow_at_waypoint(k).view(1 + g.randint(3)) if g.randint(2) else tf.constant(g.normal(size=shape + (2,)).astype(np.float32))
      fimg = vis.flow_rgb_image(fl, rd, tf.constant(tr))

      def judge():
        between(rd, *road(o), where + ' (road)')
        judge_picture(img, *[p if p is None else arr(p) for p in parts], arr(rd), gamma, where)
        judge_flow_picture(fimg, arr(fl), arr(rd), tr.astype(float), where + ' (flow)')
      return judge
    if kind == 'occupancy':
      flags, times, steps, seen = ask(o, g)
      out = render.render_occupancy_from_inputs(x, times, c, *flags)
      return lambda: [between(getattr(out, n), *occupancy(o, q, steps, seen), '%s of %s in %s' % (where, n, times)) for q, n in TYPES.items()]
    if kind == 'flow':
      flags, times, steps, seen = ask(o, g)
      if len(steps) <= c.num_future_steps // c.num_waypoints:
        return None
      out = render.render_flow_from_inputs(x, times, c, *flags)
      return lambda: [flow_near(getattr(out, n), *flow(o, q, steps, seen), '%s of %s in %s' % (where, n, times)) for q, n in TYPES.items()]
    assert kind == 'bad'
    refused(lambda: render.render_occupancy_from_inputs(x, ['future'], c, False, False), 'neither seen nor unseen agents', where, ValueError)
    mine = M['pb'].OccupancyFlowTaskConfig()
    mine.CopyFrom(c)
    mine.num_waypoints = c.num_future_steps + 1 if c.num_future_steps == 1 or g.randint(2) else c.num_future_steps - 1
    if c.num_future_steps % mine.num_waypoints:
      out = timesteps(o, t)
      refused(lambda: grids.create_ground_truth_waypoint_grids(out, mine), 'waypoints that do not divide the future', where, ValueError)
    mine.CopyFrom(c)
    if g.randint(2):
      mine.agent_points_per_side_length = 0
    else:
      mine.agent_points_per_side_width = 0
    refused(lambda: render.render_occupancy_from_inputs(x, ['current'], mine, True, True), 'boxes without points', where, ValueError)
    refused(lambda: data.AgentGrids().view(0), 'a view of no type', where, ValueError)
    refused(lambda: grids.TimestepGrids().view(4), 'a view of no type', where, ValueError)
    refused(lambda: grids.WaypointGrids().view(7), 'a view of no type', where, ValueError)
    return None

  order = rt.permutation(rt.SCHED, len(jobs))
  shares = [[jobs[k] for k in order[i::nw]] for i in range(nw)]
  th = world.Threads((4, 10, 40)[S(3)])
  oom = F(3) == 2

  def body(t):
    def go():
      for job in shares[t]:
        for again in range(5):
          RATES[threading.get_ident()] = rate if again < 3 else 0
          try:
            if oom and again < 3 and F(4) == 3:
              th.fail[t] = F(200)
            judge = do(t, job)
            break
          except tfsim.ResourceExhaustedError:
            check(again < 3, 'raises', 'worker %d: an operation fails by itself', t)
            probe('retry')
          except MemoryError:
            check(again < 3, 'raises', 'worker %d runs out of memory by itself', t)
            probe('job repeated')
            th.retrace()
          finally:
            th.fail.pop(t, None)
            RATES[threading.get_ident()] = 0
        if judge is not None:
          judge()
          judges.append(judge)
        rt.event('worker %d: %s' % (t, job[1]))
        if FP(1, 12):
          fault('worker restarted')
          for d in (loaded, made):
            for key in [q for q in d if not keep and q[1] == t]:
              del d[key]
    return go
  if nw > 1 or oom:
    for t, e in th.run([body(t) for t in range(nw)]):
      if isinstance(e, Exception):
        raise e
      rt.violation('error', 'worker %d: %s: %s', t, type(e).__name__, str(e)[:300])
  else:
    body(0)()
  for x, same, o in loaded.values():
    check(set(x) == set(same), 'input-changed', '%s: fields of the inputs changed', o.name)
    for k, v in o.raw.items():
      near(x[k], v.astype(float), 0, '%s: %s of the inputs changed' % (o.name, k))
    x.clear()
  for g, o in made.values():
    judge_timesteps(g, o, o.name + ' at the end')
  for judge in judges:
    judge()
  tfsim.ON_OP = None
  if sum(o.valid.sum() for o in batches) > 3 and len(judges) > 3:
    rt.nontrivial()


def setup(args):
  import sys, warnings
  warnings.simplefilter('ignore')
  np.seterr(all='ignore')
  tf = tfsim.module()
  tfeager.extend(tf)
  sys.modules['tensorflow'] = tf
  from waymo_open_dataset.protos import occupancy_flow_metrics_pb2
  from waymo_open_dataset.utils import occupancy_flow_data, occupancy_flow_grids, occupancy_flow_metrics, occupancy_flow_renderer, occupancy_flow_vis
  if hasattr(occupancy_flow_metrics, '_flow_warp'):
    occupancy_flow_metrics._flow_warp = simulated_warp
  M.update(pb=occupancy_flow_metrics_pb2, tf=tf, data=occupancy_flow_data, grids=occupancy_flow_grids, metrics=occupancy_flow_metrics,
           render=occupancy_flow_renderer, vis=occupancy_flow_vis)
  return run
