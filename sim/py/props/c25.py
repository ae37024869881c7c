"""C25: realism of simulated scenes: features against an independent geometry, scores against counted samples."""
import math, os, sys
import numpy as np
import rt, tfsim, tfeager
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}
NOW = 10
T = 91
DT = 0.1
FIELDS = ('center_x', 'center_y', 'center_z', 'heading')
SIZES = ('length', 'width', 'height')
VEHICLE = 1
FAR = 1e10


def q(a, n=64):
  return np.rint(np.asarray(a, np.float64) * n) / n


def wrap(a):
  return (np.asarray(a) + math.pi) % (2 * math.pi) - math.pi


class World:
  """A scenario as plain arrays."""


def line(r, start, angle, n, step, bend):
  pts = [np.array(start, float)]
  for _ in range(n - 1):
    pts.append(pts[-1] + step * np.array([math.cos(angle), math.sin(angle)]))
    angle += bend * r.uniform(-1, 1)
  return q(pts)


def island(r, center, n, radius, ccw):
  a = np.linspace(0, 2 * math.pi, n + 1)[:-1] + r.uniform(0, 6)
  rad = radius * (0.4 + 0.6 * r.rand(n))
  pts = center + np.stack([np.cos(a), np.sin(a)], -1) * rad[:, None]
  pts = q(pts if ccw else pts[::-1])
  return np.concatenate([pts, pts[:1] + pick([[0, 0], [0, 0], [0.5, 0.25]])])


def make_world(k, gen):
  w = World()
  r = np.random.RandomState(W(1 << 20))
  w.r, w.gen, w.name = r, gen, 'scenario%d' % (k if W(3) else 0)
  n = 2 + W(3)
  w.origin = pick([[0.0, 0.0], [40.0, -25.0], [-100.0, 300.0]])
  # Lanes; some bend, some are not for cars.
  w.lanes = []
  angles = [pick([0, math.pi, math.pi / 2, -math.pi / 2, 3.1, 0.8]) for _ in range(2)]
  for i in range(1 + W(4)):
    ang = pick(angles)
    start = np.array(w.origin) + r.uniform(-15, 15, 2)
    pts = line(r, start, ang, 2 + W(5), pick([4.0, 10.0, 30.0]), pick([0, 0, 0.3]))
    if W(8) == 0 and i and w.lanes[0]['street']:
      pts = pts[:1]
    w.lanes.append(dict(id=pick([5, 100, 2, 77, 3]) + 200 * i, pts=pts, street=W(5) > 0, angle=ang))
  # Road edges of different lengths, closed ones too, on two levels.
  w.edges = []
  for i in range(1 + W(4)):
    z = pick([0.0, 0.0, 0.0, 6.0])
    if W(2):
      pts = island(r, np.array(w.origin) + r.uniform(-12, 12, 2), 3 + W(4), pick([2.0, 6.0, 12.0]), bool(W(3)))
    else:
      pts = line(r, np.array(w.origin) + r.uniform(-20, 20, 2), pick(angles), 2 + W(8), pick([2.0, 8.0]), pick([0, 0.5, 1.2]))
    rise = np.linspace(0, pick([0, 0, 0, 5, -4]), len(pts))[:, None]
    w.edges.append(np.concatenate([pts, z + q(rise + r.uniform(-0.5, 0.5, (len(pts), 1)))], 1))
  if W(6) == 0:
    w.edges.insert(W(len(w.edges) + 1), np.array([[1.0, 2.0, 0.0]]))
  # Cars along the lanes, people anywhere.
  w.n = n
  ids = [3, 1, 7, 100000, 41]
  w.ids = [ids[i] for i in rt.permutation(rt.WORK, len(ids))[:n]]
  w.sdc = W(n)
  w.types = [VEHICLE if i == w.sdc else 1 + W(4) for i in range(n)]
  w.v = {f: np.zeros((n, T)) for f in FIELDS + SIZES}
  w.walk = []
  for i in range(n):
    lane = pick(w.lanes)
    ang = lane['angle'] + pick([0, 0, 0, math.pi, 0.3, 1.5])
    w.walk.append(dict(start=np.array(lane['pts'][0], float) + r.normal(0, 0.7, 2) + pick([0, 3, 8, 15]) *
                       np.array([math.cos(lane['angle']), math.sin(lane['angle'])]), ang=ang, speed=pick([0, 1, 5, 9, 16])))
    if i and W(3) == 0:
      # Follows another one on the same lane.
      k = w.walk[W(i)]
      side = np.array([math.cos(k['ang']), math.sin(k['ang'])])
      w.walk[i].update(ang=k['ang'] + pick([0, 0, 0.05, 0.5]), start=k['start'] - pick([8, 15, 30]) * side + r.normal(0, 0.3, 2),
                       speed=k['speed'] + pick([0.5, 1, 2, 4]))
    drive(w, w.v, i, np.zeros(2) + w.walk[i]['start'], 0, T, r)
    big = w.types[i] == VEHICLE
    for f, s in zip(SIZES, (4.5, 2, 1.75) if big else (0.75, 0.875, 1.5)):
      w.v[f][i] = s + q(r.uniform(0, 0.5, T) * W(2))
  w.valid = r.rand(n, T) < pick([1.0, 1.0, 0.95, 0.7])
  w.valid[w.sdc, NOW] = True
  if W(3) == 0:
    i = W(n)
    w.valid[i, pick([0, NOW + 1, 40]):] = i == w.sdc
  if W(2):
    for f in w.v:
      w.v[f] = np.where(w.valid, w.v[f], 0)
  w.predict = [W(n) for _ in range(W(4))]
  w.predict = [i for i in w.predict if w.valid[i, NOW]]
  w.required = [i for i in range(n) if w.valid[i, NOW]]
  order = w.required if gen else [i for i in w.required if i == w.sdc or i in w.predict]
  w.evaluated = order
  # Traffic lights on lanes, known and unknown ones.
  w.signals = [[] for _ in range(T)]
  if W(4):
    for l in rt.permutation(rt.WORK, len(w.lanes))[:1 + W(3)]:
      lane = w.lanes[l]
      if len(lane['pts']) < 2:
        continue
      j = W(len(lane['pts']) - 1)
      a, b = lane['pts'][j], lane['pts'][j + 1]
      stop = q(a + (b - a) * r.uniform(0.1, 0.9))
      red = sorted([W(T), W(T)]) if W(2) else [0, T]
      gone = W(T) if W(4) == 0 else T
      for t in range(T):
        if t < gone:
          state = pick_state(r) if W(40) == 0 else (1 if W(2) else 4) if red[0] <= t < red[1] else 6
          w.signals[t].append((lane['id'], state, stop))
    if W(3) == 0:
      for t in range(T):
        w.signals[t].insert(0, (999, 4, np.zeros(2)))
  return w


def pick_state(r):
  return int(r.randint(0, 9))


def drive(w, v, i, at, lo, hi, r):
  k = w.walk[i]
  ang = k['ang'] + (r.normal(0, 0.1) if lo else 0)
  speed = max(0.0, k['speed'] + (r.normal(0, 2) if lo else 0))
  turn = r.choice([0, 0, 0, 0.01, -0.02])
  n = hi - lo
  a = ang + turn * np.arange(n)
  p = np.asarray(at, float) + np.cumsum(speed * DT * np.stack([np.cos(a), np.sin(a)], -1), 0)
  v['center_x'][i, lo:hi], v['center_y'][i, lo:hi] = q(p[:, 0]), q(p[:, 1])
  v['center_z'][i, lo:hi] = q(0.75 + r.uniform(-0.1, 0.1, n))
  h = a + turn + r.normal(0, 0.01, n)
  v['heading'][i, lo:hi] = q(np.where(r.rand(n) < 0.9, wrap(h), h), 1024)


def scenario(w):
  s = M['scenario'].Scenario(scenario_id=w.name, sdc_track_index=w.sdc, current_time_index=NOW)
  for i, t in enumerate(w.ids):
    track = s.tracks.add(id=t, object_type=w.types[i])
    for k in range(T):
      track.states.add(valid=bool(w.valid[i, k]), **{f: float(w.v[f][i, k]) for f in FIELDS + SIZES})
  for i in w.predict:
    s.tracks_to_predict.add(track_index=i)
  todo = [('lane', l) for l in w.lanes] + [('edge', e) for e in w.edges]
  w.order = rt.permutation(rt.SCHED, len(todo))
  lanes, edges = [], []
  for j in w.order:
    kind, x = todo[j]
    m = s.map_features.add()
    if kind == 'lane':
      m.id = x['id']
      m.lane.type = 2 if x['street'] else 1
      for p in x['pts']:
        m.lane.polyline.add(x=p[0], y=p[1], z=0)
      lanes.append(x)
    else:
      m.id = 3000 + j
      for p in x:
        m.road_edge.polyline.add(x=p[0], y=p[1], z=p[2])
      edges.append(x)
  w.lanes, w.edges = lanes, edges
  for t in range(T):
    d = s.dynamic_map_states.add()
    for lane, state, p in w.signals[t]:
      st = d.lane_states.add(lane=lane, state=state)
      st.stop_point.x, st.stop_point.y = p
  return s


def simulate(w, r):
  """States of one rollout: the log up to now, then something else; for generation all of it is something else."""
  v = {f: a.copy() for f, a in w.v.items()}
  lo = 0 if w.gen else NOW + 1
  for i in w.required:
    at = np.array([v['center_x'][i, NOW], v['center_y'][i, NOW]])
    drive(w, v, i, at if lo else w.walk[i]['start'] + r.normal(0, 1, 2), lo, T, r)
    for f in SIZES:
      v[f][i] = v[f][i, NOW] if not w.gen else w.v[f][i, NOW] + 0.25 * r.randint(3)
  return v


def scene(w, v, order):
  s = M['sub'].JointScene()
  lo = 0 if w.gen else NOW + 1
  for i in order:
    t = s.simulated_trajectories.add(object_id=w.ids[i])
    for f in FIELDS + (SIZES if w.gen else ()):
      getattr(t, f).extend(v[f][i, lo:].tolist())
    if w.gen:
      t.object_type = w.types[i]
      t.valid.extend([True] * T)
  return s


# ---------------------------------------------------------------- reference features


def f32(a):
  return np.asarray(a, np.float32).astype(np.float64)


def central(a):
  out = np.full(a.shape, np.nan)
  out[..., 1:-1] = (a[..., 2:] - a[..., :-2]) / 2
  return out


def near_turn(a):
  """Half turns are as much to the left as to the right."""
  with np.errstate(invalid='ignore'):
    return np.abs(np.abs(wrap(a)) - math.pi) < 2e-3


def kinematics(v, i):
  p = np.stack([v[f][i] for f in FIELDS[:3]])
  speed = np.linalg.norm(central(p), axis=0) / DT
  accel = central(speed) / DT
  h = central(v['heading'][i]) * 2
  bad = near_turn(h)
  dh = wrap(h) / 2
  d2 = central(dh) * 2
  bad2 = near_turn(d2)
  bad2[1:-1] |= bad[2:] | bad[:-2]
  return dict(linear_speed=(speed, None), linear_acceleration=(accel, None), angular_speed=(dh / DT, bad),
              angular_acceleration=(wrap(d2) / 2 / DT**2, bad2))


def corners(v, i, t, shrink=0.0):
  x, y, l, wd, h = (v[f][i, t] for f in ('center_x', 'center_y', 'length', 'width', 'heading'))
  c, s = math.cos(h), math.sin(h)
  a, b = l / 2 - shrink, wd / 2 - shrink
  return np.array([[x + c * u - s * o, y + s * u + c * o] for u, o in ((a, b), (-a, b), (-a, -b), (a, -b))])


def separation(a, b):
  """Signed distance of two convex quadrilaterals."""
  worst = -np.inf
  for p in (a, b):
    e = np.roll(p, -1, 0) - p
    n = np.stack([e[:, 1], -e[:, 0]], -1)
    n = n / np.linalg.norm(n, axis=-1, keepdims=True)
    for d in n:
      pa, pb = a @ d, b @ d
      worst = max(worst, max(pb.min() - pa.max(), pa.min() - pb.max()))
  if worst <= 0:
    return worst
  best = np.inf
  for p, o in ((a, b), (b, a)):
    s, e = o, np.roll(o, -1, 0) - o
    for x in p:
      t = np.clip(((x - s) * e).sum(-1) / (e * e).sum(-1), 0, 1)
      best = min(best, np.linalg.norm(x - s - e * t[:, None], axis=-1).min())
  return best


def nearest(w, v, valid, i, t):
  best = FAR
  def half(j):
    return 0.7 * min(v['length'][j, t], v['width'][j, t]) / 2
  a = corners(v, i, t, half(i))
  for j in w.required:
    if j != i and valid[j, t]:
      best = min(best, separation(a, corners(v, j, t, half(j))) - half(i) - half(j))
  return best


def collision_time(w, v, valid, speed, i, t):
  """None: too close to call."""
  if t in (0, T - 1):
    return 5.0
  x = np.array([v['center_x'][i, t], v['center_y'][i, t]])
  h = v['heading'][i, t]
  fwd, left = np.array([math.cos(h), math.sin(h)]), np.array([-math.sin(h), math.cos(h)])
  ahead = []
  unsure = []
  for j in w.required:
    if j == i or not valid[j, t]:
      continue
    d = np.array([v['center_x'][j, t], v['center_y'][j, t]]) - x
    turn = abs(float(wrap(v['heading'][j, t] - h)))
    c, s = abs(math.cos(turn)), abs(math.sin(turn))
    l, wd = v['length'][j, t] / 2, v['width'][j, t] / 2
    gap = d @ fwd - v['length'][i, t] / 2 - l * c - wd * s
    over = abs(d @ left) - v['width'][i, t] / 2 - l * s - wd * c
    edge = min(abs(gap), abs(over), abs(over + 0.5), abs(turn - math.radians(75)), abs(turn - math.radians(10)))
    follows = gap > 0 and turn <= math.radians(75) and over < 0 and (over < -0.5 or turn <= math.radians(10))
    if edge < 2e-3:
      unsure.append(gap)
    elif follows:
      ahead.append((gap, j))
  if not ahead:
    return None if unsure else 5.0
  gap, j = min(ahead)
  if any(g < gap + 5e-3 for g in unsure) or any(g < gap + 5e-3 and o != j for g, o in ahead):
    return None
  if not (valid[i, t - 1] and valid[i, t + 1] and valid[j, t - 1] and valid[j, t + 1]):
    return None
  rel = speed[i][t] - speed[j][t]
  if abs(rel) < 0.05:
    return None if gap < 0.5 else 5.0
  return min(gap / rel, 5.0) if rel > 0 else 5.0


class Edges:
  """Road edges with the side on which a point lies."""

  def __init__(self, polylines):
    self.a, self.b, self.prior, self.next = [], [], [], []
    for p in polylines:
      if len(p) < 2:
        continue
      n = len(p) - 1
      base = len(self.a)
      cyclic = ((p[0] - p[-1])**2).sum() < 1.0
      for k in range(n):
        self.a.append(p[k])
        self.b.append(p[k + 1])
        self.prior.append(base + (k - 1) % n if k or cyclic else -1)
        self.next.append(base + (k + 1) % n if k < n - 1 or cyclic else -1)
    self.a, self.b = np.array(self.a), np.array(self.b)
    self.prior, self.next = np.array(self.prior), np.array(self.next)

  def distance(self, x):
    """Candidates for the signed distance of points x (n, 3): arrays (n,) of the lowest and the highest."""
    a, d = self.a[None], (self.b - self.a)[None]
    sp = x[:, None] - a
    t = (sp[..., :2] * d[..., :2]).sum(-1) / (d[..., :2]**2).sum(-1)
    near = sp - d * np.clip(t, 0, 1)[..., None]
    d3 = np.linalg.norm(near * np.array([1, 1, 3.0]), axis=-1)
    d2 = np.linalg.norm(near[..., :2], axis=-1)
    cross = lambda u, v: u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]
    c = cross(sp, d)
    length = np.linalg.norm(d[..., :2], axis=-1)
    side = np.sign(c)
    flat = np.abs(c) < 2e-3 * np.maximum(length, 1)

    def joint(other, before):
      """The side at the joint with another segment: outside of a convex corner is outside of either."""
      o = np.maximum(other, 0)
      do = d[:, o]
      convex = cross(do, d) if before else cross(d, do)
      s = np.where(convex > 0, np.maximum(side, side[:, o]), np.minimum(side, side[:, o]))
      limit = np.abs(convex) < 1e-6
      return np.where(other[None] >= 0, s, side), (other[None] >= 0) & (flat[:, o] | (limit & (side != side[:, o])))
    sb, fb = joint(self.prior, True)
    sa, fa = joint(self.next, False)
    sign = np.where(t < 0, sb, np.where(t > 1, sa, side))
    unsure = flat | np.where(t < 0, fb, np.where(t > 1, fa, False))
    value = sign * d2
    best = d3.min(-1, keepdims=True)
    cand = d3 <= best + 2e-3 * (1 + best)
    lo = np.where(cand, np.where(unsure, -d2, value), np.inf).min(-1)
    hi = np.where(cand, np.where(unsure, d2, value), -np.inf).max(-1)
    return lo, hi


def violations(w, v, valid, i):
  """Per step: 1, 0 or -1 for too close to call."""
  out = np.zeros(T, int)
  street = [l for l in w.lanes if l['street']]
  lanes = [l for l in street if len(l['pts']) > 1]
  if not street or not any(w.signals):
    return out
  by_id = {l['id']: l for l in lanes}

  def seg(l, x):
    p = l['pts']
    a, d = p[:-1], p[1:] - p[:-1]
    t = ((x - a) * d).sum(-1) / (d * d).sum(-1)
    return np.linalg.norm(x - a - d * np.clip(t, 0, 1)[:, None], axis=-1)
  fence = {}
  for t in range(1, T):
    if not valid[i, t]:
      continue
    x = np.array([v['center_x'][i, t], v['center_y'][i, t]])
    red = [(l, p) for l, s, p in w.signals[t] if s in (1, 4) and l in by_id]
    if not red:
      continue
    d = sorted((seg(l, x).min(), l['id']) for l in lanes)
    unsure = len(d) > 1 and d[1][0] < d[0][0] + 2e-3
    ids = {k for g, k in d if g < d[0][0] + 2e-3}
    for l, p in red:
      if l not in ids:
        continue
      before = [pp for ll, _, pp in w.signals[t - 1] if ll == l]
      if not before or not valid[i, t - 1]:
        out[t] = -1
        continue
      f = fence.get(l)
      if f is None:
        e = seg(by_id[l], p)
        o = np.argsort(e, kind='stable')
        f = fence[l] = (int(o[0]), len(o) > 1 and e[o[1]] < e[o[0]] + 2e-3)
      a, b = by_id[l]['pts'][f[0]], by_id[l]['pts'][f[0] + 1]
      u = (b - a) / np.linalg.norm(b - a)
      x0 = np.array([v['center_x'][i, t - 1], v['center_y'][i, t - 1]])
      g0, g1 = (x0 - before[0]) @ u, (x - p) @ u
      if f[1] or unsure or min(abs(g0), abs(g1)) < 2e-3:
        if g0 < 2e-3 and g1 > -2e-3 or f[1]:
          out[t] = -1
      elif g0 < 0 < g1:
        out[t] = 1 if out[t] >= 0 else -1
  return out


# ---------------------------------------------------------------- comparison

TOL = dict(linear_speed=(2e-4, 1e-5), linear_acceleration=(5e-3, 1e-4), angular_speed=(2e-4, 1e-5), angular_acceleration=(5e-3, 1e-4),
           distance_to_nearest_object=(2e-3, 1e-4), time_to_collision=(1e-2, 1e-2), distance_to_road_edge=(2e-3, 1e-4))


def compare(w, got, index, v, valid, log, sample, where):
  """One sample of the features against the reference; sample is a drawn subset of (object, step)."""
  lo = 0 if w.gen else NOW + 1
  order = got['ids']
  by_id = {k: i for i, k in enumerate(w.ids)}
  speed2 = {i: np.linalg.norm(central(np.stack([v['center_x'][i], v['center_y'][i]])), axis=0) / DT for i in w.required}
  edges = Edges([np.asarray(e, float) for e in w.edges])

  def bad(f, i, t, have, want):
    rt.violation(f, '%s: %s of object %d at step %d is %r, expected %r', where, f, w.ids[i], t, have, want)
  for k, oid in enumerate(order):
    i = by_id[oid]
    ok = valid[i]
    for f, (want, skip) in kinematics(v, i).items():
      have = got[f][index, k].astype(np.float64)
      a, b = TOL[f]
      with np.errstate(invalid='ignore'):
        wrong = ~(np.abs(have - want[lo:]) <= a + b * np.abs(want[lo:])) & ~(np.isnan(have) & np.isnan(want[lo:]))
      if skip is not None:
        wrong &= ~skip[lo:]
      # States next to invalid ones are not judged.
      judge = np.zeros(T, bool)
      judge[2:-2] = ok[:-4] & ok[1:-3] & ok[2:-2] & ok[3:-1] & ok[4:]
      judge[[0, 1, -2, -1]] = True if w.gen else False
      judge[[-2, -1]] = True
      wrong &= judge[lo:]
      if wrong.any():
        t = int(np.argmax(wrong))
        bad(f, i, t + lo, have[t], want[lo + t])
    lights = violations(w, v, valid, i)
    have = got['traffic_light_violation_per_step'][index, k]
    for t in range(lo, T):
      if ok[t] and lights[t] >= 0 and bool(have[t - lo]) != bool(lights[t]):
        bad('traffic_light_violation', i, t, bool(have[t - lo]), bool(lights[t]))
      if lights[t] == 1:
        probe('red light crossed')
    steps = [t for t in sample if t >= lo and ok[t]]
    pts = np.array([[*c, v['center_z'][i, t] - v['height'][i, t] / 2] for t in steps for c in corners(v, i, t)]).reshape(-1, 3)
    if steps:
      a, b = edges.distance(pts)
      a, b = a.reshape(-1, 4).max(-1), b.reshape(-1, 4).max(-1)
    for n, t in enumerate(steps):
      have = float(got['distance_to_road_edge'][index, k, t - lo])
      if not a[n] - 2e-3 - 1e-4 * abs(a[n]) <= have <= b[n] + 2e-3 + 1e-4 * abs(b[n]):
        bad('distance_to_road_edge', i, t, have, (a[n], b[n]))
      off = bool(got['offroad_per_step'][index, k, t - lo])
      check(off == (have > 0), 'offroad', '%s: object %d at step %d: %r from the road edge, offroad: %r', where, oid, t, have, off)
      want = nearest(w, v, valid, i, t)
      have = float(got['distance_to_nearest_object'][index, k, t - lo])
      if abs(have - want) > 2e-3 + 1e-4 * abs(want):
        bad('distance_to_nearest_object', i, t, have, want)
      hit = bool(got['collision_per_step'][index, k, t - lo])
      check(hit == (have < 0), 'collision', '%s: object %d at step %d: %r from the nearest object, collision: %r', where, oid, t, have, hit)
      if hit:
        probe('collision')
      want = collision_time(w, v, valid, speed2, i, t)
      have = float(got['time_to_collision'][index, k, t - lo])
      if want is None:
        probe('time to collision not judged')
      elif abs(have - want) > 1e-2 + 1e-2 * want:
        bad('time_to_collision', i, t, have, want)
      elif want < 5:
        probe('about to collide')
    want = 0.0
    if not w.gen:
      d = np.stack([v[f][i] - w.v[f][i] for f in FIELDS[:3]])
      want = float(np.linalg.norm(d, axis=0)[w.valid[i]].mean())
    have = float(got['average_displacement_error'][index, k])
    if abs(have - want) > 1e-3 + 1e-4 * want:
      bad('average_displacement_error', i, -1, have, want)
    check(got['valid'][index, k].tolist() == (w.valid[i] if log else valid[i])[lo:].tolist(), 'valid', '%s: validity of object %d', where, oid)
    check(int(got['object_type'][index, k]) == w.types[i], 'type', '%s: type of object %d', where, oid)


NAMES = ('object_type', 'valid', 'average_displacement_error', 'linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration',
         'distance_to_nearest_object', 'collision_per_step', 'time_to_collision', 'distance_to_road_edge', 'offroad_per_step',
         'traffic_light_violation_per_step')


def arrays(w, m, samples, where):
  out = {f: getattr(m, f).numpy() for f in NAMES}
  out['ids'] = m.object_id.numpy().tolist()
  if sorted(out['ids']) != sorted(w.ids[i] for i in w.evaluated):
    rt.violation('evaluated', '%s: objects %r are evaluated, expected %r', where, out['ids'], [w.ids[i] for i in w.evaluated])
  n = T if w.gen else T - NOW - 1
  for f in NAMES:
    want = (samples, len(w.evaluated)) + (() if f in ('object_type', 'average_displacement_error') else (n,))
    if out[f].shape != want:
      rt.violation('shape', '%s: %s has shape %r, expected %r', where, f, out[f].shape, want)
  return out


# ---------------------------------------------------------------- scores

LIKE = ['linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration', 'distance_to_nearest_object',
        'collision_indication', 'time_to_collision', 'distance_to_road_edge', 'offroad_indication', 'traffic_light_violation']
RANGE = dict(linear_speed=(0, 25), linear_acceleration=(-12, 12), angular_speed=(-0.628, 0.628), angular_acceleration=(-3.14, 3.14),
             distance_to_nearest_object=(-5, 40), time_to_collision=(0, 5), distance_to_road_edge=(-20, 40))


def make_config(gen):
  if W(2):
    return M['shipped'][gen]
  c = M['mpb'].SimAgentMetricsConfig()
  for f in LIKE:
    x = getattr(c, f)
    x.metametric_weight = pick([0.0, 0.05, 0.1, 0.25])
    x.aggregate_objects = bool(W(2))
    x.independent_timesteps = bool(W(2))
    p = pick([0.001, 0.1, 1.0])
    if f not in RANGE:
      x.bernoulli.additive_smoothing_pseudocount = p
    elif f.startswith('distance') and W(4) == 0:
      x.kernel_density.bandwidth = pick([0.5, 2.0])
    else:
      lo, hi = RANGE[f]
      h = x.histogram
      h.min_val, h.max_val = lo * pick([1, 0.25]), hi * pick([1, 0.25])
      h.num_bins = pick([1, 2, 10, 11])
      h.additive_smoothing_pseudocount = p
  return c


def scores(c, log, sim):
  """Log likelihood of the logged values (objects, steps) under the simulated ones (rollouts, objects, steps)."""
  kind = c.WhichOneof('estimator')
  n, s = log.shape
  out = np.zeros((n, s))
  groups = [list(range(n))] if c.aggregate_objects else [[i] for i in range(n)]
  times = [list(range(s))] if c.independent_timesteps else [[t] for t in range(s)]
  if kind != 'kernel_density':
    if kind == 'bernoulli':
      lo, hi, bins, p = -0.5, 1.5, 2, c.bernoulli.additive_smoothing_pseudocount
    else:
      h = c.histogram
      lo, hi, bins, p = h.min_val, h.max_val, h.num_bins, h.additive_smoothing_pseudocount
    edges = np.linspace(np.float32(lo), np.float32(hi), bins + 1).astype(np.float32)

    def bucket(x):
      x = np.clip(np.asarray(x, np.float32), np.float32(lo), np.float32(hi))
      k = np.searchsorted(edges, x, side='right') - 1
      return np.where(np.isnan(x), -1, np.minimum(k, bins - 1))
    bl, bs = bucket(log), bucket(sim)
  for g in groups:
    for ts in times:
      if kind == 'kernel_density':
        h = c.kernel_density.bandwidth
        x = sim[:, g][:, :, ts].reshape(-1).astype(np.float64)
        y = log[g][:, ts].astype(np.float64)
        e = -((y[..., None] - x)**2) / (2 * h * h)
        out[np.ix_(g, ts)] = np.logaddexp.reduce(e, axis=-1) - math.log(len(x))
      else:
        k = bs[:, g][:, :, ts].reshape(-1)
        count = np.bincount(k[k >= 0], minlength=bins) + float(p)
        pr = np.log(count / count.sum())
        out[np.ix_(g, ts)] = pr[np.maximum(bl[g][:, ts], 0)]
  return out


def expected(config, log, sim):
  valid = log['valid'][0]
  n, s = valid.shape

  def around(a):
    b = np.zeros_like(a)
    b[:, 1:-1] = a[:, 2:] & a[:, :-2]
    return b
  vs = around(valid)
  va = around(vs)
  car = (log['object_type'][0] == VEHICLE)[:, None]

  def mean(x, mask):
    with np.errstate(invalid='ignore', divide='ignore'):
      return float(np.exp(np.where(mask, x, 0).sum() / np.float64(mask.sum())))
  out = {}
  masks = dict(linear_speed=vs, angular_speed=vs, linear_acceleration=va, angular_acceleration=va, distance_to_nearest_object=valid,
               time_to_collision=valid & car, distance_to_road_edge=valid)
  for f, mask in masks.items():
    out[f + '_likelihood'] = mean(scores(getattr(config, f), log[f][0], sim[f]), mask)
  flags = {}
  for f, g, mask in (('collision_indication', 'collision_per_step', valid), ('offroad_indication', 'offroad_per_step', valid),
                     ('traffic_light_violation', 'traffic_light_violation_per_step', valid & car)):
    l, m = (log[g][0] & mask).any(-1), (sim[g] & mask).any(-1)
    flags[f] = (sim[g] & valid).any(-1)
    out[f + '_likelihood'] = float(np.exp(scores(getattr(config, f), l[:, None], m[..., None]).mean()))
  out['simulated_collision_rate'] = flags['collision_indication'].mean()
  out['simulated_offroad_rate'] = flags['offroad_indication'].mean()
  out['simulated_traffic_light_violation_rate'] = flags['traffic_light_violation'].mean()
  e = sim['average_displacement_error'].astype(np.float64)
  out['average_displacement_error'] = e.mean()
  out['min_average_displacement_error'] = e.mean(1).min()
  out['metametric'] = sum(getattr(config, f).metametric_weight * out[f + '_likelihood'] for f in LIKE)
  return out


def same(a, b):
  return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 2e-4 + 2e-4 * abs(b)


# ---------------------------------------------------------------- runs


class Job:

  def __init__(self, rate):
    self.rate = rate

  def __enter__(self):
    def on(name):
      rt.C.steps += 1
      if FP(1, self.rate):
        fault('op fails')
        raise tfsim.ResourceExhaustedError('OOM in ' + name)
    if self.rate:
      tfsim.ON_OP = on

  def __exit__(self, *a):
    tfsim.ON_OP = None


def attempt(rate, call):
  for _ in range(2):
    try:
      with Job(rate):
        return call()
    except tfsim.ResourceExhaustedError:
      probe('retry')
  return call()


def judge(w, s, rate):
  ct = M['types'][w.gen]
  r = np.random.RandomState(W(1 << 20))
  n = 1 + W(3)
  rollouts = [simulate(w, r) for _ in range(n)]
  sub = M['sub'].ScenarioRollouts(scenario_id=w.name)
  order = rt.permutation(rt.SCHED, n)
  for k in order:
    sub.joint_scenes.append(scene(w, rollouts[k], [w.required[i] for i in rt.permutation(rt.SCHED, len(w.required))]))
  keep = s.SerializeToString(), sub.SerializeToString()
  where = '%s (%s, objects %r)' % (w.name, 'generation' if w.gen else 'sim agents', [w.ids[i] for i in w.required])
  log, sim = attempt(rate, lambda: M['features'].compute_scenario_rollouts_features(s, sub, ct))
  log, sim = arrays(w, log, 1, where + ' log'), arrays(w, sim, n, where + ' sim')
  check(log['ids'] == sim['ids'], 'evaluated', '%s: the order of objects differs', where)
  sample = sorted({W(T) for _ in range(12)} | {NOW + 1, T - 1, T - 2})
  gaps = np.nonzero(~w.valid[w.required].all(0))[0]
  more = sorted(set(sample) | {int(gaps[W(len(gaps))]) for _ in range(16) if len(gaps)})
  v = dict(w.v)
  if not w.gen:
    v = {f: a.copy() for f, a in w.v.items()}
    for f in SIZES:
      v[f][:, NOW + 1:] = v[f][:, NOW:NOW + 1]
  compare(w, log, 0, {f: f32(a) for f, a in v.items()}, w.valid, True, more, where + ' log')
  for j, k in enumerate(order):
    valid = w.valid.copy()
    for i in w.required:
      valid[i, 0 if w.gen else NOW + 1:] = True
    compare(w, sim, j, {f: f32(a) for f, a in rollouts[k].items()}, valid, False, sample, where + ' rollout %d' % j)
  config = make_config(w.gen)
  want = expected(config, log, sim)
  got = attempt(rate, lambda: M['metrics'].compute_scenario_metrics_for_bundle(config, s, sub, ct))
  for f, x in want.items():
    if not got.HasField(f) or not same(getattr(got, f), x):
      rt.violation('score-' + f.replace('_likelihood', ''), '%s: %s is %r, the features give %r', where, f, getattr(got, f), x)
  check(got.scenario_id == w.name, 'score-id', '%s: scored as %r', where, got.scenario_id)
  if (s.SerializeToString(), sub.SerializeToString()) != keep:
    rt.violation('input-changed', '%s: scoring changed its input', where)
  rt.event('%s scored' % w.name)
  return got


def run():
  rate = (0, 0, 8000, 2000)[F(4)]
  worlds = [make_world(k, bool(W(3) == 0)) for k in range(1 + W(2))]
  protos = [scenario(w) for w in worlds]
  for w in worlds:
    rt.note(w.name, w.ids, w.required, w.predict, w.valid.tobytes(), w.v['center_x'].tobytes())
  for k in rt.permutation(rt.SCHED, len(worlds)):
    judge(worlds[k], protos[k], rate)
  rt.nontrivial()


def setup(args):
  tf = tfsim.module()
  tfeager.extend(tf)
  import warnings
  warnings.simplefilter('ignore')
  np.seterr(all='ignore')
  from waymo_open_dataset.protos import scenario_pb2, sim_agents_submission_pb2, sim_agents_metrics_pb2
  from waymo_open_dataset.utils import trajectory_utils
  from waymo_open_dataset.utils.sim_agents import converters, submission_specs
  import simagents
  simagents.extend(tf)
  from waymo_open_dataset.wdl_limited.sim_agents_metrics import metrics, metric_features
  ct = submission_specs.ChallengeType
  M.update(tf=tf, scenario=scenario_pb2, sub=sim_agents_submission_pb2, mpb=sim_agents_metrics_pb2, specs=submission_specs, metrics=metrics,
           features=metric_features, types={False: ct.SIM_AGENTS, True: ct.SCENARIO_GEN})
  here = os.getcwd()
  os.chdir(args.repo)
  try:
    M['shipped'] = {g: metrics.load_metrics_config(M['types'][g]) for g in (False, True)}
  finally:
    os.chdir(here)
  return run
