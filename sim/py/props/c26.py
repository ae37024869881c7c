"""C26: rater feedback scores of an evaluation service: frames in any batches, by concurrent and failing workers."""
import math
import numpy as np
import rt, world
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}
BASE = (1.0, 1.8)
TIMES = (3, 5)


class Frame:
  """One rated frame and the prediction for it."""


def drive(r, n, dt, kind, least=0):
  """Positions of a vehicle that is at the origin, heading along x."""
  speed = r.uniform(least, 14)
  heading, x, y, out = 0.0, 0.0, 0.0, []
  turn = r.uniform(-0.4, 0.4)
  stop = r.randint(0, n + 1)
  for k in range(n):
    if kind == 'stand' or kind == 'stops' and k >= stop or kind == 'starts' and k < stop or \
        kind == 'stop and go' and (k // 3) % 2:
      v = 0.0
    elif kind == 'reverse':
      v = -speed
    else:
      v = speed
    if kind in ('bend', 'stops', 'starts', 'stop and go'):
      heading += turn * dt
    x, y = x + v * dt * math.cos(heading), y + v * dt * math.sin(heading)
    out.append((x, y) if kind != 'straight' else (speed * dt * (k + 1), 0.0))
  return np.array(out).reshape(n, 2)


KINDS = ['stand', 'straight', 'bend', 'bend', 'stops', 'starts', 'stop and go', 'reverse']


def layout(a):
  """The same array as some other code would hand it over."""
  k = W(5)
  if k == 1:
    a = a.copy()
    a.setflags(write=False)
  elif k == 2:
    b = np.full((a.shape[0],) + tuple(2 * n for n in a.shape[1:]), 77, a.dtype)
    v = b[(slice(None),) + (slice(None, None, 2),) * (a.ndim - 1)]
    v[...] = a
    a = v
  elif k == 3:
    a = np.asfortranarray(a)
  return a


def make_frame(index, c):
  f = Frame()
  f.name = 'frame%d' % index
  r = np.random.RandomState(W(1 << 20))
  f.exact = c.exact and WP(1, 2)
  dtype = np.float32 if c.single and W(2) else np.float64
  count = 1 + W(c.raters + 2)
  f.raters = []
  for _ in range(count):
    if f.exact:
      t = np.stack([np.arange(1, c.T + 1) * float(1 + r.randint(4)), np.zeros(c.T)], -1)
    else:
      t = drive(r, c.T, 1.0 / c.freq, pick(KINDS), 1 if c.single else 0)
      if f.raters and WP(1, 6):
        t = np.asarray(f.raters[-1], np.float64)[:c.T].copy()
    n = pick([c.T, c.T, c.T - 1, c.T + 3, 1 + r.randint(c.T), 1])
    if f.exact:
      n = c.T
    if n > len(t):
      t = np.concatenate([t, r.uniform(-1000, 1000, (n - len(t), 2))])
    f.raters.append(layout(t[:n].astype(dtype)))
  labels = [r.uniform(0, 10) if W(2) else float(r.randint(0, 11)) for _ in range(count)]
  f.labels = np.array(labels)
  if WP(1, 3):
    f.labels = np.array(labels).astype(np.int64)
  elif dtype is np.float32:
    f.labels = f.labels.astype(np.float32)
  f.speed = pick([0.0, 1.4, 11.0, 25.0, float(r.uniform(0, 1.4)), float(r.uniform(1.4, 11)), float(r.uniform(1.4, 11))])
  if f.exact:
    f.speed = 12.0
  # The prediction: some rater's trajectory, moved, or something else.
  f.inf = np.zeros((c.I, c.T, 2), np.float32 if c.single_inf else np.float64)
  for i in range(c.I):
    base = np.zeros((c.T, 2))
    src = np.asarray(f.raters[r.randint(min(count, c.raters))], np.float64)[:c.T]
    base[:len(src)] = src
    base[len(src):] = src[-1]
    how = W(6)
    if f.exact:
      base[TIMES[0] * c.freq - 1, 1] += pick([0.0, 1.0, -1.0, 0.5])
      base[TIMES[1] * c.freq - 1, 1] += pick([0.0, 1.8, -1.8, 0.9])
    elif how <= 2:
      for t, b in zip(TIMES, BASE):
        base[t * c.freq - 1] += b * r.uniform(-1.3, 1.3, 2) * np.array([(0.5, 3.0)[r.randint(2)], (0.5, 1.5)[r.randint(2)]])
    elif how == 3:
      base += r.uniform(-3, 3, 2)
    elif how == 4:
      base = drive(r, c.T, 1.0 / c.freq, pick(KINDS))
    f.inf[i] = base
  if c.I == 1 and W(3):
    f.probs = np.ones(1)
  else:
    p = r.uniform(0, 1, c.I) * (r.rand(c.I) < 0.8)
    f.probs = p / p.sum() if p.sum() and W(3) else np.ones(c.I) / c.I
  f.keep = ([np.array(t) for t in f.raters], f.labels.copy(), f.inf.copy(), f.probs.copy())
  return f


def proto_frame(f):
  """The frame as a record of the dataset and the prediction as part of a submission."""
  p = M['data'].E2EDFrame()
  p.frame.context.name = f.name
  p.past_states.vel_x.extend([3.0, f.speed])
  p.past_states.vel_y.extend([1.0, 0.0])
  for t, l in zip(f.keep[0], f.keep[1]):
    p.preference_trajectories.add(pos_x=t[:, 0].tolist(), pos_y=t[:, 1].tolist(), preference_score=float(l))
  s = M['submission'].FrameTrajectoryPredictions(frame_name=f.name)
  s.trajectory.pos_x.extend(f.keep[2][0, :, 0].tolist())
  s.trajectory.pos_y.extend(f.keep[2][0, :, 1].tolist())
  return p.SerializeToString(), s.SerializeToString()


def from_protos(f):
  """What a worker reads from the records, as the tutorial does it."""
  a, b = proto_frame(f)
  p, s = M['data'].E2EDFrame.FromString(a), M['submission'].FrameTrajectoryPredictions.FromString(b)
  check(p.frame.context.name == f.name == s.frame_name, 'proto', 'frame %s has another name after a record', f.name)
  f.raters = [np.stack([t.pos_x, t.pos_y], axis=-1) for t in p.preference_trajectories]
  f.labels = np.array([t.preference_score for t in p.preference_trajectories])
  f.speed = float(np.sqrt(p.past_states.vel_x[-1]**2 + p.past_states.vel_y[-1]**2))
  f.inf = np.stack([s.trajectory.pos_x, s.trajectory.pos_y], axis=-1)[None]
  for x, k in zip(f.raters + [f.labels, f.inf], f.keep[0] + [f.keep[1], f.keep[2]]):
    check(x.shape == k.shape and np.abs(x - k).max() < 1e-3, 'proto', 'frame %s has other data after a record', f.name)
  f.keep = ([np.array(t) for t in f.raters], f.labels.copy(), f.inf.copy(), f.probs.copy())


# ---------------------------------------------------------------- the definition

def heading_at(t, k):
  while k >= 0:
    before = t[k - 1] if k else (0.0, 0.0)
    dx, dy = float(t[k][0]) - float(before[0]), float(t[k][1]) - float(before[1])
    if dx or dy:
      return dx, dy
    k -= 1
  return 1.0, 0.0


def expected(f, c, j):
  """Everything one frame's evaluation has to return; scores as (lowest, highest) allowed."""
  raters, labels, inf, probs = f.keep
  ts, ls = [], []
  for p in range(c.raters):
    t = raters[min(p, len(raters) - 1)]
    ts.append([t[min(k, len(t) - 1)] for k in range(c.T)])
    ls.append(float(labels[min(p, len(raters) - 1)]))
  scale = min(max(0.5 + 0.5 * (f.speed - 1.4) / 9.6, 0.5), 1.0)
  lat = [scale * b * j['mult'][0] for b in BASE]
  lng = [scale * b * j['mult'][1] for b in BASE]
  at = [t * c.freq - 1 for t in TIMES]
  margin = 0.0 if f.exact and j['mult'][0] == 1.0 else 1e-2 if c.single or c.single_inf else 1e-9
  e = dict(ts=np.array(ts, np.float64), ls=np.array(ls), width=[2 * v for v in lng], height=[2 * v for v in lat])
  e['dirs'] = [[heading_at(t, k) for k in at] for t in ts]
  lo = hi = 0.0
  e['within'] = []
  for i in range(len(inf)):
    best = [-math.inf, -math.inf]
    surely = maybe = False
    for p in range(c.raters):
      inside, outside = True, False
      for q, k in enumerate(at):
        dx, dy = e['dirs'][p][q]
        n = math.hypot(dx, dy)
        vx, vy = float(inf[i][k][0]) - float(ts[p][k][0]), float(inf[i][k][1]) - float(ts[p][k][1])
        d = max(abs(vx * dx + vy * dy) / n / lng[q], abs(vy * dx - vx * dy) / n / lat[q])
        inside = inside and d <= 1 - margin
        outside = outside or d > 1 + margin
        best[q] = max(best[q], ls[p] * j['decay']**max(d - 1, 0.0))
      surely = surely or inside
      maybe = maybe or not outside
    s = (best[0] + best[1]) / 2
    clipped = max(s, j['floor'])
    options = ([s] if maybe else []) + ([clipped] if not surely else [])
    lo += min(options) * probs[i]
    hi += max(options) * probs[i]
    e['within'].append(True if surely else None if maybe else False)
  e['score'] = (lo, hi)
  return e


def near(a, b, tol):
  return abs(float(a) - b) <= tol * (1 + abs(b))


def judge(out, batch, c, j, where):
  tol = 2e-2 if c.single or c.single_inf else 1e-8
  n = len(batch)
  shapes = dict(rater_feedback_score=(n,), is_fully_within_trust_region=(n, c.I),
                rater_specified_trajectories=(n, c.raters, c.T, 2), rater_feedback_labels=(n, c.raters))
  if j['vis']:
    shapes.update(trust_region_center_x=(n, c.raters, 2), trust_region_center_y=(n, c.raters, 2), trust_region_angle=(n, c.raters, 2),
                  trust_region_width=(n, 2), trust_region_height=(n, 2))
  for k, shape in shapes.items():
    check(k in out and np.shape(out[k]) == shape, 'shape', '%s: %s has shape %r, not %r', where, k, np.shape(out.get(k)), shape)
  at = [t * c.freq - 1 for t in TIMES]
  for b, f in enumerate(batch):
    e = expected(f, c, j)
    what = '%s: %s (%d of %d in its batch)' % (where, f.name, b, n)
    got = float(out['rater_feedback_score'][b])
    lo, hi = e['score']
    check(lo - tol * (1 + abs(lo)) <= got <= hi + tol * (1 + abs(hi)), 'score', '%s: score %r, defined as %r', what, got,
          lo if lo == hi else (lo, hi))
    for i, w in enumerate(e['within']):
      check(w is None or bool(out['is_fully_within_trust_region'][b][i]) == w, 'within',
            '%s: prediction %d is %s the trust regions', what, i, 'inside' if w else 'not fully inside')
    check(np.abs(out['rater_specified_trajectories'][b] - e['ts']).max() <= 1e-4, 'trajectories', '%s: other rater trajectories', what)
    check(np.abs(out['rater_feedback_labels'][b] - e['ls']).max() <= 1e-5, 'labels', '%s: labels %r, rated %r', what,
          np.asarray(out['rater_feedback_labels'][b]).tolist(), e['ls'].tolist())
    if not j['vis']:
      continue
    for q, k in enumerate(at):
      check(near(out['trust_region_width'][b][q], e['width'][q], tol) and near(out['trust_region_height'][b][q], e['height'][q], tol),
            'region', '%s: region of %r by %r at %d s, not %r by %r', what, float(out['trust_region_width'][b][q]),
            float(out['trust_region_height'][b][q]), TIMES[q], e['width'][q], e['height'][q])
      for p in range(c.raters):
        cx, cy = float(out['trust_region_center_x'][b][p][q]), float(out['trust_region_center_y'][b][p][q])
        check(abs(cx - e['ts'][p][k][0]) < 1e-4 and abs(cy - e['ts'][p][k][1]) < 1e-4, 'center', '%s: region %d at (%r, %r)', what, p, cx, cy)
        dx, dy = e['dirs'][p][q]
        a = math.radians(float(out['trust_region_angle'][b][p][q]))
        # Rounding of the positions turns short steps.
        slack = 1e-6 + (2e-3 / math.hypot(dx, dy) if c.single else 0)
        check(abs(math.remainder(a - math.atan2(dy, dx), 2 * math.pi)) <= slack, 'angle', '%s: region %d at %d s is turned by %r, heading %r',
              what, p, TIMES[q], math.degrees(a), math.degrees(math.atan2(dy, dx)))


def intact(frames, where):
  for f in frames:
    check(len(f.raters) == len(f.keep[0]), 'input-changed', '%s: %s has %d rater trajectories instead of %d', where, f.name,
          len(f.raters), len(f.keep[0]))
    for x, k in zip(f.raters + [f.labels, f.inf, f.probs], f.keep[0] + list(f.keep[1:])):
      check(x.shape == k.shape and x.dtype == k.dtype and (x == k).all(), 'input-changed', '%s: an input of %s was changed', where, f.name)


# ---------------------------------------------------------------- the service

class Cfg:
  pass


def make_job(c, n):
  return dict(mult=pick([(1.0, 4.0), (1.0, 4.0), (1.0, 2.0), (2.0, 1.0), (0.5, 3.0)]), decay=pick([0.1, 0.1, 0.3, 0.9]),
              floor=pick([4.0, 4.0, 0.0, 7.5]), vis=bool(W(2)), plain=not W(4),
              batch=[W(n) for _ in range(1 + W(4))])


def call(frames, batch, c, j, spoil=None):
  raters = [frames[b].raters for b in batch]  # the lists themselves
  labels = [frames[b].labels for b in batch]
  inf = np.stack([frames[b].inf for b in batch])
  probs = np.stack([frames[b].probs for b in batch])
  speed = np.array([frames[b].speed for b in batch])
  if spoil == 'labels lost':
    labels = labels[:-1]
  elif spoil == 'label lost':
    k = F(len(labels))
    labels[k] = labels[k][:-1] if len(labels[k]) > 1 else np.concatenate([labels[k]] * 2)
  elif spoil == 'prediction cut':
    inf = inf[:, :, :-1 - F(c.T - 1)]
  elif spoil == 'prediction too long':
    inf = np.concatenate([inf, inf[:, :, -1:]], axis=2)
  elif spoil == 'too short':
    inf = inf[:, :, :(c.length - 1) * c.freq]
  args = dict(frequency=c.freq, length_seconds=c.length, output_trust_region_visualization=j['vis'],
              default_num_of_rater_specified_trajectories=c.raters, lat_lng_threshold_multipliers=j['mult'],
              decay_factor=j['decay'], minimum_score_outside_trust_region=j['floor'])
  if spoil == 'too short':
    args['length_seconds'] = 4 if c.length == 5 else c.length - 1
  if c.plain:
    args = dict(output_trust_region_visualization=j['vis'])
  keep = (inf.copy(), probs.copy(), speed.copy())
  try:
    return M['lib'].get_rater_feedback_score(inf, probs, raters, labels, speed, **args)
  finally:
    check(all((a == b).all() for a, b in zip(keep, (inf, probs, speed))), 'input-changed', 'a batch array was changed')


def run():
  c = Cfg()
  c.plain = bool(W(2))  # the challenge's own configuration
  c.freq, c.length, c.raters = (4, 5, 3) if c.plain else (pick([4, 1, 2, 10]), pick([5, 5, 6, 8]), pick([3, 1, 2, 5]))
  c.T = c.freq * c.length
  c.I = pick([1, 1, 2, 5])
  c.single, c.single_inf, c.exact = not W(5), not W(5), not W(4)
  frames = [make_frame(i, c) for i in range(1 + W(6))]
  if c.I == 1 and W(2):
    c.single = c.single_inf = False
    for f in frames:
      from_protos(f)
      f.exact = False
    probe('frames through records')
  for f in frames:
    rt.note(f.name, [t.tobytes() for t in f.keep[0]], f.labels.tobytes(), f.inf.tobytes(), f.probs.tobytes(), f.speed)
  nt = 1 + W(3)
  plan = [[make_job(c, len(frames)) for _ in range(1 + W(3))] for _ in range(nt)]
  if c.plain:
    for js in plan:
      for j in js:
        j.update(mult=(1.0, 4.0), decay=0.1, floor=4.0)
  rt.note(plan, c.freq, c.length, c.raters)
  rt.log('%d frames, %d Hz, %d s, %d raters, %d predictions; plan %r', len(frames), c.freq, c.length, c.raters, c.I, plan)
  # What is left over when a worker dies goes to those that are alive.
  th = world.Threads((3, 8, 30, 100)[S(4)], opcodes=S(4) == 3)
  oom = F(3) == 2

  def op(t, k, j):
    where = 'worker %d job %d' % (t, k)
    batch = [frames[b] for b in j['batch']]
    if FP(1, 6):
      options = ['labels lost', 'label lost', 'prediction cut', 'prediction too long']
      if not c.plain and c.length == 5:
        options.append('too short')
      spoil = options[F(len(options))]
      fault(spoil)
      try:
        call(frames, j['batch'], c, j, spoil)
      except ValueError:
        probe('refused')
      else:
        rt.violation('accepted', '%s: a batch was evaluated although: %s', where, spoil)
      intact(batch, where)
    out = call(frames, j['batch'], c, j)
    judge(out, batch, c, j, where)
    rt.event('%s scored %d' % (where, len(batch)))
    intact(batch, where)
    for v in out.values():
      if isinstance(v, np.ndarray) and v.flags.writeable and WP(1, 3):
        v[...] = 1 if v.dtype == bool else -7
    intact(batch, where + ', after its results were overwritten')

  def body(t):
    def go():
      for k, j in enumerate(plan[t]):
        if oom and F(3) == 2:
          th.fail[t] = F(400)
        try:
          op(t, k, j)
        except MemoryError:
          probe('job repeated')
          intact(frames, 'after a failed job')
          th.fail.pop(t, None)
          th.retrace()
          op(t, k, j)
        th.fail.pop(t, None)
    return go
  errors = th.run([body(t) for t in range(nt)])
  for t, e in errors:
    if isinstance(e, Exception):
      raise e
    rt.violation('error', 'worker %d: %s: %s', t, type(e).__name__, str(e)[:300])
  if len(frames) > 1 or nt > 1:
    rt.nontrivial()
  # Everything at once, and each frame alone.
  j = dict(plan[0][0], batch=rt.permutation(rt.SCHED, len(frames)))
  judge(call(frames, j['batch'], c, j), [frames[b] for b in j['batch']], c, j, 'all frames')
  for b in range(len(frames)):
    judge(call(frames, [b], c, j), [frames[b]], c, j, 'alone')
  intact(frames, 'afterwards')


def setup(args):
  import warnings
  warnings.simplefilter('ignore')
  np.seterr(all='ignore')
  from waymo_open_dataset.metrics.python import rater_feedback_utils
  from waymo_open_dataset.protos import end_to_end_driving_data_pb2, end_to_end_driving_submission_pb2
  M.update(lib=rater_feedback_utils, data=end_to_end_driving_data_pb2, submission=end_to_end_driving_submission_pb2)
  return run
