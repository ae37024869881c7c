"""C24: Sim Agents submissions assembled from unreliable simulators, checked, converted and averaged."""
import copy, sys, types
import numpy as np
import rt, tfsim, tfeager
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}
NOW = 10
FIELDS = ('center_x', 'center_y', 'center_z', 'heading')
SIZES = ('length', 'width', 'height')
FAILURES = (tfsim.ResourceExhaustedError,)


class World:
  """One scenario as plain arrays."""


def steps(gen):
  return 91 if gen else 80


def make_world(k, total):
  w = World()
  r = np.random.RandomState(W(1 << 20))
  n = 1 + W(4)
  # Now and then two scenarios go by the same name.
  w.name = 'scenario%d' % (k if W(6) else 0)
  ids = [3, 1, 0, 2, 7, 100000, 2147483647, 41]
  w.ids = [ids[i] for i in rt.permutation(rt.WORK, len(ids))[:n]]
  w.types = [1 + int(r.randint(4)) for _ in range(n)]
  w.sdc = W(n)
  w.total = total
  w.valid = r.rand(n, total) < pick([0.8, 0.3, 1.0])
  w.valid[w.sdc, NOW] = True
  shape = (n, total)
  base = 1000.0 * (1 + k)
  # Every state is told apart from every other; the values are exact in single precision.
  grid = np.arange(n * total).reshape(shape)
  w.v = dict(center_x=base + grid / 64, center_y=-base - grid / 32, center_z=grid / 128 - 2, heading=(grid % 400) / 64 - 3,
             length=3 + r.permutation(grid.ravel()).reshape(shape) / 256, width=1 + r.permutation(grid.ravel()).reshape(shape) / 512,
             height=2 + r.permutation(grid.ravel()).reshape(shape) / 1024)
  if W(2):
    for f in w.v:
      w.v[f] = np.where(w.valid, w.v[f], 0)  # as in the dataset
  w.predict = [W(n) for _ in range(W(5))]
  w.required = [i for i in range(n) if w.valid[i, NOW]]
  return w


def scenario(w):
  s = M['scenario'].Scenario(scenario_id=w.name, sdc_track_index=w.sdc, current_time_index=NOW)
  for i, t in enumerate(w.ids):
    track = s.tracks.add(id=t, object_type=w.types[i])
    for k in range(w.total):
      track.states.add(valid=bool(w.valid[i, k]), **{f: float(w.v[f][i, k]) for f in FIELDS + SIZES})
  for i in w.predict:
    s.tracks_to_predict.add(track_index=i)
  return s


def trajectory(w, i, n, salt, full):
  g = np.arange(n) / 64 + 500 * salt + 8 * i
  t = M['sub'].SimulatedTrajectory(object_id=w.ids[i])
  t.center_x.extend((g + 7).tolist())
  t.center_y.extend((-g).tolist())
  t.center_z.extend((g / 8).tolist())
  t.heading.extend((g % 3).tolist())
  if full:
    t.length.extend((g + 1).tolist())
    t.width.extend((g + 2).tolist())
    t.height.extend((g + 3).tolist())
    t.object_type = w.types[i]
    t.valid.extend([True] * n)
  return t


class Job:

  def __init__(self, rate):
    self.rate = rate

  def __enter__(self):
    def on(name):
      rt.C.steps += 1
      if FP(1, self.rate):
        fault('op fails')
        raise tfsim.ResourceExhaustedError('OOM in ' + name)
    if self.rate:
      tfsim.ON_OP = on

  def __exit__(self, *a):
    tfsim.ON_OP = None


def attempt(rate, call):
  for _ in range(3):
    try:
      with Job(rate):
        return call()
    except FAILURES:
      probe('retry')
  return call()


def unchanged(what, *pairs):
  for a, b in pairs:
    if a != b:
      rt.violation('input-changed', '%s changed its input', what)


def scene_ok(scene, w, gen):
  ids = [t.object_id for t in scene.simulated_trajectories]
  return (sorted(ids) == sorted(w.ids[i] for i in w.required) and
          all(len(getattr(t, f)) == steps(gen) for t in scene.simulated_trajectories for f in FIELDS))


def accepted(call, what):
  try:
    call()
    return True
  except ValueError as e:
    rt.log('%s: refused: %s', what, str(e)[:200])
    return False


# ---------------------------------------------------------------- submissions


def collect(w, s, worlds, protos, gen):
  """The messages of the simulators of one scenario reach the collector; it checks what it has."""
  specs = M['specs']
  ct = M['types'][gen]
  n = steps(gen)
  full = gen and W(2)
  R = 32
  scenes = []
  distinct = 1 + W(3)
  for k in range(distinct):
    scene = M['sub'].JointScene()
    for i in rt.permutation(rt.SCHED, len(w.required)):
      scene.simulated_trajectories.append(trajectory(w, w.required[i], n, k, full))
    scenes.append(scene)
  got = [k % distinct for k in range(R)]
  damaged = {}
  name, count = w.name, R
  for _ in range((0, 0, 1, 1, 2)[F(5)]):
    kind = F(11)
    at = min((0, R - 1, F(R))[F(3)], len(got) - 1)
    if kind < 7 and at not in damaged:
      damaged[at] = M['sub'].JointScene.FromString(scenes[got[at]].SerializeToString())
    scene = damaged.get(at)
    ts = scene.simulated_trajectories if scene is not None else None
    if kind == 0 and ts:
      del ts[F(len(ts))]
      fault('trajectory lost')
    elif kind == 1 and ts:
      ts.append(ts[F(len(ts))])
      if F(2):
        del ts[-1].center_x[:]
        ts[-1].center_x.extend([1.0] * n)
      fault('trajectory repeated')
    elif kind == 2 and ts:
      t = ts[F(len(ts))]
      f = getattr(t, FIELDS[F(4)])
      x = F(len(f) + 1)
      if x < len(f):
        del f[x:]
      else:
        f.append(0.5)
      fault('field cut or grown')
    elif kind == 3 and ts:
      o = worlds[F(len(worlds))]
      i = F(len(o.ids))
      t = trajectory(o, i, n, 1, full)
      if F(2):
        ts[F(len(ts))].CopyFrom(t)
      else:
        ts.append(t)
      fault('foreign trajectory')
    elif kind == 4 and ts:
      # Sent to an id nobody has.
      ts[F(len(ts))].object_id = 77
      fault('unknown object')
    elif kind == 5 and ts:
      ts[F(len(ts))].ClearField('object_id')
      fault('no object id')
    elif kind == 6 and ts:
      # Two simulators claim the same object; another one is missing.
      a, b = F(len(ts)), F(len(ts))
      ts[a].object_id = ts[b].object_id
      fault('object claimed twice')
    elif kind == 7:
      got.pop(F(len(got)))
      fault('scene lost')
    elif kind == 8:
      got.append(got[F(len(got))])
      fault('scene repeated')
    elif kind == 9:
      name = None
      fault('no scenario id')
    else:
      name = worlds[F(len(worlds))].name + ('x' if F(2) else '')
      fault('scenario id of another')
  order = rt.permutation(rt.SCHED, len(got))
  sub = M['sub'].ScenarioRollouts()
  if name is not None:
    sub.scenario_id = name
  for i in order:
    sub.joint_scenes.append(damaged.get(i) or scenes[got[i]])
  good = [scene_ok(x, w, gen) for x in sub.joint_scenes]
  before = sub.SerializeToString()
  keep = s.SerializeToString()
  where = 'scenario %s (objects %r, %r required), %d scenes, id %r' % (w.name, w.ids, [w.ids[i] for i in w.required], len(got), name)
  want = name == w.name and len(got) == R and all(good)
  def call():
    if gen or W(2):
      specs.validate_scenario_rollouts(sub, s, ct)
    else:
      specs.validate_scenario_rollouts(sub, s)
  have = accepted(call, where)
  bad = [[t.object_id for t in x.simulated_trajectories] for x, g in zip(sub.joint_scenes, good) if not g]
  if have and not want:
    rt.violation('accepted', '%s: accepted, although %s', where, 'scenes are damaged: %r' % bad if bad else 'the id or the number of '
                 'scenes is wrong')
  if want and not have:
    rt.violation('refused', '%s: refused, although complete', where)
  for i in {0, F(len(got)) if got else 0} & set(range(len(got))):
    one = accepted(lambda: specs.validate_joint_scene(sub.joint_scenes[i], s, ct), where)
    if one != good[i]:
      rt.violation('scene', '%s: scene %d is %s: %r with lengths %r', where, i, 'accepted' if one else 'refused',
                   [t.object_id for t in sub.joint_scenes[i].simulated_trajectories],
                   [[len(getattr(t, f)) for f in FIELDS] for t in sub.joint_scenes[i].simulated_trajectories])
  unchanged('validation', (before, sub.SerializeToString()), (keep, s.SerializeToString()))
  probe('accepted' if want else 'refused')
  rt.event('%s %d' % (w.name, want))


def ids(w, s, gen):
  specs = M['specs']
  ct = M['types'][gen]
  got = list(specs.get_sim_agent_ids(s, ct))
  want = [w.ids[i] for i in w.required]
  if sorted(got) != sorted(want):
    rt.violation('sim-agents', 'scenario %s: agents to simulate are %r, not %r', w.name, got, want)
  got = list(specs.get_evaluation_sim_agent_ids(s, ct))
  if not gen:
    want = {w.ids[i] for i in [w.sdc] + w.predict}
  if sorted(got) != sorted(want):
    rt.violation('evaluated', 'scenario %s: agents to evaluate are %r, not %r', w.name, got, sorted(want))


# ---------------------------------------------------------------- conversions


def arrays(t):
  return {f: np.asarray(getattr(t, f).numpy() if hasattr(getattr(t, f), 'numpy') else getattr(t, f)) for f in
          ('x', 'y', 'z', 'heading', 'length', 'width', 'height', 'valid', 'object_id', 'object_type')}


NAMES = dict(x='center_x', y='center_y', z='center_z', heading='heading', length='length', width='width', height='height')


def compare(got, want, where):
  """want: a list of (id, type, {field: row})."""
  if got['object_id'].tolist() != [i for i, _, _ in want]:
    rt.violation('objects', '%s: objects %r, expected %r', where, got['object_id'].tolist(), [i for i, _, _ in want])
  if got['object_type'].tolist() != [t for _, t, _ in want]:
    rt.violation('object-types', '%s: types %r, expected %r', where, got['object_type'].tolist(), [t for _, t, _ in want])
  for k, (i, _, rows) in enumerate(want):
    for f, row in rows.items():
      g = got[f]
      if g.ndim != 2 or g.shape != (len(want), len(row)):
        rt.violation('shape', '%s: %s has shape %r, expected %r', where, f, g.shape, (len(want), len(row)))
      a, b = g[k].astype(np.float64), np.asarray(row, np.float32).astype(np.float64)
      if not np.array_equal(a, b):
        t = int(np.argmax(a != b))
        rt.violation('state', '%s: object %d: %s at step %d is %r, expected %r', where, i, f, t, a[t], b[t])


def log_rows(w, i, sl=slice(None)):
  rows = {k: w.v[f][i, sl] for k, f in NAMES.items()}
  rows['valid'] = w.valid[i, sl]
  return rows


def convert(w, s, gen, rate):
  conv = M['conv']
  traj = M['traj'].ObjectTrajectories
  ct = M['types'][gen]
  n = steps(gen)
  keep = s.SerializeToString()
  where = 'scenario %s (%s)' % (w.name, 'generation' if gen else 'sim agents')
  full = attempt(rate, lambda: traj.from_scenario(s))
  compare(arrays(full), [(w.ids[i], w.types[i], log_rows(w, i)) for i in range(len(w.ids))], where + ' from_scenario')
  # Any selection in any order, with repetitions.
  pickd = [W(len(w.ids)) for _ in range(1 + W(4))]
  part = attempt(rate, lambda: full.gather_objects_by_id(M['tf'].convert_to_tensor([w.ids[i] for i in pickd])))
  lo = W(w.total)
  hi = pick([None, w.total, lo + 1, NOW + 1])
  cut = attempt(rate, lambda: part.slice_time(lo, hi) if W(2) else part.slice_time(start_index=lo, end_index=hi))
  compare(arrays(cut), [(w.ids[i], w.types[i], log_rows(w, i, slice(lo, hi))) for i in pickd], where + ' gathered and cut')
  if W(3) == 0:
    miss = [w.ids[i] for i in pickd]
    miss.insert(W(len(miss) + 1), 78)
    if accepted(lambda: full.gather_objects_by_id(M['tf'].convert_to_tensor(miss)), 'missing object'):
      rt.violation('missing-accepted', '%s: gathering objects %r of %r succeeds', where, miss, w.ids)
  # The log as a submission.
  sl = slice(None) if gen else slice(NOW + 1, None)
  length = w.total if gen else max(0, w.total - NOW - 1)
  def to_scene():
    return conv.scenario_to_joint_scene(s, ct) if gen or W(2) else conv.scenario_to_joint_scene(s)
  if length != n:
    if accepted(to_scene, 'short scenario'):
      rt.violation('short-accepted', '%s: a scenario of %d steps becomes a submission', where, w.total)
    probe('scenario without future')
    if gen:
      return
    log = None
  else:
    log = attempt(rate, to_scene)
    have = {t.object_id: t for t in log.simulated_trajectories}
    if len(log.simulated_trajectories) != len(w.required) or set(have) != {w.ids[i] for i in w.required}:
      rt.violation('log-objects', '%s: the log as a submission has objects %r, expected %r', where,
                   [t.object_id for t in log.simulated_trajectories], [w.ids[i] for i in w.required])
    for i in w.required:
      t = have[w.ids[i]]
      rows = log_rows(w, i, sl)
      for k, f in NAMES.items():
        a = list(getattr(t, f))
        b = [float(np.float32(x)) for x in rows[k]]
        if a != b:
          d = [j for j in range(min(len(a), len(b))) if a[j] != b[j]] or [min(len(a), len(b))]
          rt.violation('log-state', '%s: the log of object %d as a submission: %s has %d of %d values, first difference at %d', where,
                       w.ids[i], f, len(a), len(b), d[0])
      check(list(t.valid) == rows['valid'].tolist() and t.object_type == w.types[i], 'log-state', '%s: the log of object %d as a '
            'submission has another validity or type', where, w.ids[i])
    if not accepted(lambda: M['specs'].validate_joint_scene(log, s, ct), 'log'):
      rt.violation('refused', '%s: the log itself is refused as a submission', where)
  # A simulated scene, its objects in any order.
  order = [w.required[i] for i in rt.permutation(rt.SCHED, len(w.required))]
  scene = M['sub'].JointScene(simulated_trajectories=[trajectory(w, i, n, 3, gen) for i in order])
  use_log = bool(W(2)) and log is not None and not gen
  sent = scene.SerializeToString()
  want = []
  for k, i in enumerate(order):
    t = scene.simulated_trajectories[k]
    rows = {a: list(getattr(t, f)) for a, f in NAMES.items()}
    if gen:
      rows['valid'] = [w.valid[i, NOW]] * n
    else:
      past = log_rows(w, i, slice(0, NOW + 1))
      for a in NAMES:
        rows[a] = list(past[a]) + (rows[a] if a in ('x', 'y', 'z', 'heading') else [past[a][NOW]] * n)
      rows['valid'] = list(past['valid']) + (list(w.valid[i, NOW + 1:]) if use_log else [True] * n)
    want.append((w.ids[i], w.types[i], rows))
  if gen:
    out = attempt(rate, lambda: conv.simulated_scenariogen_to_trajectories(scene, s, ct))
  elif use_log:
    out = attempt(rate, lambda: conv.joint_scene_to_trajectories(scene, s, use_log_validity=True))
  else:
    out = attempt(rate, lambda: conv.joint_scene_to_trajectories(scene, s))
  compare(arrays(out), want, where + ' simulated' + (' with log validity' if use_log else ''))
  if FP(1, 3):
    scene2 = M['sub'].JointScene.FromString(sent)
    scene2.simulated_trajectories[F(len(order))].object_id = 79
    fault('unknown object')
    f = (lambda: conv.simulated_scenariogen_to_trajectories(scene2, s, ct)) if gen else (
        lambda: conv.joint_scene_to_trajectories(scene2, s))
    if accepted(f, 'unknown object'):
      rt.violation('missing-accepted', '%s: a scene with an object that the scenario does not have is converted', where)
  unchanged('conversion', (keep, s.SerializeToString()), (sent, scene.SerializeToString()))
  rt.event('%s converted' % w.name)


# ---------------------------------------------------------------- dataset metrics

LIKE = ['linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration', 'distance_to_nearest_object',
        'collision_indication', 'time_to_collision', 'distance_to_road_edge', 'offroad_indication', 'traffic_light_violation']
BUCKETS = dict(kinematic_metrics=LIKE[:4], interactive_metrics=LIKE[4:7], map_based_metrics=LIKE[7:])
OTHER = ['metametric', 'average_displacement_error', 'min_average_displacement_error', 'simulated_collision_rate',
         'simulated_offroad_rate', 'simulated_traffic_light_violation_rate']


def near(a, b):
  return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def average(rate):
  lib, pb = M['metrics'], M['mpb']
  n = 1 + W(6)
  names = [f + '_likelihood' for f in LIKE] + OTHER
  r = np.random.RandomState(W(1 << 20))
  table = [{f: float(np.float32(v)) for f, v in zip(names, r.rand(len(names)) * (r.rand(len(names)) < 0.8))} for _ in range(n)]
  msgs = [pb.SimAgentMetrics(scenario_id='s%d' % i, **t) for i, t in enumerate(table)]
  # What the workers finished, in the order in which they finished it.
  order = rt.permutation(rt.SCHED, n)[:1 + W(n)]
  keep = [m.SerializeToString() for m in msgs]
  got = lib.aggregate_scenario_metrics([msgs[i] for i in order])
  for f in names:
    w = sum(table[i][f] for i in order) / len(order)
    if not got.HasField(f) or not near(getattr(got, f), w):
      rt.violation('mean', 'the mean of %s over %d scenarios is %r, expected %r', f, len(order), getattr(got, f), w)
  if got.HasField('scenario_id'):
    rt.violation('mean', 'the mean over scenarios has a scenario id')
  config = pb.SimAgentMetricsConfig()
  weights = {f: float(np.float32(v)) for f, v in zip(LIKE, r.rand(len(LIKE)))}
  for f in LIKE:
    if WP(1, 4):
      weights[f] = 0.0
    getattr(config, f).metametric_weight = weights[f]
  source, values = pick([(got, {f: getattr(got, f) for f in names}), (msgs[0], table[0])])
  empty = any(sum(weights[f] for f in b) == 0 for b in BUCKETS.values())
  try:
    out = lib.aggregate_metrics_to_buckets(config, source)
    ok = True
  except ValueError:
    ok = False
  if ok == empty:
    rt.violation('weights', 'buckets with weights %r are %s', weights, 'accepted' if ok else 'refused')
  if ok:
    want = {b: sum(weights[f] * values[f + '_likelihood'] for f in fs) / sum(weights[f] for f in fs) for b, fs in BUCKETS.items()}
    want.update(realism_meta_metric=values['metametric'], min_ade=values['min_average_displacement_error'])
    want.update({f: values[f] for f in OTHER[3:]})
    for f, w in want.items():
      if not out.HasField(f) or not near(getattr(out, f), w):
        rt.violation('bucket', '%s is %r, expected %r (weights %r, metrics %r)', f, getattr(out, f), w, weights, values)
  if [m.SerializeToString() for m in msgs] != keep:
    rt.violation('input-changed', 'aggregation changed its input')
  rt.event('averaged %r' % (order,))


def run():
  rate = (0, 200, 60, 20)[F(4)]
  gens = [bool(W(2))] * 3 if W(2) else [bool(W(2)) for _ in range(3)]
  worlds = [make_world(k, 91 if W(8) else pick([11, 90, 92])) for k in range(1 + W(3))]
  protos = [scenario(w) for w in worlds]
  for w in worlds:
    rt.note(w.name, w.ids, w.required, w.predict, w.total, w.valid.tobytes())
  jobs = [(k, i) for i in range(len(worlds)) for k in ('submit', 'convert')] + [('average', 0)]
  for j in rt.permutation(rt.SCHED, len(jobs)):
    k, i = jobs[j]
    w, s, g = worlds[i], protos[i], gens[i]
    if k == 'submit':
      collect(w, s, worlds, protos, g)
      ids(w, s, g)
    elif k == 'convert':
      convert(w, s, g, rate)
    else:
      average(rate)
  if len(worlds) > 1:
    rt.nontrivial()


def setup(args):
  tf = tfsim.module()
  tfeager.extend(tf)
  import warnings
  warnings.simplefilter('ignore')
  from waymo_open_dataset.protos import scenario_pb2, sim_agents_submission_pb2, sim_agents_metrics_pb2
  from waymo_open_dataset.utils import trajectory_utils
  from waymo_open_dataset.utils.sim_agents import converters, submission_specs
  import simagents
  simagents.extend(tf)
  from waymo_open_dataset.wdl_limited.sim_agents_metrics import metrics
  ct = submission_specs.ChallengeType
  M.update(tf=tf, scenario=scenario_pb2, sub=sim_agents_submission_pb2, mpb=sim_agents_metrics_pb2, traj=trajectory_utils,
           conv=converters, specs=submission_specs, metrics=metrics, types={False: ct.SIM_AGENTS, True: ct.SCENARIO_GEN})
  return run
