"""C19: histories of the graph-mode metrics (detection, tracking, motion) on a simulated graph executor."""
import hashlib
import numpy as np
import rt, tfsim
from props import det
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}
FALLIBLE = {'ConcatV2', 'Reshape', 'StridedSlice', 'Shape', 'Pack', 'Fill', 'ZerosLike', 'Cast', 'Identity', 'Tile', 'Range',
            'AsString', 'Size'}


def cell(v):
  return repr(v.tolist()).encode() if v.dtype == object else np.ascontiguousarray(v).tobytes()


def rows(d, names):
  n = len(d[names[0]])
  return [b'|'.join(cell(np.asarray(d[k][i])) for k in names) for i in range(n)]


class Kind:
  """One family of metrics: its inputs in groups of rows, its optional inputs and its values."""

  def names(self):
    return [k for g in self.groups for k in g]

  def content(self, batches):
    out = []
    for g in self.groups:
      use = [k for k in g if k not in self.uncounted]
      out.append(sorted(r for b in batches for r in rows(b, use)))
    return out

  def coded(self, content, config, i):
    h = hashlib.shake_128(repr(content).encode() + repr(config).encode() + b'%d' % i)
    s = self.out_shape(i)
    n = int(np.prod(s))
    return (np.frombuffer(h.digest(2 * n), np.uint16).reshape(s) / np.float32(65536)).astype(np.float32)

  def out_shape(self, i):
    return (len(self.breakdowns),)

  def op(self, name, config, xs):
    for g in self.groups:
      if len(set(len(xs[k]) for k in g)) != 1:
        raise tfsim.InvalidArgumentError('rows differ: %r' % {k: xs[k].shape for k in g})
    for k, s in self.row_shape.items():
      if xs[k].shape[1:] != s:
        raise tfsim.InvalidArgumentError('%s has shape %r' % (k, xs[k].shape))
    self.seen = {k: xs[k] for k in self.names()}
    c = self.content([self.seen])
    return tuple(self.coded(c, config, i) for i in range(len(tfsim.METRIC_OPS[name][1])))


PRED = ['prediction_frame_id', 'prediction_bbox', 'prediction_type', 'prediction_score', 'prediction_overlap_nlz']
GT = ['ground_truth_frame_id', 'ground_truth_bbox', 'ground_truth_type', 'ground_truth_difficulty', 'ground_truth_speed']


class Detection(Kind):
  opname = 'detection_metrics'

  def __init__(self):
    self.config, self.dof = det.make_config(M['cfg'], M['metrics_pb2'], M['breakdown_pb2'], M['label_pb2'])
    self.breakdowns = M['cfg'].get_breakdown_names_from_config(self.config)
    self.groups, self.uncounted = [list(PRED), list(GT)], ()
    self.given = {k: True for k in PRED + GT}
    self.given['ground_truth_speed'] = WP(1, 2)
    self.row_shape = dict(prediction_bbox=(self.dof,), ground_truth_bbox=(self.dof,), ground_truth_speed=(2,))
    self.static = {}
    self.recall = pick([None, 0.3, 0.95])
    self.filter = pick([None, None, 'RANGE', 'VEHICLE', 'LEVEL_2', 'ONE_SHARD'])

  def out_shape(self, i):
    n = len(self.breakdowns)
    return (n,) if i < 3 else (n, 5, 5)

  def build(self, ph):
    return M['dm'].get_detection_metric_ops(config=self.config, recall_at_precision=self.recall, name_filter=self.filter, **ph)

  def batch(self, k):
    p, g = det.batch(k, self.dof)
    if not self.given['ground_truth_speed']:
      g['ground_truth_speed'][...] = 0
    return dict(p, **g)

  def values(self, c, cfg):
    ap, aph, apl, pr = (self.coded(c, cfg, i) for i in range(4))
    out = {}
    for i, n in enumerate(self.breakdowns):
      if self.filter is None or self.filter in n:
        out.update({n + '/AP': ap[i], n + '/APH': aph[i], n + '/APL': apl[i]})
        if self.recall is not None:
          out['%s/Recall@%s' % (n, self.recall)] = np.where(pr[i, :, 0] > self.recall, pr[i, :, 1], np.float32(0)).max()
    return out


class Tracking(Kind):
  opname = 'tracking_metrics'

  def __init__(self):
    self.config, self.dof = det.make_config(M['cfg'], M['metrics_pb2'], M['breakdown_pb2'], M['label_pb2'])
    self.breakdowns = M['cfg'].get_breakdown_names_from_config(self.config)
    self.groups = [PRED + ['prediction_sequence_id', 'prediction_object_id'],
                   GT + ['ground_truth_sequence_id', 'ground_truth_object_id']]
    self.uncounted = ()
    self.given = {k: True for k in self.names()}
    self.given['ground_truth_speed'] = WP(1, 2)
    self.given['prediction_overlap_nlz'] = WP(1, 2)
    self.row_shape = dict(prediction_bbox=(self.dof,), ground_truth_bbox=(self.dof,), ground_truth_speed=(2,))
    self.static = {}

  def build(self, ph):
    return M['tm'].get_tracking_metric_ops(config=self.config, **ph)

  def batch(self, k):
    p, g = det.batch(k, self.dof)
    b = dict(p, **g)
    for side, d in (('prediction', p), ('ground_truth', g)):
      n = len(d[side + '_frame_id'])
      b[side + '_sequence_id'] = np.array([b'seq%d' % W(3) for _ in range(n)], object)
      b[side + '_object_id'] = np.array([W(5) for _ in range(n)], np.int64).reshape(n)
    for k2 in ('ground_truth_speed', 'prediction_overlap_nlz'):
      if not self.given[k2]:
        b[k2] = np.zeros_like(b[k2])
    return b

  def values(self, c, cfg):
    v = [self.coded(c, cfg, i) for i in range(5)]
    return {'%s/%s' % (n, m): v[j][i] for i, n in enumerate(self.breakdowns)
            for j, m in enumerate(('MOTA', 'MOTP', 'MISS', 'MISMATCH', 'FP'))}


class Motion(Kind):
  opname = 'motion_metrics'

  def __init__(self):
    c = M['motion_pb2'].MotionMetricsConfig()
    c.track_steps_per_second = c.prediction_steps_per_second = 10
    c.track_history_samples, c.track_future_samples, c.max_predictions = W(2), 1 + W(3), 1 + W(3)
    for i in range(1 + W(2)):
      c.step_configurations.add(measurement_step=i, lateral_miss_threshold=1, longitudinal_miss_threshold=2)
    self.config = c
    self.breakdowns = M['cfg'].get_breakdown_names_from_motion_config(c)
    m, k, n, tp = 1 + W(2), c.max_predictions, 1 + W(2), c.track_future_samples
    tg = 1 + c.track_history_samples + c.track_future_samples
    a = n
    self.row_shape = dict(
        prediction_trajectory=(m, k, n, tp, 2), prediction_score=(m, k), ground_truth_trajectory=(a, tg, 7),
        ground_truth_is_valid=(a, tg), prediction_ground_truth_indices=(m, n), prediction_ground_truth_indices_mask=(m, n),
        object_type=(a,), object_id=(a,), scenario_id=())
    self.static = {x: (None,) + s for x, s in self.row_shape.items()}
    self.groups = [list(self.row_shape)]
    self.given = {x: True for x in self.row_shape}
    self.given['object_id'] = WP(1, 2)
    self.given['scenario_id'] = WP(1, 2)
    self.uncounted = () if self.given['scenario_id'] else ('scenario_id',)
    self.next = 0

  def build(self, ph):
    return M['mm'].get_motion_metric_ops(config=self.config, **ph)

  def batch(self, k):
    r = np.random.RandomState(k * 977 + W(1 << 20))
    n = pick([0, 1, 1, 2, 3])
    dt = tfsim.METRIC_OPS['motion_metrics'][0]
    b = {}
    for x, s in self.row_shape.items():
      if x == 'scenario_id':
        b[x] = np.array([b'scenario-%d' % (self.next + i) for i in range(n)], object)
      elif dt[x] == 'float32':
        b[x] = r.rand(n, *s).astype(np.float32)
      elif dt[x] == 'bool':
        b[x] = r.rand(n, *s) < 0.7
      else:
        b[x] = r.randint(0, 4, (n,) + s).astype(np.int64)
    self.next += n
    if not self.given['object_id']:
      b['object_id'] = np.tile(np.arange(self.row_shape['object_id'][0]), (n, 1)).astype(np.int64)
    return b

  def values(self, c, cfg):
    v = [self.coded(c, cfg, i) for i in range(5)]
    return {'%s/%s' % (n, m): v[j][i] for i, n in enumerate(self.breakdowns)
            for j, m in enumerate(('minADE', 'minFDE', 'MissRate', 'OverlapRate', 'mAP'))}


def run():
  tf1 = M['tf'].compat.v1
  families = [Detection, Tracking, Motion]
  first = pick([0, 0, 1, 2])
  kinds = [families[first]()]
  if WP(1, 3):  # another family in the same graph
    kinds.append(families[(first + 1 + W(2)) % 3]())
  tfsim.ON_OP = None
  tfsim.METRICS = lambda name, config, xs: next(k for k in kinds if k.opname == name).op(name, config, xs)
  graph = tfsim.Graph()
  with graph.as_default():
    for kind in kinds:
      dt = tfsim.METRIC_OPS[kind.opname][0]
      kind.cfg = kind.config.SerializeToString()
      rt.note(kind.opname, kind.cfg, kind.given, kind.row_shape)
      rt.log('%s given %r', kind.opname, [k for k, v in kind.given.items() if v])
      kind.ph = {k: tf1.placeholder(dtype=dt[k], shape=kind.static.get(k)) for k in kind.names() if kind.given[k]}
      kind.metrics = kind.build(kind.ph)
    init = tf1.local_variables_initializer()
  for kind in kinds:
    empty = kind.values([[] for _ in kind.groups], kind.cfg)
    check(set(kind.metrics) == set(empty), 'metric-names', 'metrics %r, expected %r', sorted(kind.metrics)[:6], sorted(empty)[:6])
  kinds = [k for k in kinds if k.metrics]
  if not kinds:
    return
  ns = 1 + W(2)
  sessions = [tfsim.Session(graph=graph) for _ in range(ns)]
  rate = (0, 8, 25, 60)[F(4)]
  armed = [False]

  def may_fail(node):
    if armed[0] and rate and node.type in FALLIBLE and FP(1, rate):
      fault('op fails: ' + node.type)
      raise tfsim.ResourceExhaustedError('OOM in ' + node.name)
  for s in sessions:
    s.fault = may_fail
    s.run(init)
  model = [{k.opname: [] for k in kinds} for _ in sessions]
  reads = updates = 0

  def read(e, kind, where):
    s, metrics = sessions[e], kind.metrics
    accepted = model[e][kind.opname]
    keys = sorted(metrics)
    try:
      if WP(3, 4):
        got = s.run({k: metrics[k][0] for k in keys})
      else:
        got = {k: s.run(metrics[k][0]) for k in (keys[i] for i in rt.permutation(rt.SCHED, len(keys))[:6])}
    except tfsim.OpError as x:
      rt.violation('cannot-read', '%s of session %d with %d accepted updates nothing can be computed: %s', where, e, len(accepted),
                   str(x)[:300])
    want = kind.content(accepted)
    have = kind.content([kind.seen])
    if have != want:
      rt.violation('accumulated-differs', '%s of session %d: accepted updates hold %s rows, %s were accumulated%s', where, e,
                   [len(x) for x in want], [len(x) for x in have],
                   '' if [len(x) for x in want] != [len(x) for x in have] else ' (other contents)')
    ids = kind.seen.get('scenario_id')
    if ids is not None and len(set(ids.tolist())) != len(ids):
      rt.violation('scenarios-merged', '%s: %d scenarios were accumulated under %d names', where, len(ids), len(set(ids.tolist())))
    for k, v in kind.values(want, kind.cfg).items():
      if k in got and (np.asarray(got[k]).shape != () or not np.array_equal(got[k], v)):
        rt.violation('value', '%s of session %d: %s is %r, computed %r', where, e, k, got[k], v)

  for k in range(4 + W(10)):
    e = W(ns)
    s = sessions[e]
    kind = pick(kinds)
    what = pick(['update', 'update', 'update', 'bad update', 'read', 'init'])
    rt.note(e, kind.opname, what)
    rt.event('%d %s %s' % (e, kind.opname, what))
    if what == 'init':
      s.run(init)
      for m in model[e]:
        model[e][m] = []
    elif what == 'read':
      reads += bool(model[e][kind.opname])
      read(e, kind, 'read')
    else:
      b = kind.batch(k)
      rt.note(*[cell(v) for v in b.values()])
      feed = {kind.ph[n]: v for n, v in b.items() if kind.given[n]}
      bad = False
      if what == 'bad update':
        sides = [n for n in kind.row_shape if kind.row_shape[n] and kind.given[n]] if not kind.static else []
        if not sides:
          continue
        side = pick(sides)
        have = sum(len(x[side]) for x in model[e][kind.opname])
        d = kind.row_shape[side][0]
        d2 = d + 1 + W(3)
        if have * d % d2 == 0:
          continue
        feed[kind.ph[side]] = np.ones((2, d2), np.float32)
        bad = True
        fault('rows of another size')
      ups = [m[1] for m in kind.metrics.values()]
      separate = not bad and WP(1, 3)
      try:
        if separate:
          for i in rt.permutation(rt.SCHED, len(ups)):
            s.run(ups[i], feed_dict=feed)
        else:
          armed[0] = True
          with graph.as_default():
            fetch = M['tf'].group(ups) if W(2) else ups
          s.run(fetch, feed_dict=feed)
        check(not bad, 'bad-update-accepted', 'an update with rows of another size was accepted')
        model[e][kind.opname].append(b)
        updates += 1
      except tfsim.OpError as x:
        armed[0] = False
        check(bad or isinstance(x, tfsim.ResourceExhaustedError), 'update-refused', 'a legal update failed: %s', str(x)[:300])
        probe('failed update')
        read(e, kind, 'after a failed update')
      armed[0] = False
  if updates >= 2:
    rt.nontrivial()
  probe('update', updates)
  probe('read', reads)
  for kind in kinds:
    probe(kind.opname)
    for e in range(ns):
      for n in range(2):
        read(e, kind, 'final read')


def setup(args):
  tf = tfsim.module()
  from waymo_open_dataset.metrics.python import detection_metrics, tracking_metrics, motion_metrics, config_util_py
  from waymo_open_dataset.protos import metrics_pb2, breakdown_pb2, motion_metrics_pb2
  from waymo_open_dataset import label_pb2
  M.update(tf=tf, dm=detection_metrics, tm=tracking_metrics, mm=motion_metrics, cfg=config_util_py, metrics_pb2=metrics_pb2,
           breakdown_pb2=breakdown_pb2, label_pb2=label_pb2, motion_pb2=motion_metrics_pb2)
  return run
