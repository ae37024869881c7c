"""C21: histories of the streaming keypoint metrics and of the matchers that feed them."""
import itertools, sys, types
import numpy as np
import rt, tfsim, tfeager
from rt import W, WP, F, FP, S, pick, probe, fault, check

M = {}
TYPES = [1, 5, 6, 9, 13, 14, 19, 20]


def f32(a):
  return np.asarray(a, np.float32)


class Ambiguous(Exception):
  """A value sits on a threshold: float32 and float64 may disagree."""


class Batch:
  """Objects of one update as numpy arrays: n objects, k points, d dimensions."""

  def __init__(self, r, n, k, d, box=True):
    self.n, self.k, self.d = n, k, d
    self.gt = f32(r.uniform(-2, 2, (n, k, d)))
    near = r.rand(n, k, 1) < 0.7
    self.pr = f32(self.gt + np.where(near, r.normal(0, 0.15, (n, k, d)), r.normal(0, 1.5, (n, k, d))))
    self.gv = r.randint(0, 3, (n, k)).astype(np.int32)
    self.pv = r.randint(0, 3, (n, k)).astype(np.int32)
    hidden = r.rand(n)
    self.gv[hidden < 0.2] = 0
    self.pv[hidden > 0.85] = 0
    self.center = f32(r.uniform(-1, 1, (n, d)))
    self.size = f32(r.uniform(0.5, 3, (n, d)))
    self.size[r.rand(n) < 0.12] = 0
    self.heading = f32(r.uniform(-3, 3, n)) if d == 3 else None
    self.box = box
    self.w = None

  def weights(self, r, kind):
    if kind == 'object':
      self.w = f32(r.randint(0, 4, self.n) * 0.5)
    elif kind == 'column':
      self.w = f32(r.randint(0, 4, (self.n, 1)) * 0.5)
    elif kind == 'point':
      self.w = f32(r.randint(0, 4, (self.n, self.k)) * 0.5)

  def cut(self, index):
    b = object.__new__(Batch)
    b.__dict__.update(self.__dict__)
    b.k = len(index)
    b.gt, b.pr, b.gv, b.pv = (x[:, index] for x in (self.gt, self.pr, self.gv, self.pv))
    return b

  def tensors(self):
    T, d = tfsim.Tensor, M['data']
    box = d.BoundingBoxTensors(T(self.center), T(self.size), None if self.heading is None else T(self.heading)) if self.box else None
    return ((d.KeypointsTensors(T(self.gt), T(self.gv)), d.KeypointsTensors(T(self.pr), T(self.pv)), box),
            None if self.w is None else T(self.w))


def clear(x, t, eps=2e-4):
  if np.any(np.abs(np.asarray(x) - t) < eps):
    raise Ambiguous()


class Means:
  """Weighted means by name, and undefined states after a failure."""

  def __init__(self, names):
    self.v = {n: [0.0, 0.0] for n in names}

  def add(self, name, values, weights=None):
    values = np.asarray(values, np.float64)
    weights = np.ones(values.shape) if weights is None else np.broadcast_to(np.asarray(weights, np.float64), values.shape)
    self.v[name][0] += float(np.sum(values * weights))
    self.v[name][1] += float(np.sum(weights))

  def get(self):
    return {n: a / b if b else 0.0 for n, (a, b) in self.v.items()}


class Leaf:
  """One metric that is not a composition: how to build it and what it means."""

  def __init__(self, name, index, types_):
    self.name, self.index = name, index
    self.types = types_
    self.params()

  def fresh(self):
    return Means(self.names())

  def names(self):
    return [self.name]

  def params(self):
    pass

  def refuses(self, b):
    return None

  def point_weights(self, b, mask):
    w = mask.astype(np.float64)
    if b.w is not None:
      w = w * (b.w[:, None] if b.w.ndim == 1 else b.w)
    return w


class Mpjpe(Leaf):

  def build(self):
    return M['kp'].MeanPerJointPositionError(name=self.name)

  def add(self, m, b):
    e = np.linalg.norm(b.gt.astype(np.float64) - b.pr, axis=-1)
    m.add(self.name, e, self.point_weights(b, (b.gv > 0) & (b.pv > 0)))


class Pem(Leaf):

  def params(self):
    self.penalty = pick([0.25, 1.0, 3.0])

  def build(self):
    return M['kp'].PoseEstimationMetric(mismatch_penalty=self.penalty, name=self.name)

  def errors(self, b):
    e = np.minimum(np.linalg.norm(b.gt.astype(np.float64) - b.pr, axis=-1), self.penalty)
    g, p = b.gv > 1, b.pv > 1
    return np.where(g & p, e, np.where(g | p, self.penalty, 0)), g | p

  def add(self, m, b):
    e, mask = self.errors(b)
    m.add(self.name, e, self.point_weights(b, mask))


class Rate(Leaf):

  def params(self):
    self.precision = bool(W(2))

  def build(self):
    c = M['kp'].KeypointVisibilityPrecision if self.precision else M['kp'].KeypointVisibilityRecall
    return c(name=self.name)

  def add(self, m, b):
    g, p = b.gv > 1, b.pv > 1
    w = self.point_weights(b, np.ones(g.shape))
    m.add(self.name, g & p, w * (p if self.precision else g))


class Pck(Leaf):

  def params(self):
    self.default = W(4) == 0
    self.th = sorted(set(pick([0.05, 0.1, 0.2, 0.3, 0.5]) for _ in range(1 + W(3))))
    if self.default:
      self.th = [0.05, 0.1, 0.2, 0.3, 0.4, 0.5]
    self.scales = [0.1 + 0.05 * (t % 7) for t in self.types] if W(2) else None
    self.object_scale = bool(W(2))

  def names(self):
    return ['%s @ %.2f' % (self.name, t) for t in self.th]

  def build(self):
    th = {} if self.default else dict(thresholds=self.th)
    return M['kp'].PercentageOfCorrectKeypoints(**th, per_type_scales=self.scales,
                                                use_object_scale=self.object_scale, name=self.name)

  def refuses(self, b):
    return 'box' if self.object_scale and not b.box else None

  def add(self, m, b):
    e = np.linalg.norm(b.gt.astype(np.float64) - b.pr, axis=-1)
    w = self.point_weights(b, (b.gv > 0) & (b.pv > 0))
    for t, n in zip(self.th, self.names()):
      limit = np.full((b.n, b.k), t)
      if self.object_scale:
        limit = limit * (np.prod(b.size.astype(np.float64), -1) ** (1.0 / b.d))[:, None]
      if self.scales is not None:
        limit = limit * np.asarray(self.scales)[None]
      clear(e - limit, 0)
      m.add(n, e <= limit, w)


class Oks(Leaf):

  def params(self):
    self.default = W(4) == 0
    self.th = sorted(set(pick([0.2, 0.5, 0.6, 0.75, 0.9]) for _ in range(1 + W(3))))
    if self.default:
      self.th = [0.5 + 0.05 * i for i in range(10)]
    self.scales = [0.3 + 0.1 * (t % 5) for t in self.types]

  def names(self):
    return ['%s P @ %.2f' % (self.name, t) for t in self.th] + [self.name + ' AP']

  def build(self):
    th = {} if self.default else dict(thresholds=self.th)
    return M['kp'].AveragePrecisionAtOKS(per_type_scales=self.scales, **th, name=self.name)

  def refuses(self, b):
    return 'box' if not b.box else 'weights' if b.w is not None and b.w.ndim == 1 else None

  def similarity(self, b):
    gt, pr, c, s = (x.astype(np.float64) for x in (b.gt, b.pr, b.center, b.size))
    scale = np.asarray(self.scales)[None] * (np.prod(s, -1) ** (1.0 / b.d))[:, None]
    known = (b.gv > 0).any(-1)
    half = 1.5 * s[:, None]
    out = np.clip(pr - c[:, None], -half, half) + c[:, None] - pr
    diff = np.where(known[:, None, None], gt - pr, out)
    d2 = np.sum(diff * diff, -1)
    score = np.exp(np.where(scale > 0, -d2 / np.where(scale > 0, 2 * scale * scale, 1), 0))
    w = self.point_weights(b, (b.gv > 0) & (b.pv > 0))
    sw = w.sum(-1)
    sim = np.where(sw > 0, (score * w).sum(-1) / np.where(sw > 0, sw, 1), 0)
    return np.where(known, sim, score.mean(-1) if b.k else 0)

  def add(self, m, b):
    oks = self.similarity(b)
    s = b.size
    valid = (s > 1e-5).any(-1)
    oks = np.where(valid, oks, 0)
    weight = valid.astype(np.float64)
    if b.w is not None:
      ow = b.w.astype(np.float64).sum(-1)
      weight = weight * (ow / ow.sum() if ow.sum() else 0)
    means = []
    for t in self.th:
      clear(oks, t)
      hit = (oks > t).astype(np.float64)
      m.add('%s P @ %.2f' % (self.name, t), hit, weight)
      means.append((hit * weight).sum() / weight.sum() if weight.sum() else 0)
    m.add(self.name + ' AP', means)


LEAVES = [Mpjpe, Pem, Rate, Pck, Oks]


class Plan:
  """A tree of metrics over one order of keypoints; builds equal instances of it."""

  def __init__(self, tag):
    self.leaves, self.tag = [], tag
    n = 1 + W(5)
    self.order = [TYPES[i] for i in rt.permutation(rt.WORK, len(TYPES))[:n]]
    self.kind = pick(['leaf', 'subsets', 'combined', 'everything'])
    if self.kind == 'leaf':
      cls = pick(LEAVES)
      self.build = self.leaf(cls, 'm', range(n))
    elif self.kind == 'subsets':
      self.build = self.subsets(pick(LEAVES), 's')
    elif self.kind == 'combined':
      parts = [self.subsets(pick(LEAVES), 'c%d' % i) if W(2) else self.leaf(pick(LEAVES), 'c%d' % i, range(n))
               for i in range(1 + W(3))]
      wrap = pick([list, tuple])
      self.build = lambda: M['kp'].CombinedMetric(wrap(p() for p in parts), name='combined')
    else:
      self.everything()

  def leaf(self, cls, name, index):
    l = cls(name, list(index), [self.order[i] for i in index])
    self.leaves.append(l)
    return l.build

  def draw_subsets(self):
    n = len(self.order)
    out = {}
    for i in range(1 + W(3)):
      p = rt.permutation(rt.WORK, n)
      out['G%d' % i] = p[:1 + W(n)]
    return out

  def subsets(self, cls, name):
    subs = self.draw_subsets()
    builders = {g: self.leaf(cls, '%s/%s' % (name, g), ix) for g, ix in subs.items()}
    types_ = {g: tuple(self.order[i] for i in ix) for g, ix in subs.items()}
    return lambda: M['kp'].MetricForSubsets(src_order=self.order, subsets=types_, create_metric_fn=lambda g: builders[g](),
                                            name=name)

  def everything(self):
    subs = self.draw_subsets()
    per_type = {t: 0.1 + 0.07 * (t % 6) for t in TYPES}
    th, pth = [0.5, 0.75], [0.1, 0.3]
    for g, ix in subs.items():
      tt = [self.order[i] for i in ix]
      for cls, n in ((Mpjpe, 'MPJPE'), (Pck, 'PCK'), (Oks, 'OKS')):
        l = object.__new__(cls)
        l.name, l.index, l.types = '%s/%s' % (n, g), list(ix), tt
        l.default = False
        l.scales, l.object_scale, l.th = [per_type[t] for t in tt], True, pth if cls is Pck else th
        self.leaves.append(l)
    cfg = dict(src_order=tuple(self.order), subsets={g: tuple(self.order[i] for i in ix) for g, ix in subs.items()},
               per_type_scales=per_type, oks_thresholds=th, pck_thresholds=pth)
    self.build = lambda: M['kp'].create_combined_metric(M['kp'].CombinedMetricsConfig(**cfg))


def close(a, b):
  return abs(a - b) <= 2e-4 + 2e-4 * abs(b)


def read(metric):
  r = metric.result()
  return {k: float(v) for k, v in r.items()}


class Stream:
  """One metric object and the model of it: per leaf the means of the batches accepted since the last reset."""

  def __init__(self, plan):
    self.plan, self.metric = plan, plan.build()
    self.clear()

  def clear(self):
    self.model = [l.fresh() for l in self.plan.leaves]
    self.dirty = False
    self.count = 0

  def after(self, b):
    out = []
    for l, m in zip(self.plan.leaves, self.model):
      c = l.fresh()
      c.v = {n: list(v) for n, v in m.v.items()}
      if not l.refuses(b):
        l.add(c, b.cut(l.index))
      out.append(c)
    return out


def matched(r, rows, d, box):
  """The rows of keypoints (and boxes) of a pose as hashable values; None for padding."""
  out = []
  loc, vis = r.keypoints.location.numpy(), r.keypoints.visibility.numpy()
  for i in range(len(loc)):
    z = not vis[i].any() and not loc[i].any()
    bx = ()
    if box:
      bx = (r.box.center.numpy()[i].tobytes(), r.box.size.numpy()[i].tobytes(), r.box.heading.numpy()[i].tobytes())
      z = z and not r.box.size.numpy()[i].any()
    out.append(None if z else (loc[i].tobytes(), vis[i].tobytes()) + bx)
  return out


def scores(cost, maximize):
  """All optimal maximal assignments of a small matrix."""
  n, m = cost.shape
  best, ways = None, []
  k = min(n, m)
  for p in itertools.permutations(range(max(n, m)), k):
    pairs = list(zip(range(n), p)) if n <= m else [(a, i) for i, a in enumerate(p)]
    v = float(sum(cost[i, j] for i, j in pairs))
    v = -v if maximize else v
    if best is None or v < best - 1e-6:
      best, ways = v, [pairs]
    elif v < best + 1e-6:
      ways.append(pairs)
  return (-best if maximize else best), ways


def hungarian(cost_matrix, maximize=False):
  c = np.asarray(cost_matrix, np.float64)
  if not np.all(np.isfinite(c)):
    raise ValueError('matrix contains invalid numeric entries')
  if 0 in c.shape:
    return np.zeros(0, np.int64), np.zeros(0, np.int64)
  ways = scores(c, maximize)[1]
  w = sorted(ways[S(len(ways))])  # which of equally good assignments is not specified
  probe('assignment ties', len(ways) > 1)
  return np.array([a for a, _ in w], np.int64), np.array([b for _, b in w], np.int64)


def frame(r, k):
  """Ground truth and predicted objects of one frame."""
  ng, np_ = r.randint(0, 5), r.randint(0, 5)
  if ng == 0 and np_ == 0:
    ng = 1
  g = Batch(r, ng, k, 3)
  p = Batch(r, np_, k, 3)
  g.size = f32(r.uniform(0.6, 2, (ng, 3)))
  p.size = f32(r.uniform(0.6, 2, (np_, 3)))
  g.center = f32(np.round(r.uniform(-3, 3, (ng, 3)) * pick([1, 1, 0.2]), 1))
  g.gt = f32(g.center[:, None] + r.uniform(-0.4, 0.4, (ng, k, 3)))
  for j in range(np_):
    if ng and r.rand() < 0.8:
      i = r.randint(ng)
      p.gt[j] = g.gt[i] + f32(r.normal(0, 0.06, (k, 3)))
      p.center[j] = g.center[i]
  return g, p


def pose(b):
  T, d = tfsim.Tensor, M['data']
  return d.PoseEstimationTensors(keypoints=d.KeypointsTensors(T(b.gt), T(b.gv)),
                                 box=d.BoundingBoxTensors(T(b.center), T(b.size), T(b.heading)))


def from_protos(b, order, default, label):
  """The same pose by way of protos; missing points take the default location."""
  d, kpb, lpb = M['data'], M['keypoint_pb2'], M['label_pb2']
  b.gt[b.gv == 0] = default
  poses = []
  for i in range(b.n):
    if WP(1, 6):
      poses.append(d.PosePrediction(object_type=lpb.Label.TYPE_PEDESTRIAN))  # has no keypoints: leaves no row
    kp = kpb.LaserKeypoints()
    for j in rt.permutation(rt.SCHED, b.k):
      if b.gv[i, j]:
        q = kp.keypoint.add(type=order[j])
        v = q.keypoint_3d
        v.location_m.x, v.location_m.y, v.location_m.z = (float(x) for x in b.gt[i, j])
        if b.gv[i, j] == 1 or W(2):
          v.visibility.is_occluded = bool(b.gv[i, j] == 1)
    c, s, h = b.center[i], b.size[i], b.heading[i]
    box = lpb.Label.Box(center_x=c[0], center_y=c[1], center_z=c[2], length=s[0], width=s[1], height=s[2], heading=h)
    poses.append((d.PoseLabel if label else d.PosePrediction)(object_type=lpb.Label.TYPE_PEDESTRIAN, box=box, keypoints=kp))
  return d.create_pose_estimation_tensors(poses, default_location=default, order=order)


def ids_of(x):
  return [int(v) for v in np.asarray(x)]


def check_ids(gi, pi, g, p, what):
  check(len(gi) == len(pi), 'match-ids', '%s: %d ground truth ids for %d predictions', what, len(gi), len(pi))
  check(len(set(gi)) == len(gi) and all(0 <= i < g.n for i in gi), 'match-ids', '%s: ground truth ids %r of %d', what, gi, g.n)
  check(len(set(pi)) == len(pi) and all(0 <= i < p.n for i in pi), 'match-ids', '%s: prediction ids %r of %d', what, pi, p.n)


def check_mean_error(gi, pi, g, p, limit):
  """Both stages of the matcher reach the optimum of an exhaustive search."""
  gl, pl = g.gt.astype(np.float64), p.gt.astype(np.float64)
  gvis, pvis = g.gv > 1, p.gv > 1
  # Distance from every predicted point to every box; headings are clockwise here.
  c, s = np.cos(g.heading.astype(np.float64)), np.sin(g.heading.astype(np.float64))
  dist = np.full((g.n, p.n, g.k), np.inf)
  for i in range(g.n):
    v = pl - g.center[i].astype(np.float64)
    v = np.stack([c[i] * v[..., 0] - s[i] * v[..., 1], s[i] * v[..., 0] + c[i] * v[..., 1], v[..., 2]], -1)
    out = np.maximum(np.abs(v) - g.size[i].astype(np.float64) / 2, 0)
    dist[i] = np.where(pvis, np.linalg.norm(out, axis=-1), np.inf)
    raw = (np.abs(v) - g.size[i].astype(np.float64) / 2).max(-1)
    clear(raw, 0, 1e-3)
    clear(dist[i][np.isfinite(dist[i])], limit, 1e-3)
  pair = np.linalg.norm(gl[:, None] - pl[None], axis=-1)
  clear(pair, limit, 1e-3)
  near = ((pair < limit) & gvis[:, None] & pvis[None]).any(-1).any(0)
  score = np.where(~gvis.any(-1)[:, None] & ~near[None], (dist < 1e-5).sum(-1), 0).astype(np.float64)
  got = list(zip(gi, pi))
  if 0 in score.shape:
    check(not got, 'match-ids', 'ids %r without objects', got)
    return
  top = scores(score, True)[0]
  stage1 = [(i, j) for i, j in got if score[i, j] > 0]
  have = sum(score[i, j] for i, j in stage1)
  check(have == top, 'stage1', 'ground truth objects without visible keypoints take %d predicted keypoints, %d can be taken: %r', have,
        top, got)
  err = np.minimum(pair, limit)
  both, none = gvis[:, None] & pvis[None], ~(gvis[:, None] | pvis[None])
  err = np.where(both, err, np.where(none, 0, limit)).mean(-1)
  ok = dist.min(-1) <= limit
  for i, j in stage1:
    ok[i], ok[:, j] = False, False
  clear(err[ok], limit, 1e-4 * limit)
  cost = np.where(ok, np.minimum(err, limit), limit)
  best, _ = scores(cost, False)
  rest = [x for x in got if x not in stage1]
  for i, j in rest:
    check(ok[i, j] and err[i, j] < limit, 'stage2-candidate', 'objects %d and %d are matched: no candidates', i, j)
  have = sum(cost[i, j] for i, j in rest) + limit * (min(cost.shape) - len(rest))
  check(have <= best + 1e-3, 'stage2', 'the assignment %r costs %g, %g is possible', rest, have, best)


def matching(armed, pem):
  """Frames through a matcher into one metric: every object counts once, whatever the assignment."""
  kp, d = M['kp'], M['data']
  k = 1 + W(4)
  which = pick(['given', 'op', 'mean error'])
  limit = pick([0.25, 0.5, 1.0])
  held = {}

  class Given(kp.BaseMatcher):

    def matching_ids(self, pose):
      return kp.MatchingIdsPairs(gt=tfsim.Tensor(np.asarray(held['g'], np.int32)), pr=tfsim.Tensor(np.asarray(held['p'], np.int32)))

  def match_op(prediction_boxes, groundtruth_boxes, config):
    n, m = prediction_boxes.shape[1], groundtruth_boxes.shape[1]
    if prediction_boxes.shape[0] != 1 or tuple(prediction_boxes.shape)[2] != 7 or tuple(groundtruth_boxes.shape)[2] != 7:
      rt.violation('match-op', 'boxes of shapes %r and %r', prediction_boxes.shape, groundtruth_boxes.shape)
    if not np.array_equal(prediction_boxes.numpy()[0, :, 0:3], held['fp'].center) or not np.array_equal(
        groundtruth_boxes.numpy()[0, :, 0:3], held['fg'].center):
      rt.violation('match-op', 'the op is not given the boxes of the frame')
    return (tfsim.Tensor(np.asarray(held['p'], np.int32)), tfsim.Tensor(np.asarray(held['g'], np.int32)),
            tfsim.Tensor(np.zeros(len(held['g']), np.float32)), tfsim.Tensor(np.ones(len(held['g']), np.float32)))
  M['tf'].load_op_library('').match = match_op
  if which == 'given':
    matcher = Given()
  elif which == 'op':
    matcher = kp.create_matcher(kp.CppMatcherConfig(iou_threshold=pick([0.1, 0.5])))
  else:
    matcher = kp.create_matcher(kp.MeanErrorMatcherConfig(max_closest_keypoint_distance=limit))
  probe('matcher ' + which)
  leaf = Pem('PEM', list(range(k)), [])
  metric = leaf.build()
  model = leaf.fresh()
  protos = bool(W(2))
  order = [TYPES[i] for i in rt.permutation(rt.WORK, len(TYPES))[:k]]
  default = f32([pick([0, 0, 7]), 0, 0])
  frames = 1 + W(4)
  used = 0
  for f in range(frames):
    r = np.random.RandomState(W(1 << 20))
    g, p = frame(r, k)
    n = W(min(g.n, p.n) + 1)
    held.update(g=rt.permutation(rt.SCHED, g.n)[:n] if g.n else [], p=rt.permutation(rt.SCHED, p.n)[:n] if p.n else [], fg=g, fp=p)
    rt.note(which, g.gt.tobytes(), p.gt.tobytes(), g.gv.tobytes())
    if protos:
      pair = kp.PoseEstimationPair(gt=from_protos(g, order, default, True), pr=from_protos(p, order, default, False))
      for b, t, what in ((g, pair.gt, 'ground truth'), (p, pair.pr, 'predicted')):
        same = all(np.array_equal(x, y.numpy()) for x, y in (
            (b.gt, t.keypoints.location), (b.gv, t.keypoints.visibility), (b.center, t.box.center), (b.size, t.box.size),
            (b.heading, t.box.heading)))
        check(same, 'tensors', 'frame %d: the tensors of %d %s objects are not their protos', f, b.n, what)
    else:
      pair = kp.PoseEstimationPair(gt=pose(g), pr=pose(p))
    if which == 'mean error':
      ids = []
      inner = matcher.matching_ids

      def keep(x, inner=inner):
        r_ = inner(x)
        ids.append(r_)
        return r_
      matcher.matching_ids = keep
      m = None
      try:
        m = matcher.reorder(pair)
      finally:
        del matcher.matching_ids
      if len(ids) != 1:
        rt.skip('the matcher does not use matching_ids once')
      gi, pi = ids_of(ids[0].gt), ids_of(ids[0].pr)
      check_ids(gi, pi, g, p, 'frame %d' % f)
      try:
        check_mean_error(gi, pi, g, p, limit)
      except Ambiguous:
        probe('ambiguous frame')
    else:
      gi, pi = held['g'], held['p']
      m = matcher.reorder(pair)
    used += 1
    rt.event('frame %d: %d and %d objects, %r' % (f, g.n, p.n, list(zip(gi, pi))))
    gv, pv = (g.gv > 1).any(-1), (p.gv > 1).any(-1)

    def row(b, i):
      return (b.gt[i].tobytes(), b.gv[i].tobytes(), b.center[i].tobytes(), b.size[i].tobytes(), b.heading[i].tobytes())
    want = [(row(g, i), row(p, j)) for i, j in zip(gi, pi) if gv[i]]
    want += [(row(g, i), None) for i in range(g.n) if gv[i] and i not in gi]
    want += [(None, row(p, j)) for j in range(p.n) if pv[j] and j not in pi]
    a, b = matched(m.gt, None, 3, True), matched(m.pr, None, 3, True)
    check(len(a) == len(b), 'reorder-shape', 'frame %d: %d ground truth rows, %d predicted', f, len(a), len(b))
    have = list(zip(a, b))
    key = lambda x: repr(x)
    if sorted(have, key=key) != sorted(want, key=key):
      count = lambda z: [sum(1 for x, y in z if x and y), sum(1 for x, y in z if x and not y), sum(1 for x, y in z if y and not x)]
      rt.violation('reorder', 'frame %d with %d ground truth and %d predicted objects, matched %r (visible %r, %r): rows '
                   '[matched, missed, false] are %r, expected %r', f, g.n, p.n, list(zip(gi, pi)), gv.tolist(), pv.tolist(),
                   count(have), count(want))
    for pairs in ([(i, j) for i, j in zip(gi, pi) if gv[i]] + [(i, None) for i in range(g.n) if gv[i] and i not in gi]
                  + [(None, j) for j in range(p.n) if pv[j] and j not in pi]):
      one = object.__new__(Batch)
      one.n, one.k, one.w = 1, k, None
      i, j = pairs
      z, zv = np.zeros((k, 3), np.float32), np.zeros(k, np.int32)
      one.gt, one.gv = (z if i is None else g.gt[i])[None], (zv if i is None else g.gv[i])[None]
      one.pr, one.pv = (z if j is None else p.gt[j])[None], (zv if j is None else p.gv[j])[None]
      leaf.add(model, one)
    metric.update_state((m.gt.keypoints, m.pr.keypoints, m.gt.box))
    got = read(metric)
    check(close(got['PEM'], model.get()['PEM']), 'pem', 'after frame %d the metric is %r, the objects give %r', f, got['PEM'],
          model.get()['PEM'])
  if used >= 1:
    rt.nontrivial()


def similarity(rate):
  """The similarity of an object does not depend on its company in the batch, nor on having one."""
  kp, d, T = M['kp'], M['data'], tfsim.Tensor
  for _ in range(1 + W(3)):
    r = np.random.RandomState(W(1 << 20))
    b = Batch(r, 1 + W(4), 1 + W(5), 2 + W(2))
    b.size = np.where(b.size == 0, f32(0.75), b.size)
    b.weights(r, pick(['none', 'point']))
    l = object.__new__(Oks)
    l.scales = [0.3 + 0.1 * W(5) for _ in range(b.k)]
    rt.note(b.gt.tobytes(), b.gv.tobytes())
    want = l.similarity(b)
    order = rt.permutation(rt.SCHED, b.n)

    def tensors(i):
      return (d.KeypointsTensors(T(b.gt[i]), T(b.gv[i])), d.KeypointsTensors(T(b.pr[i]), T(b.pv[i])),
              d.BoundingBoxTensors(T(b.center[i]), T(b.size[i])))

    def score(i):
      for _ in range(3):
        ARMED[0] = True
        try:
          return kp.object_keypoint_similarity(*tensors(i), l.scales, None if b.w is None else T(b.w[i])).numpy()
        except tfsim.ResourceExhaustedError:
          probe('failed similarity')
        finally:
          ARMED[0] = False
      return kp.object_keypoint_similarity(*tensors(i), l.scales, None if b.w is None else T(b.w[i])).numpy()
    got = score(order)
    check(got.shape == (b.n,), 'similarity-shape', '%d objects have similarities of shape %r', b.n, got.shape)
    for j, i in enumerate(order):
      if b.w is not None:
        check(close(float(got[j]), want[i]), 'similarity', 'object %d of %d has weighted similarity %r, expected %r', i, b.n,
              float(got[j]), want[i])
        continue  # weights are for batches
      one = score(i)
      if not close(float(got[j]), want[i]) or one.shape != () or not close(float(one), want[i]):
        rt.violation('similarity', 'object %d of %d has similarity %r in the batch and %r alone, expected %r', i, b.n, float(got[j]),
                     one.tolist(), want[i])
    for bad in range(2 if b.n > 1 else 0):
      t, u = list(tensors(order)), tensors(order[0])
      t[bad + 1] = u[bad + 1]
      try:
        kp.object_keypoint_similarity(*t, l.scales)
      except (ValueError, tfsim.InvalidArgumentError):
        pass
      else:
        rt.violation('similarity-mixed', 'one object %s a batch of %d is accepted', ['predicted for', 'box for'][bad], b.n)
    rt.event('similarity of %d objects' % b.n)
  rt.nontrivial()


ARMED = [False]


def run():
  rate = (0, 1500, 400, 100)[F(4)]
  armed = ARMED
  armed[0] = False

  def on_op(name):
    rt.C.steps += 1
    if armed[0] and rate and FP(1, rate):
      fault('op fails')
      rt.event(name)
      raise tfsim.ResourceExhaustedError('OOM when allocating tensor in ' + name)
  tfsim.ON_OP = on_op
  if WP(1, 3):
    return matching(armed, None)
  if WP(1, 12):
    return similarity(rate)
  plans = [Plan('p%d' % i) for i in range(1 + W(2))]
  streams = [Stream(pick(plans)) for _ in range(1 + W(3))]
  for s in streams:
    probe('metric ' + s.plan.kind)
  accepted = merges = 0

  def verify(i, where):
    s = streams[i]
    armed[0] = WP(1, 4)
    try:
      got = read(s.metric)
    except tfsim.ResourceExhaustedError:
      probe('failed result')
      armed[0] = False
      got = read(s.metric)
    armed[0] = False
    if s.dirty:
      probe('result of a failed metric')
      return
    want = {}
    for m in s.model:
      want.update(m.get())
    check(sorted(got) == sorted(want), 'result-names', '%s: stream %d reports %r, expected %r', where, i, sorted(got), sorted(want))
    for n in want:
      if not close(got[n], want[n]):
        rt.violation('result', '%s: stream %d (%s) with %d accepted updates since its reset reports %s = %r, the batches give %r',
                     where, i, s.plan.kind, s.count, n, got[n], want[n])

  for step in range(5 + W(16)):
    i = W(len(streams))
    s = streams[i]
    what = pick(['update', 'update', 'update', 'bad update', 'result', 'reset', 'merge'])
    rt.note(i, what)
    if what in ('update', 'bad update'):
      r = np.random.RandomState(W(1 << 20))
      b = Batch(r, pick([1, 2, 3, 0]), len(s.plan.order), 2 + W(2))
      full = all(len(l.index) == b.k for l in s.plan.leaves)
      b.weights(r, pick(['none', 'none', 'column', 'object'] + (['point'] if full else [])))
      bad = None
      if what == 'bad update':
        bad = pick(['no box', 'dims', 'points', 'objects', 'visibility'])
      if bad == 'no box':
        b.box = False
      try:
        nxt = s.after(b)
      except Ambiguous:
        probe('ambiguous batch')
        continue
      inputs, w = b.tensors()
      d, T = M['data'], tfsim.Tensor
      upfront = bad in ('dims', 'points', 'objects', 'visibility')
      if bad:
        fault('bad input: ' + bad)
      if bad == 'dims':
        e = 5 - b.d
        inputs = inputs[:2] + (d.BoundingBoxTensors(T(np.ones((b.n, e), np.float32)), T(np.ones((b.n, e), np.float32))),)
      elif bad == 'points':
        inputs = (inputs[0], d.KeypointsTensors(T(np.ones((b.n, b.k + 1, b.d), np.float32)), T(np.ones((b.n, b.k + 1), np.int32))), inputs[2])
      elif bad == 'objects':
        inputs = (inputs[0], d.KeypointsTensors(T(np.ones((b.n + 1, b.k, b.d), np.float32)), T(np.ones((b.n + 1, b.k), np.int32))), inputs[2])
      elif bad == 'visibility':
        kt = d.KeypointsTensors(T(b.pr), T(b.pv))
        kt.visibility = T(np.ones((b.n, b.k + 1), np.int32))
        inputs = (inputs[0], kt, inputs[2])
      reasons = sorted(set(x for x in (l.refuses(b) for l in s.plan.leaves) if x))
      rt.note(b.gt.tobytes(), bad, b.w is None)
      rt.event('%d %s %s %s' % (i, what, bad, reasons))
      if W(2):
        inputs = list(inputs)
      armed[0] = True
      raised = None
      try:
        s.metric.update_state(inputs, sample_weight=w) if w is not None or W(2) else s.metric.update_state(inputs)
      except tfsim.ResourceExhaustedError as e:
        raised = e
        s.dirty = True
        probe('failed update')
      except (ValueError, tfsim.InvalidArgumentError, TypeError, AttributeError) as e:
        raised = e
        armed[0] = False
        if not upfront and not reasons:
          rt.violation('update-refused', 'stream %d (%s): a legal update of %d objects, %d points, weights %r raises %s: %s', i, s.plan.kind,
                       b.n, b.k, None if b.w is None else b.w.shape, type(e).__name__, str(e)[:300])
        probe('refused update')
        if not s.dirty and not upfront:
          # A composition may have handed the batch to some of its metrics; each has all of it or nothing.
          got = read(s.metric)
          for j, (l, old, new) in enumerate(zip(s.plan.leaves, s.model, nxt)):
            have = {n: got.get(n) for n in old.v}
            fit = [x for x in (old, new) if all(have[n] is not None and close(have[n], v) for n, v in x.get().items())]
            if not fit:
              rt.violation('torn-update', 'stream %d (%s): after an update refused for its %s, %s reports %r; without the batch %r, with it %r',
                           i, s.plan.kind, '+'.join(reasons), l.name, have, old.get(), new.get())
            if len(fit) == 2 and old.v != new.v:
              # Which of the two it is only shows later: leave the stream alone until it is reset.
              s.dirty = True
            s.model[j] = fit[0]
          s.count += 1
      armed[0] = False
      if raised is None:
        if upfront or reasons:
          rt.violation('bad-accepted', 'stream %d (%s): an update with bad input (%s) was accepted', i, s.plan.kind, bad or reasons)
        if not s.dirty:
          s.model = nxt
          s.count += 1
          accepted += 1
        if WP(1, 2):
          verify(i, 'after an update')
    elif what == 'result':
      verify(i, 'result')
    elif what == 'reset':
      armed[0] = True
      try:
        s.metric.reset_state() if W(2) else s.metric.reset_states()
        s.clear()
      except tfsim.ResourceExhaustedError:
        s.dirty = True
        probe('failed reset')
      armed[0] = False
      rt.event('%d reset' % i)
      verify(i, 'after a reset')
    elif what == 'merge':
      others = [o for o in streams if o is not s and o.plan is s.plan]
      if not others:
        continue
      picked = [o for o in others if W(2)] or others[:1]
      s.metric.merge_state([o.metric for o in picked])
      rt.event('%d merge %d' % (i, len(picked)))
      merges += 1
      for o in picked:
        s.dirty = s.dirty or o.dirty
        for mine, theirs in zip(s.model, o.model):
          for n in mine.v:
            mine.v[n][0] += theirs.v[n][0]
            mine.v[n][1] += theirs.v[n][1]
        s.count += o.count
      verify(i, 'after a merge')
    for j in range(len(streams)):
      if j != i and WP(1, 6):
        verify(j, 'another stream')
  if accepted >= 2:
    rt.nontrivial()
  probe('update', accepted)
  probe('merge', merges)
  for j in range(len(streams)):
    verify(j, 'at the end')
  for j, s in enumerate(streams):
    s.metric.reset_state()
    s.clear()
    verify(j, 'after the last reset')


def setup(args):
  tf = tfsim.module()
  tfeager.extend(tf)
  scipy = types.ModuleType('scipy')
  scipy.optimize = types.ModuleType('scipy.optimize')
  scipy.optimize.linear_sum_assignment = hungarian
  sys.modules['scipy'], sys.modules['scipy.optimize'] = scipy, scipy.optimize

  def assert_shapes(shapes, **_):
    sizes = {}
    for t, names in shapes:
      check(len(t.shape) == len(names), 'match-op', 'shape %r for %r', t.shape, names)
      for n, v in zip(names, t.shape):
        if sizes.setdefault(n, v) != v:
          raise tfsim.InvalidArgumentError('%s is %d and %d' % (n, sizes[n], v))
  tf.debugging.assert_shapes = assert_shapes
  from waymo_open_dataset.metrics.python import keypoint_metrics
  from waymo_open_dataset.utils import keypoint_data
  from waymo_open_dataset.protos import keypoint_pb2
  from waymo_open_dataset import label_pb2
  M.update(tf=tf, kp=keypoint_metrics, data=keypoint_data, keypoint_pb2=keypoint_pb2, label_pb2=label_pb2)
  return run
