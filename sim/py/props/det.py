"""Detection batches and the recording metrics op shared by C17 and C19."""
import hashlib
import numpy as np
import rt, tfsim
from rt import W, WP, pick

PRED = ['prediction_frame_id', 'prediction_bbox', 'prediction_type', 'prediction_score', 'prediction_overlap_nlz']
GT = ['ground_truth_frame_id', 'ground_truth_bbox', 'ground_truth_type', 'ground_truth_difficulty', 'ground_truth_speed']


def batch(k, dof):
  """Rows of one update; frame ids repeat across batches."""
  r = np.random.RandomState(k * 131 + W(1 << 20))
  n, m = pick([0, 1, 2, 3, 5]), pick([0, 1, 2, 3, 5])
  p = dict(prediction_frame_id=r.randint(0, 4, n).astype(np.int64), prediction_bbox=r.rand(n, dof).astype(np.float32),
           prediction_type=r.randint(1, 5, n).astype(np.uint8), prediction_score=r.rand(n).astype(np.float32),
           prediction_overlap_nlz=r.rand(n) < 0.5)
  g = dict(ground_truth_frame_id=r.randint(0, 4, m).astype(np.int64), ground_truth_bbox=r.rand(m, dof).astype(np.float32),
           ground_truth_type=r.randint(1, 5, m).astype(np.uint8), ground_truth_difficulty=r.randint(1, 3, m).astype(np.uint8),
           ground_truth_speed=r.rand(m, 2).astype(np.float32))
  return p, g


def rows(cols):
  """A multiset of rows, each joined across the columns."""
  n = [len(c) for c in cols]
  if len(set(n)) > 1:
    return None
  return sorted(b'|'.join(np.ascontiguousarray(c[i]).tobytes() for c in cols) for i in range(n[0]))


def content(p, g):
  return rows([p[k] for k in PRED]), rows([g[k] for k in GT])


def total(batches, dof):
  ps, gs = [], []
  for p, g in batches:
    a, b = content(p, g)
    ps += a
    gs += b
  return sorted(ps), sorted(gs)


def coded(content, config, shape, salt):
  """Output of the stub op: a function of the multiset of rows and of the configuration."""
  h = hashlib.blake2b(repr(content).encode() + repr(config).encode(), digest_size=4, salt=salt.encode())
  return np.random.RandomState(int(h.hexdigest(), 16)).rand(*shape).astype(np.float32)


class Op:
  """The DetectionMetrics kernel: checks shapes, records what it was given."""

  def __init__(self, nb):
    self.nb, self.calls = nb, []
    tfsim.METRICS = self

  def __call__(self, name, config, xs):
    p = {k: xs[k] for k in PRED}
    g = {k: xs[k] for k in GT}
    for d in (p, g):
      n = set(len(v) for v in d.values())
      if len(n) != 1:
        raise tfsim.InvalidArgumentError('rows differ: %r' % {k: v.shape for k, v in d.items()})
    pb, gb, gs = p['prediction_bbox'], g['ground_truth_bbox'], g['ground_truth_speed']
    if pb.ndim != 2 or gb.ndim != 2 or pb.shape[1] != gb.shape[1] or gs.shape[1:] != (2,):
      raise tfsim.InvalidArgumentError('shapes: %r %r %r' % (pb.shape, gb.shape, gs.shape))
    c = content(p, g)
    self.calls.append((c, config))
    return self.outputs(c, config)

  def outputs(self, c, config):
    nb = self.nb
    return tuple(coded(c, config, s, str(i)) for i, s in enumerate(
        [(nb,), (nb,), (nb,), (nb, 5, 5), (nb, 5, 5), (nb, 5, 5), (nb, 3)]))


def make_config(config_util, metrics_pb2, breakdown_pb2, label_pb2):
  c = metrics_pb2.Config()
  for b in [breakdown_pb2.Breakdown.OBJECT_TYPE, breakdown_pb2.Breakdown.RANGE, breakdown_pb2.Breakdown.ONE_SHARD][:1 + W(3)]:
    c.breakdown_generator_ids.append(b)
    d = c.difficulties.add()
    for l in range(W(3)):
      d.levels.append(1 + l)
  c.matcher_type = metrics_pb2.MatcherProto.TYPE_HUNGARIAN
  c.iou_thresholds.extend([0.5] * 5)
  c.box_type = pick([label_pb2.Label.Box.TYPE_3D, label_pb2.Label.Box.TYPE_2D, label_pb2.Label.Box.TYPE_AA_2D])
  c.num_desired_score_cutoffs = 5 + W(6)
  return c, {label_pb2.Label.Box.TYPE_3D: 7, label_pb2.Label.Box.TYPE_2D: 5, label_pb2.Label.Box.TYPE_AA_2D: 4}[c.box_type]
