"""C22: camera segmentation labels from dataset to metric, by unreliable workers in any order."""
import copy, types
import numpy as np
import rt, tfsim, tfeager, segsim
from rt import W, WP, F, FP, S, pick, probe, fault, check
from segsim import png_bytes, DIVISOR

M = {}
ARMED = [False]
FAILURES = (tfsim.ResourceExhaustedError, segsim.DataLossError)


class Label:
  """One camera image of one frame: what was written, as plain arrays."""


def make_label(seq, index, objects, shape, big):
  l = Label()
  l.seq, l.index = seq, index
  r = np.random.RandomState(W(1 << 20))
  l.divisor = pick([1000, 256, 64, 1000] if not big else [1000, 4000])
  local_ids = list(range(1, 1 + len(objects)))
  style = W(3)
  if style == 1:
    local_ids = [int(v) for v in 1 + r.permutation(l.divisor - 1)[:len(objects)]]
  elif style == 2:
    local_ids = local_ids[::-1]
    if objects:
      local_ids[0] = l.divisor - 1
  top = max(1, 65535 // l.divisor - 1)
  l.sem = r.randint(0, min(9, top) + 1, shape).astype(np.int64)
  l.local = np.zeros(shape, np.int64)
  l.glob = np.zeros(shape, np.int64)
  l.track = np.zeros(shape, np.int64)
  l.mapping = []
  l.loose = np.zeros(shape, bool)
  mapped = not WP(1, 8)
  for (g, cls), local in zip(objects, local_ids):
    if r.rand() < 0.25:
      continue
    tracked = bool(r.rand() < 0.7)
    mask = r.rand(*shape) < 0.35
    if r.rand() < 0.12:
      mask[:] = False  # listed, but hidden in this image
    l.sem[mask], l.local[mask], l.glob[mask], l.track[mask], l.loose[mask] = min(cls, top), local, g, tracked, False
    if mapped and r.rand() < 0.95:
      l.mapping.append((local, g, tracked))
    else:
      l.glob[mask], l.track[mask] = 0, 0
      l.loose[mask] = True
  order = r.permutation(len(l.mapping))
  l.mapping = [l.mapping[i] for i in order]
  l.cover = r.randint(0, 4, shape).astype(np.uint8) if W(4) else None
  l.bytes = png_bytes((l.sem * l.divisor + l.local).astype(np.uint16)[..., None])
  return l


def proto(l):
  p = M['pb'].CameraSegmentationLabel(panoptic_label_divisor=l.divisor, panoptic_label=l.bytes, sequence_id=l.seq)
  for a, g, t in l.mapping:
    e = p.instance_id_to_global_id_mapping.add()
    e.local_instance_id, e.global_instance_id = a, g
    if t or W(2):
      e.is_tracked = t
  if l.cover is not None:
    p.num_cameras_covered = png_bytes(l.cover[..., None])
  return p


def component(l):
  """The same label in the v2 format, through the extractor and the columns of a table."""
  frame = M['pb'].Frame(timestamp_micros=1000 + l.index)
  frame.context.name = 'context'
  image = M['pb'].CameraImage(name=1 + l.index % 5)
  image.camera_segmentation_label.CopyFrom(proto(l))
  got = list(M['extract']()(M['src'](frame, image)))
  check(len(got) == 1, 'extract', '%d components of one label', len(got))
  c = got[0]
  if W(2):
    cols = c.to_flatten_dict()
    names = list(cols)
    c = type(c).from_dict({names[i]: copy.deepcopy(cols[names[i]]) for i in rt.permutation(rt.SCHED, len(names))})
  return c


class Job:
  """Arms the faults of one attempt; ends them."""

  def __init__(self, rate):
    self.rate = rate

  def __enter__(self):
    ARMED[0] = bool(self.rate)

    def on(name):
      rt.C.steps += 1
      if FP(1, self.rate):
        fault('op fails')
        rt.event('fails in ' + name)
        raise tfsim.ResourceExhaustedError('OOM in ' + name)
    if self.rate:
      tfsim.ON_OP = on
      segsim.ON_METRIC = lambda name: on(name)

  def __exit__(self, *a):
    tfsim.ON_OP = segsim.ON_METRIC = segsim.Dataset.ON_RECORD = None


def attempt(rate, call):
  """Runs a job until it gets through; a failed attempt must leave nothing behind."""
  for _ in range(3):
    try:
      with Job(rate):
        return call()
    except FAILURES:
      probe('retry')
  with Job(0):
    return call()


def flat(x, shape):
  x = np.asarray(x)
  check(x.size == int(np.prod(shape)) and x.shape[:2] == shape, 'shape', 'an output of shape %r for a label of %r', x.shape, shape)
  return x.astype(np.int64).reshape(shape)


def bound(labels, sequential):
  """No assignment of ids needs a larger one."""
  ids = {}
  for l in labels:
    for _, g, _ in l.mapping:
      ids.setdefault(l.seq, set()).add(g)
  if sequential:
    return sum(len(v) for v in ids.values())
  return sum(max(v) for v in ids.values()) if ids else 0


def decode(labels, forms, rate, remap, sequential, divisor, where):
  """One call: checks all that is promised about it and returns its outputs, or None if it was refused."""
  lib = M['utils']
  inputs = [component(l) if f else proto(l) for l, f in zip(labels, forms)]
  before = [copy.deepcopy(x) for x in inputs]
  args = dict(remap_to_global=remap, remap_to_sequential=sequential, new_panoptic_label_divisor=divisor)
  if not any(forms) and WP(1, 4):
    call = lambda: lib.decode_multi_frame_panoptic_labels_from_protos(inputs, **args)
  else:
    call = lambda: lib.decode_multi_frame_panoptic_labels_from_segmentation_labels(inputs, **args)
  what = '%s: %d labels of %s, %s%sdivisor %s' % (where, len(labels), '/'.join(sorted(set(l.seq for l in labels))),
                                                  'global ' if remap else '', 'sequential ' if sequential else '', divisor)
  local_max = max(int(l.local.max()) for l in labels)
  loose_max = max(int(l.local[l.loose].max()) if l.loose.any() else 0 for l in labels)
  first = labels[0].divisor
  try:
    out = attempt(rate, call)
  except ValueError as e:
    if divisor is None:
      excuse = (loose_max if remap else local_max) >= first
    else:
      excuse = local_max >= divisor or (remap and bound(labels, sequential) >= divisor)
    if not excuse:
      rt.violation('decode-refused', '%s: %s (largest local id %d, at most %d global ids, first divisor %d)', what, str(e)[:200], local_max,
                   bound(labels, sequential), first)
    probe('refused divisor')
    out = None
  for a, b in zip(before, inputs):
    if a != b:
      rt.violation('input-changed', '%s: decoding changed its input', what)
  if out is None:
    return None
  pan, tracked, cover, d = out
  d = int(d)
  check(len(pan) == len(tracked) == len(cover) == len(labels), 'decode-length', '%s: %d, %d and %d outputs', what, len(pan), len(tracked),
        len(cover))
  if divisor is not None:
    check(d == divisor, 'divisor', '%s: the returned divisor is %d', what, d)
  elif not remap or max(bound(labels, sequential), loose_max) < first:
    check(d == first, 'divisor', '%s: the returned divisor is %d, the labels have %d', what, d, first)
  to, back = {}, {}
  for l, p, t, c in zip(labels, pan, tracked, cover):
    shape = l.sem.shape
    p, t, c = flat(p, shape), flat(t, shape), flat(c, shape)
    sem, ids = p // d, p % d
    if not np.array_equal(sem, l.sem):
      rt.violation('semantic', '%s: label %d of sequence %s has classes %r, decoded with divisor %d as %r', what, l.index, l.seq,
                   l.sem.tolist(), d, sem.tolist())
    want = np.ones(shape, np.int64) if l.cover is None else l.cover.astype(np.int64)
    if not np.array_equal(c, want):
      rt.violation('coverage', '%s: label %d of sequence %s is covered %r times, not %r', what, l.index, l.seq, want.tolist(), c.tolist())
    if not remap:
      if not np.array_equal(ids, l.local):
        rt.violation('instance', '%s: label %d of sequence %s has instances %r, decoded as %r', what, l.index, l.seq, l.local.tolist(),
                     ids.tolist())
      continue
    if not np.array_equal(t != 0, l.track != 0):
      rt.violation('tracked', '%s: label %d of sequence %s is tracked at %r, decoded as %r', what, l.index, l.seq, l.track.tolist(),
                   t.tolist())
    if ids[l.local == 0].any():
      rt.violation('instance', '%s: label %d of sequence %s has an instance where there is none', what, l.index, l.seq)
    for g, i in zip(l.glob[l.glob > 0].tolist(), ids[l.glob > 0].tolist()):
      k = (l.seq, g)
      if to.setdefault(k, i) != i or back.setdefault(i, k) != k or i == 0:
        rt.violation('identity', '%s: in label %d of sequence %s, object %d has id %d; ids so far %r', what, l.index, l.seq, g, i,
                     sorted(to.items()))
  if remap:
    listed = set((l.seq, g) for l in labels for _, g, _ in l.mapping)
    if sequential and back and max(back) > len(listed):
      rt.violation('sequential', '%s: sequential ids %r for %d objects', what, sorted(back), len(listed))
    if not sequential and len(set(s for s, _ in to)) == 1 and len(set(s for s, _ in listed)) == 1:
      for (s, g), i in to.items():
        check(i == g, 'identity', '%s: object %d of the only sequence has id %d', what, g, i)
  probe('decoded labels', len(labels))
  return out


def save(rate, seq):
  """Predictions of one sequence saved as labels and read back by another worker."""
  lib = M['utils']
  n = 1 + W(3)
  divisor = pick([1000, DIVISOR])
  new = pick([1000, 1023, 64, 3, 8000])
  shape = (1 + W(3), 2 + W(3))
  protos, kept = [], []
  for i in range(n):
    r = np.random.RandomState(W(1 << 20))
    sem = r.randint(0, 10, shape)
    ids = r.choice([0, 1, 2, 3, 7, 50, 63, 64, 65, 500, 999], shape)
    if divisor > 1000 and W(2):
      ids = np.where(r.rand(*shape) < 0.3, r.choice([1000, 65535, 65536, 70001, 99999], shape), ids)
    pan = (sem * divisor + ids).astype(pick([np.int32, np.uint32, np.int64]))[..., None]
    was = pan.copy()
    rt.note(pan.tobytes(), new)
    count = len(set(ids.reshape(-1).tolist()) - {0})
    top = int(sem.max()) * max(new, count + 1) + count
    try:
      p = attempt(rate, lambda: lib.save_panoptic_label_to_proto(pan, divisor, seq, new))
    except ValueError as e:
      check(top >= 65535, 'save-refused', 'saving %d instances in classes up to %d with divisor %d: %s', count, sem.max(), new, e)
      probe('refused label')
      continue
    check(np.array_equal(pan, was), 'input-changed', 'saving changed the prediction')
    check(p.sequence_id == seq and p.panoptic_label_divisor > count, 'save', 'sequence %r, divisor %d for %d instances', p.sequence_id,
          p.panoptic_label_divisor, count)
    protos.append(p.SerializeToString())
    kept.append((sem, ids))
  if not protos:
    return
  order = rt.permutation(rt.SCHED, len(protos))
  labels = [M['pb'].CameraSegmentationLabel.FromString(protos[i]) for i in order]
  out, _, _, d = attempt(rate, lambda: lib.decode_multi_frame_panoptic_labels_from_segmentation_labels(
      labels, new_panoptic_label_divisor=DIVISOR))
  for i, p in zip(order, out):
    p = flat(p, shape)
    sem, ids = kept[i]
    if d != DIVISOR or not np.array_equal(p // d, sem) or not np.array_equal(p % d, ids):
      rt.violation('save-load', 'classes %r and instances %r are saved and read back as %r and %r', sem.tolist(), ids.tolist(),
                   (p // d).tolist(), (p % d).tolist())
  probe('saved labels', len(protos))


def load(rate):
  """Frames of a dataset that may fail at any record."""
  lib = M['utils']
  frames, plain = [], []
  seqs = ['a', 'b', 'c']
  now = 0
  for i in range(W(8)):
    if WP(1, 5) and now < 2:
      now += 1
    f = M['pb'].Frame(timestamp_micros=100 + i)
    f.context.name = 'x'
    im = f.images.add(name=1)
    has = W(3) > 0
    if has:
      im.camera_segmentation_label.panoptic_label = b'png'
      im.camera_segmentation_label.sequence_id = seqs[now]
      im.camera_segmentation_label.panoptic_label_divisor = 1000
    frames.append(f.SerializeToString())
    plain.append((100 + i, seqs[now] if has else None))
  k = 1 + W(4)
  rt.note(plain, k)
  bad = [None]
  want, seq = [], None
  for ts, s in plain:
    if s is not None:
      seq = seq or s
      if s != seq:
        break
      want.append(ts)
      if len(want) == k:
        break

  def call():
    def on(i):
      if ARMED[0] and FP(1, max(4, rate // 20)):
        fault('record lost')
        bad[0] = i
        raise segsim.DataLossError('corrupted record at %d' % i)
    segsim.Dataset.ON_RECORD = on
    try:
      return lib.load_frames_with_labels_from_dataset(segsim.Dataset(frames), **({} if k == 3 and W(2) else dict(keep_first_k=k)))
    finally:
      segsim.Dataset.ON_RECORD = None
  got, s = attempt(rate, call)
  have = [f.timestamp_micros for f in got]
  if have != want or s != seq:
    rt.violation('load', 'the first %d labelled frames of %r: %r of sequence %r, expected %r of %r', k, plain, have, s, want, seq)
  for f, ts in zip(got, have):
    check(f.SerializeToString() == frames[ts - 100], 'load', 'frame %d is not what was stored', ts)
  probe('loaded frames', len(got))


def near(a, b):
  if set(a) != set(b):
    return False
  for s in a:
    if len(a[s]) != len(b[s]):
      return False
    for x, y in zip(a[s], b[s]):
      if x[:3] != y[:3] or any(abs(u - v) > 1e-3 + 1e-3 * abs(v) for u, v in zip(x[3], y[3])):
        return False
  return True


def evaluate(seqs, rate):
  """Every sequence by some worker, then all of them together."""
  cm = M['metrics']
  jobs, want = [], {}
  for name in seqs:
    labels = seqs[name]
    cut = 1 + W(len(labels)) if W(2) else len(labels)
    truth, tracked, cover = [], [], []
    refused = False
    for part in (labels[:cut], labels[cut:]):
      if not part:
        continue
      out = decode(part, [W(2)] * len(part), rate, True, False, DIVISOR, 'ground truth')
      if out is None:
        refused = True
        break
      truth += out[0]
      tracked += out[1]
      cover += out[2]
    if refused:
      continue
    pred = []
    for t in truth:
      r = np.random.RandomState(W(1 << 20))
      pred.append(np.where(r.rand(*t.shape) < 0.5, t, r.randint(0, 9, t.shape) * DIVISOR + r.randint(0, 4, t.shape)).astype(np.int32))
    cover = [np.asarray(c) for c in cover]
    jobs.append((name, truth, pred, cover, tracked))
    frames = []
    for l, t, p in zip(labels, truth, pred):
      t = np.asarray(t).astype(np.int64)
      y = np.where(np.asarray(l.track)[..., None].reshape(t.shape) != 0, t, t // DIVISOR * DIVISOR)
      c = np.ones(t.shape) if l.cover is None else l.cover.reshape(t.shape).astype(np.float64)
      frames.append((y, p.astype(np.int64), 1.0 / np.maximum(c, 1e-8)))
    want[name] = frames
  if not jobs:
    return
  want = segsim.content(want)
  done = []
  for i in rt.permutation(rt.SCHED, len(jobs)):
    name, truth, pred, cover, tracked = jobs[i]
    before = copy.deepcopy((truth, pred, cover, tracked))
    if WP(1, 6):
      lists = [list(x) for x in (truth, pred, cover, tracked)]
      lists[1 + W(3)].pop()
      fault('frame missing in one list')
      try:
        with Job(0):
          cm.get_metric_object_by_sequence(*lists, sequence_id=name)
        rt.violation('length-accepted', 'labels of %d frames with lists of %r frames are accepted', len(truth), [len(x) for x in lists])
      except ValueError:
        pass
    m = attempt(rate, lambda: cm.get_metric_object_by_sequence(truth, pred, cover, tracked, sequence_id=name))
    for a, b in zip(before, (truth, pred, cover, tracked)):
      if len(a) != len(b) or not all(np.array_equal(x, y) for x, y in zip(a, b)):
        rt.violation('input-changed', 'evaluating sequence %s changed its input', name)
    have = m.content()
    if not near(have, {name: want[name]}):
      rt.violation('update', 'the metric of sequence %s was given %r, expected %r', name, have, {name: want[name]})
    rt.event('sequence %s done' % name)
    done.append((name, m))
  results = []
  for _ in range(1 + W(3)):
    picked = [done[i] for i in rt.permutation(rt.SCHED, len(done))]
    if W(4) == 0:
      picked = picked[:1 + W(len(picked))]
    objects = [m for _, m in picked]
    before = [m.content() for _, m in done]
    r = attempt(rate, lambda: cm.aggregate_metrics(objects))
    if [m.content() for _, m in done] != before:
      rt.violation('objects-changed', 'aggregating %r changed the metric objects it was given', [n for n, _ in picked])
    mine = {}
    for n, m in picked:
      mine.update(m.content())
    n = segsim.numbers(mine)
    got = (r.wstq, r.waq, r.miou)
    exp = (n['STQ'], n['AQ'], n['IoU'])
    if any(abs(a - b) > 1e-6 for a, b in zip(got, exp)):
      rt.violation('aggregate', 'aggregating sequences %r in this order gives %r, each of them once gives %r', [n for n, _ in picked], got, exp)
    results.append(got)
    probe('aggregation')


def run():
  rate = (0, 200, 60, 20)[F(4)]
  seqs = {}
  index = 0
  shape = (1 + W(3), 2 + W(3))
  for s in range(1 + W(3)):
    name = 'seq%d' % s
    big = WP(1, 6)
    pool = [1, 2, 3, 5, 9, 40, 63, 64, 255, 256, 500, 999, 1000, 1001] + ([65535, 65536, 70000, 99998, 99999] if big else [])
    objects = []
    for i in rt.permutation(rt.WORK, len(pool))[:W(5)]:
      objects.append((pool[i], 1 + W(9)))
    labels = []
    for f in range(1 + W(4)):
      labels.append(make_label(name, index, objects, shape, big))
      index += 1
    seqs[name] = labels
    rt.note(name, [l.bytes for l in labels], [l.mapping for l in labels])
  everything = [l for v in seqs.values() for l in v]
  done = 0
  for _ in range(1 + W(3)):
    # A worker decodes some labels in the order in which it gets them.
    order = [everything[i] for i in rt.permutation(rt.SCHED, len(everything))]
    batch = order[:1 + W(len(order))]
    form = W(3)
    forms = [W(2) if form == 2 else form for _ in batch]
    out = decode(batch, forms, rate, bool(W(4)), bool(W(2)), pick([None, DIVISOR, None, 1000, 256, 8]), 'worker')
    done += out is not None
    rt.event('decoded %d' % len(batch))
  if W(2):
    save(rate, 'pred')
  if W(3) == 0:
    load(rate)
  evaluate(seqs, rate)
  if index >= 2:
    rt.nontrivial()


def setup(args):
  tf = tfsim.module()
  tfeager.extend(tf)
  segsim.extend(tf)
  segsim.v2_package(args.repo)
  import warnings
  warnings.simplefilter('ignore')
  from waymo_open_dataset import dataset_pb2
  from waymo_open_dataset.utils import camera_segmentation_utils
  from waymo_open_dataset.v2.perception.compat_v1 import interfaces, segmentation
  from waymo_open_dataset.wdl_limited.camera_segmentation import camera_segmentation_metrics
  M.update(tf=tf, pb=dataset_pb2, utils=camera_segmentation_utils, metrics=camera_segmentation_metrics,
           extract=segmentation.CameraSegmentationLabelComponentExtractor, src=interfaces.CameraImageComponentSrc)
  return run
