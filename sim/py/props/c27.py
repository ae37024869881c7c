"""C27: frames converted to the columns of the v2 format by unreliable workers in any order."""
import threading, zlib
import numpy as np
import rt, world, tfsim, tfeager, segsim, arrowsim
from rt import W, WP, F, FP, S, pick, probe, fault, check
from arrowsim import ArrowInvalid

M = {}
CAMERAS = {1: 'FRONT', 2: 'FRONT_LEFT', 3: 'FRONT_RIGHT', 4: 'SIDE_LEFT', 5: 'SIDE_RIGHT'}
INTRINSIC = ('f_u', 'f_v', 'c_u', 'c_v', 'k1', 'k2', 'p1', 'p2', 'k3')


class Obj:
  pass


# ---------------------------------------------------------------- what was recorded, as plain values

class Gen:

  def __init__(self):
    self.r = np.random.RandomState(W(1 << 20))

  def d(self):
    k = self.r.randint(12)
    if k == 0:
      return float([0.0, -0.0, 1e-300, -1e18, 1.0, 0.1][self.r.randint(6)])
    return float(self.r.normal() * 10 ** self.r.randint(-3, 5))

  def f(self):
    return float(np.float32(self.d()))

  def ds(self, n):
    return [self.d() for _ in range(n)]

  def p(self, a, b):
    return self.r.randint(b) < a

  def id(self, n):
    return ''.join('ABCdef-_019xyz'[i] for i in self.r.randint(0, 14, n))

  def name(self):
    return '%s_with_camera_labels' % self.id(3 + self.r.randint(9)) if self.p(1, 2) else self.id(20)


def put(msg, **fields):
  """Sets optional fields; a field that is left out reads as its default."""
  for k, v in fields.items():
    if v is not None:
      setattr(msg, k, v)


def box3(g, msg):
  b = dict(center_x=g.d(), center_y=g.d(), center_z=g.d(), length=g.d(), width=g.d(), height=g.d(), heading=g.d())
  for k, v in b.items():
    setattr(msg, k, v)
  return b


def box2(g, msg):
  b = dict(center_x=g.d(), center_y=g.d(), length=g.d(), width=g.d())
  for k, v in b.items():
    setattr(msg, k, v)
  return b


def cols3(prefix, b):
  return {prefix + '.center.x': b['center_x'], prefix + '.center.y': b['center_y'], prefix + '.center.z': b['center_z'],
          prefix + '.size.x': b['length'], prefix + '.size.y': b['width'], prefix + '.size.z': b['height'], prefix + '.heading': b['heading']}


def cols2(prefix, b):
  return {prefix + '.center.x': b['center_x'], prefix + '.center.y': b['center_y'], prefix + '.size.x': b['length'],
          prefix + '.size.y': b['width']}


def vec(prefix, v, names='xyz'):
  return {'%s.%s' % (prefix, n): (None if v is None else v[i]) for i, n in enumerate(names)}


class Row(dict):
  """Expected columns of one row, named as in the published tables."""


BAD = 'refused'


def difficulty(g, label):
  """(detection, tracking) or None."""
  k = g.r.randint(4)
  if k == 0:
    return None
  det, tra = int(g.r.randint(3)), int(g.r.randint(3))
  if k != 1:
    label.detection_difficulty_level = det
  else:
    det = 0
  if k != 2:
    label.tracking_difficulty_level = tra
  else:
    tra = 0
  return det, tra


def difficulty_cols(c, d):
  return {'[%s].difficulty_level.detection' % c: d and d[0], '[%s].difficulty_level.tracking' % c: d and d[1]}


def occlusion(g, m):
  if g.p(1, 4):
    m.visibility.SetInParent()
    return False
  m.visibility.is_occluded = v = bool(g.r.randint(2))
  return v


TYPES = [1, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20]


def lidar_label(g, label, key, ids):
  """Fills in a label; returns {component: expected row, None (no row) or BAD}."""
  out = {}
  label.id = ids.pop()
  key = dict(key, **{'key.laser_object_id': label.id})
  if g.p(9, 10):
    label.type = int(g.r.randint(5))
  c = 'LiDARBoxComponent'
  n = [int(g.r.randint(0, 1 << 20)) if g.p(3, 4) else None for _ in range(2)]
  put(label, num_lidar_points_in_box=n[0], num_top_lidar_points_in_box=n[1])
  dif = difficulty(g, label)
  meta, bad = None, False
  if g.p(2, 3):
    meta = {}
    for k, w in (('speed', 'speed'), ('accel', 'acceleration')):
      v = [g.d(), g.d(), g.d() if g.p(1, 2) else None]
      if g.p(1, 30):
        v[g.r.randint(2)] = None
        bad = True
      put(label.metadata, **{k + '_' + a: x for a, x in zip('xyz', v)})
      meta[w] = [v[0], v[1], 0.0 if v[2] is None else v[2]]
    label.metadata.SetInParent()
  if g.p(9, 10):
    b = box3(g, label.box)
    if g.p(1, 30):
      label.box.ClearField(sorted(b)[g.r.randint(7)])
      bad = True
    row = Row(key)
    row.update(cols3('[%s].box' % c, b))
    row.update({'[%s].type' % c: label.type, '[%s].num_lidar_points_in_box' % c: n[0] or 0, '[%s].num_top_lidar_points_in_box' % c: n[1] or 0})
    row.update(vec('[%s].speed' % c, meta and meta['speed']))
    row.update(vec('[%s].acceleration' % c, meta and meta['acceleration']))
    row.update(difficulty_cols(c, dif))
    out[c] = BAD if bad else row
  else:
    out[c] = None
  c = 'LiDARCameraSyncedBoxComponent'
  out[c] = None
  cam = int(1 + g.r.randint(5)) if g.p(2, 3) else 0
  name = CAMERAS.get(cam, '')
  if cam and g.p(1, 30):
    name = 'ROOF'
  if name or g.p(1, 2):
    label.most_visible_camera_name = name
  if g.p(3, 4):
    b = box3(g, label.camera_synced_box)
    if name:
      row = Row(key)
      row.update(cols3('[%s].camera_synced_box' % c, b))
      row['[%s].most_visible_camera_name' % c] = cam
      out[c] = BAD if name == 'ROOF' else row
  c = 'LiDARHumanKeypointsComponent'
  out[c] = None
  if g.p(1, 3):
    kp, bad = label.laser_keypoints, False
    kp.SetInParent()
    ts, xs, ys, zs, occ = [], [], [], [], []
    for t in g.r.permutation(TYPES)[:g.r.randint(6)]:
      k = kp.keypoint.add(type=int(t))
      l = k.keypoint_3d.location_m
      l.x, l.y, l.z = g.d(), g.d(), g.d()
      ts.append(int(t)), xs.append(l.x), ys.append(l.y), zs.append(l.z), occ.append(occlusion(g, k.keypoint_3d))
      if g.p(1, 40):
        j = g.r.randint(3)
        if j == 0:
          k.ClearField('type')
        else:
          k.keypoint_3d.ClearField(('location_m', 'visibility')[j - 1])
        bad = True
    p = '[%s].lidar_keypoints[*]' % c
    row = Row(key)
    row.update({p + '.type': ts, p + '.keypoint_3d.visibility.is_occluded': occ})
    row.update(vec(p + '.keypoint_3d.location_m', (xs, ys, zs)))
    out[c] = BAD if bad else row
  elif g.p(1, 4):
    label.camera_keypoints.keypoint.add(type=1)
  return out


def camera_label(g, label, key, camera, ids, laser_ids):
  out = {}
  label.id = ids.pop()
  if g.p(9, 10):
    label.type = int(g.r.randint(5))
  key = dict(key, **{'key.camera_name': camera, 'key.camera_object_id': label.id})
  c = 'CameraBoxComponent'
  out[c] = None
  dif = difficulty(g, label)
  if g.p(9, 10):
    b, bad = box2(g, label.box), False
    if g.p(1, 40):
      label.box.ClearField(sorted(b)[g.r.randint(4)])
      bad = True
    elif g.p(1, 40):
      setattr(label.box, ('center_z', 'height', 'heading')[g.r.randint(3)], 0.0)
      bad = True
    row = Row(key)
    row.update(cols2('[%s].box' % c, b))
    row['[%s].type' % c] = label.type
    row.update(difficulty_cols(c, dif))
    out[c] = BAD if bad else row
  c = 'CameraToLiDARBoxAssociationComponent'
  out[c] = None
  if g.p(1, 2):
    other = laser_ids[g.r.randint(len(laser_ids))] if laser_ids else g.id(22)
    label.association.laser_object_id = other
    out[c] = Row(key, **{'key.laser_object_id': other})
  c = 'CameraHumanKeypointsComponent'
  out[c] = None
  if g.p(1, 3):
    kp, bad = label.camera_keypoints, False
    kp.SetInParent()
    ts, xs, ys, occ = [], [], [], []
    for t in g.r.permutation(TYPES)[:g.r.randint(6)]:
      k = kp.keypoint.add(type=int(t))
      l = k.keypoint_2d.location_px
      l.x, l.y = g.d(), g.d()
      ts.append(int(t)), xs.append(l.x), ys.append(l.y), occ.append(occlusion(g, k.keypoint_2d))
      if g.p(1, 4):
        k.keypoint_3d.location_m.x = 7.0
      if g.p(1, 40):
        j = g.r.randint(4)
        if j == 0:
          k.ClearField('type')
        elif j == 1:
          k.ClearField('keypoint_2d')
        else:
          k.keypoint_2d.ClearField(('location_px', 'visibility')[j - 2])
        bad = True
    p = '[%s].camera_keypoints[*]' % c
    row = Row(key)
    row.update({p + '.type': ts, p + '.keypoint_2d.visibility.is_occluded': occ, p + '.keypoint_3d.visibility.is_occluded': None})
    row.update(vec(p + '.keypoint_2d.location_px', (xs, ys), 'xy'))
    row.update(vec(p + '.keypoint_3d.location_m', None))
    out[c] = BAD if bad else row
  return out


def projected_label(g, label, key, camera, laser_id):
  c = 'ProjectedLiDARBoxComponent'
  label.id = '%s_%s' % (laser_id, CAMERAS[camera])
  if g.p(9, 10):
    label.type = int(g.r.randint(5))
  if g.p(1, 10):
    return {c: None}
  b = box2(g, label.box)
  row = Row(key, **{'key.camera_name': camera, 'key.laser_object_id': laser_id})
  row.update(cols2('[%s].box' % c, b))
  row['[%s].type' % c] = label.type
  if g.p(1, 40):
    label.id = laser_id + '_ROOF'
    return {c: BAD}
  return {c: row}


def image(g, kind, shape):
  """(compressed, values, shape)."""
  n = int(np.prod(shape))
  if kind == 'int':
    v = [int(x) for x in g.r.randint(-1, 2000, n)]
    m = M['pb'].MatrixInt32(data=v)
  else:
    v = [float(x) for x in np.where(g.r.rand(n) < 0.3, -1, g.r.normal(size=n) * 30).astype(np.float32)]
    m = M['pb'].MatrixFloat(data=v)
  m.shape.dims.extend(shape)
  return zlib.compress(m.SerializeToString(), int(g.r.randint(0, 10))), v, list(shape)


LASER = (('LiDARComponent', 'range_image_compressed', 'float', 4, 2), ('LiDARCameraProjectionComponent', 'camera_projection_compressed', 'int', 6, 2),
         ('LiDARPoseComponent', 'range_image_pose_compressed', 'float', 6, 1), ('LiDARSegmentationLabelComponent', 'segmentation_label_compressed', 'int', 2, 2))


def laser(g, msg, key, name):
  out = {}
  msg.name = name
  key = dict(key, **{'key.laser_name': name})
  h, w = 1 + int(g.r.randint(3)), 1 + int(g.r.randint(4))
  for c, field, kind, depth, returns in LASER:
    row, some = Row(key), False
    for i in (1, 2):
      have = g.p(5, 6) and (c != 'LiDARSegmentationLabelComponent' or name == 1)
      v, s = None, None
      if have:
        z, v, s = image(g, kind, (h, w, depth))
        setattr(getattr(msg, 'ri_return%d' % i), field, z)
      elif g.p(1, 4):
        setattr(getattr(msg, 'ri_return%d' % i), field, b'')
      if i <= returns:
        some = some or have
        row['[%s].range_image_return%d.values' % (c, i)] = [float(x) for x in v] if v and c == 'LiDARCameraProjectionComponent' else v
        row['[%s].range_image_return%d.shape' % (c, i)] = s
    out[c] = row if some else None
  return out


def transform(g, t):
  v = g.ds(16)
  t.transform.extend(v)
  return v


def camera_image(g, msg, key, camera):
  c = 'CameraImageComponent'
  key = dict(key, **{'key.camera_name': camera})
  msg.name = camera
  row = Row(key)
  msg.image = row['[%s].image' % c] = bytes(g.r.randint(0, 256, g.r.randint(1, 30)).astype(np.uint8))
  row['[%s].pose.transform' % c] = transform(g, msg.pose)
  for p, names, width in (('v', 'linear_velocity', g.f), ('w', 'angular_velocity', g.d)):
    for a in 'xyz':
      v = width() if g.p(7, 8) else None
      if v is not None:
        setattr(msg.velocity, '%s_%s' % (p, a), v)
      row['[%s].velocity.%s.%s' % (c, names, a)] = 0.0 if v is None else v
  msg.pose_timestamp = row['[%s].pose_timestamp' % c] = g.d()
  for k in ('shutter', 'camera_trigger_time', 'camera_readout_done_time'):
    v = g.d()
    setattr(msg, k, v)
    row['[%s].rolling_shutter_params.%s' % (c, k)] = v
  out = {c: row}
  c = 'CameraSegmentationLabelComponent'
  out[c] = None
  if g.p(1, 2):
    l = msg.camera_segmentation_label
    row = Row(key)
    l.panoptic_label_divisor = row['[%s].panoptic_label_divisor' % c] = int(g.r.randint(1, 100000))
    l.panoptic_label = row['[%s].panoptic_label' % c] = b'\x89PNG' + g.id(8).encode()
    l.sequence_id = row['[%s].sequence_id' % c] = g.id(6)
    if g.p(2, 3):
      l.num_cameras_covered = b'\x89PNG' + g.id(5).encode()
    row['[%s].num_cameras_covered' % c] = l.num_cameras_covered
    a, b, t = [], [], []
    for _ in range(g.r.randint(4)):
      e = l.instance_id_to_global_id_mapping.add()
      e.local_instance_id, e.global_instance_id = int(g.r.randint(1, 1000)), int(g.r.randint(1, 1 << 30))
      if g.p(2, 3):
        e.is_tracked = bool(g.r.randint(2))
      a.append(e.local_instance_id), b.append(e.global_instance_id), t.append(e.is_tracked)
    p = '[%s].instance_id_to_global_id_mapping.' % c
    row.update({p + 'local_instance_ids': a, p + 'global_instance_ids': b, p + 'is_tracked': t})
    out[c] = row
  return out


def counts(g, rep, c, what):
  p = '[%s].%s_object_counts' % (c, what)
  n = g.r.randint(4)
  if not n:
    return {p + '.types': None, p + '.counts': None}
  ts, cs = [], []
  for t in g.r.permutation(5)[:n]:
    k = int(g.r.randint(0, 500))
    rep.add(type=int(t), count=k)
    ts.append(int(t)), cs.append(k)
  return {p + '.types': ts, p + '.counts': cs}


class Item:
  """One source of components in a frame: where it is and what it must become."""

  def __init__(self, kind, path, rows):
    self.kind, self.path, self.rows = kind, path, rows


def context(g, ctx, key):
  """Calibrations and stats of one segment, the same in all its frames."""
  items = []
  cams = [int(v) for v in 1 + g.r.permutation(5)[:1 + g.r.randint(3)]]
  for i, cam in enumerate(cams):
    c = 'CameraCalibrationComponent'
    m = ctx.camera_calibrations.add(name=cam)
    row = Row(key, **{'key.camera_name': cam})
    v = g.ds(9)
    m.intrinsic.extend(v)
    row.update({'[%s].intrinsic.%s' % (c, k): x for k, x in zip(INTRINSIC, v)})
    row['[%s].extrinsic.transform' % c] = transform(g, m.extrinsic)
    m.width, m.height = int(g.r.randint(1, 4000)), int(g.r.randint(1, 4000))
    if g.p(3, 4):
      m.rolling_shutter_direction = int(g.r.randint(6))
    row.update({'[%s].width' % c: m.width, '[%s].height' % c: m.height, '[%s].rolling_shutter_direction' % c: m.rolling_shutter_direction})
    items.append(Item('camera_calibration', ('camera_calibrations', i), {c: row}))
  for i, las in enumerate(int(v) for v in 1 + g.r.permutation(5)[:1 + g.r.randint(3)]):
    c = 'LiDARCalibrationComponent'
    m = ctx.laser_calibrations.add(name=las)
    row = Row(key, **{'key.laser_name': las})
    row['[%s].extrinsic.transform' % c] = transform(g, m.extrinsic)
    m.beam_inclination_min, m.beam_inclination_max = g.d(), g.d()
    v = g.ds(g.r.randint(0, 4))
    m.beam_inclinations.extend(v)
    p = '[%s].beam_inclination.' % c
    row.update({p + 'min': m.beam_inclination_min, p + 'max': m.beam_inclination_max, p + 'values': v or None})
    items.append(Item('lidar_calibration', ('laser_calibrations', i), {c: row}))
  return items


def make_frame(g, i, name, ctx, segment_items):
  frame = M['pb'].Frame(timestamp_micros=int(1500000000000000 + g.r.randint(1 << 30) * 64 + i))
  frame.context.CopyFrom(ctx)
  frame.context.name = name
  seg = {'key.segment_context_name': name}
  key = dict(seg, **{'key.frame_timestamp_micros': frame.timestamp_micros})
  items = [Item(k.kind, k.path, {c: Row(r, **seg) for c, r in k.rows.items()}) for k in segment_items]
  st = frame.context.stats
  c = 'StatsComponent'
  row = Row(key)
  for k in ('time_of_day', 'location', 'weather'):
    if g.p(5, 6):
      setattr(st, k, g.id(4))
    row['[%s].%s' % (c, k)] = getattr(st, k)
  row.update(counts(g, st.laser_object_counts, c, 'lidar'))
  row.update(counts(g, st.camera_object_counts, c, 'camera'))
  rows = {c: row}
  c = 'VehiclePoseComponent'
  rows[c] = Row(key, **{'[%s].world_from_vehicle.transform' % c: transform(g, frame.pose)})
  items.append(Item('frame', (), rows))
  ids = list(dict.fromkeys(g.id(22) for _ in range(6)))
  lids = ids[:]
  for k in range(g.r.randint(4)):
    items.append(Item('lidar_label', ('laser_labels', k), lidar_label(g, frame.laser_labels.add(), key, ids)))
  laser_ids = [l.id for l in frame.laser_labels]
  cids = list(dict.fromkeys(g.id(12) for _ in range(12)))
  order = g.r.permutation(5)
  for k, cam in enumerate(int(v) for v in 1 + order[:g.r.randint(3)]):
    ls = frame.camera_labels.add(name=cam)
    for j in range(g.r.randint(3)):
      # the same object may have the same name in the images of two cameras
      before = [l.id for q in frame.camera_labels[:k] for l in q.labels]
      if before and j == 0 and g.p(1, 2):
        cids.append(before[g.r.randint(len(before))])
      items.append(Item('camera_label', ('camera_labels', k, 'labels', j), camera_label(g, ls.labels.add(), key, cam, cids, laser_ids)))
  for k, cam in enumerate(int(v) for v in 1 + g.r.permutation(5)[:g.r.randint(3)]):
    ls = frame.projected_lidar_labels.add(name=cam)
    for j, laser_id in enumerate(lids[-(g.r.randint(3)):][:2]):
      items.append(Item('projected', ('projected_lidar_labels', k, 'labels', j), projected_label(g, ls.labels.add(), key, cam, laser_id)))
  for k, las in enumerate(int(v) for v in 1 + g.r.permutation(5)[:g.r.randint(3)]):
    items.append(Item('laser', ('lasers', k), laser(g, frame.lasers.add(), key, las)))
  for k, cam in enumerate(int(v) for v in 1 + g.r.permutation(5)[:g.r.randint(3)]):
    items.append(Item('camera_image', ('images', k), camera_image(g, frame.images.add(), key, cam)))
  o = Obj()
  o.bytes, o.items, o.name = frame.SerializeToString(), items, '%s/%d' % (name[:6], i)
  return o


# ---------------------------------------------------------------- workers

def walk(msg, path):
  for p in path:
    msg = getattr(msg, p) if isinstance(p, str) else msg[p]
  return msg


def source(frame, item):
  i, kind, path = M['interfaces'], item.kind, item.path
  if kind == 'frame':
    return i.FrameComponentSrc(frame=frame)
  if kind in ('camera_label', 'projected'):
    return i.CameraLabelComponentSrc(frame=frame, camera_labels=walk(frame, path[:2]), label=walk(frame, path))
  if kind == 'lidar_label':
    return i.LiDARLabelComponentSrc(frame=frame, lidar_label=walk(frame, path))
  if kind == 'laser':
    return i.LiDARComponentSrc(frame=frame, laser=walk(frame, path))
  if kind == 'camera_image':
    return i.CameraImageComponentSrc(frame=frame, camera_image=walk(frame, path))
  if kind == 'camera_calibration':
    return i.CameraCalibrationComponentSrc(frame=frame, camera_calibration=walk(frame.context, path))
  return i.LiDARCalibrationComponentSrc(frame=frame, lidar_calibration=walk(frame.context, path))


def same(a, b):
  if type(a) is not type(b):
    return False
  if isinstance(a, list):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, float):
    return a == b and np.signbit(a) == np.signbit(b)
  return a == b


def row_of(comp, c):
  """The row that a component becomes in its table."""
  check(type(comp).__name__ == c, 'component', 'the extractor for %s yields a %s', c, type(comp).__name__)
  cols, schema = comp.to_flatten_dict(), M['schemas'][c]
  check(sorted(cols) == sorted(schema.names), 'columns', '%s: the columns %s differ from the schema',
        c, sorted(set(cols) ^ set(schema.names)))
  return {f.name: f.type.store(cols[f.name]) for f in schema}


def compare(row, want, c, where):
  check(set(row) == set(want), 'columns', '%s: %s has the columns %s', where, c, sorted(set(row) ^ set(want)))
  for k in want:
    if not same(row[k], want[k]):
      rt.violation('value', '%s: %s is %.80r instead of %.80r', where, k, row[k], want[k])


def damage(frame, item, c):
  """Spoils one compressed image; False if it reads as before."""
  field = [l for l in LASER if l[0] == c][0]
  msg = walk(frame, item.path)
  rets = [r for r in ('ri_return1', 'ri_return2')[:field[4]] if getattr(getattr(msg, r), field[1])]
  if not rets:
    return None
  m = getattr(msg, rets[F(len(rets))])
  old = getattr(m, field[1])
  b = bytearray(old)
  if F(2):
    del b[1 + F(len(b) - 1):]
    what = 'image cut'
  else:
    k = F(len(b) * 8)
    b[k // 8] ^= 1 << k % 8
    what = 'bit of an image flipped'
  try:  # not every damage can be noticed: TensorFlow returns what it has when a stream ends early
    x = (M['pb'].MatrixInt32 if field[2] == 'int' else M['pb'].MatrixFloat).FromString(zlib.decompressobj().decompress(bytes(b)))
    if len(x.shape.dims) == 3:
      return None
  except (zlib.error, M['DecodeError']):
    pass
  setattr(m, field[1], bytes(b))
  return what, m, field[1], old


RATES = {}  # thread -> how often its operations fail


def on_op(name):
  rt.C.steps += 1
  rate = RATES.get(threading.get_ident(), 0)
  if rate and FP(1, rate):
    fault('op fails')
    rt.event('fails in ' + name)
    raise tfsim.ResourceExhaustedError('OOM in ' + name)


def one(extract, frame, item, rate):
  """One source through one extractor: the components."""
  RATES[threading.get_ident()] = rate
  try:
    return list(extract(source(frame, item)))
  finally:
    RATES[threading.get_ident()] = 0


def finish(want, got, c, where, tables, commit):
  """Judges what came out of one source and writes it."""
  if want is None:
    check(not got, 'extra', '%s: %d rows of %s for a record without that data', where, len(got), c)
    return
  check(len(got) == 1, 'missing', '%s: %d rows of %s', where, len(got), c)
  row = row_of(got[0], c)
  compare(row, want, c, where)
  if commit:
    key = tuple(sorted((k, v) for k, v in row.items() if k.startswith('key.')))
    old = tables.setdefault(c, {}).get(key)
    if old is not None:
      compare(row, old, c, where + ' again')
    tables[c][key] = row


def run():
  g = Gen()
  nseg = 1 + W(2)
  frames = []
  for s in range(nseg):
    ctx = M['pb'].Context()
    name = g.name()
    seg = context(g, ctx, {'key.segment_context_name': name})
    for i in range(1 + W(2)):
      frames.append(make_frame(g, i, name, ctx, seg))
  rt.note([f.bytes for f in frames])
  work = []
  for fi, f in enumerate(frames):
    for it in f.items:
      for c, want in it.rows.items():
        work.append((fi, it, c, want))
  rt.log('%d frames, %d sources', len(frames), len(work))
  tables, live = {}, []
  tfsim.ON_OP = on_op
  rate = (0, 40, 8, 3)[F(4)]
  shared = {c: e() for c, e in M['extractors'].items()}
  for c, e in shared.items():
    check(e.component() is M['components'][c] and type(e).component() is M['components'][c], 'component', 'the extractor for %s announces %r', c,
          e.component())
  M['schemas'] = {c: e.schema() for c, e in shared.items()}
  for cls, names in M['enums']:
    for v, n in enumerate(names.split()):
      check(n in cls.__members__ and cls[n].value == v, 'enum', '%s.%s is not the number of that name in the records', cls.__name__, n)
  nw = 1 + W(3)
  keep = W(3)  # 0: every worker reads its own copy, 1: the workers share them, 2: a worker has room for one frame
  read, room = {}, {}

  def frame_for(fi, t):
    if keep == 2:
      f, last = room.setdefault(t, [M['pb'].Frame(), None])
      if last != fi:
        f.Clear()
        f.ParseFromString(frames[fi].bytes)
        room[t][1] = fi
        probe('frame replaced')
      return f
    k = fi if keep else (fi, t)
    if k not in read:
      read[k] = M['pb'].Frame.FromString(frames[fi].bytes)
    return read[k]
  order = rt.permutation(rt.SCHED, len(work))
  shares = [order[i::nw] for i in range(nw)]
  style = S(3)
  th = world.Threads((4, 10, 40)[S(3)])
  oom = F(3) == 2

  def job(t, k):
    fi, it, c, want = work[k]
    where = 'worker %d, %s %s' % (t, frames[fi].name, '.'.join(map(str, it.path)))
    extract = shared[c] if S(2) else M['extractors'][c]()
    frame = frame_for(fi, t)
    if want is BAD:
      fault('required field missing')
      try:
        got = one(extract, frame, it, 0)
        for x in got:
          row_of(x, c)
      except (M['interfaces'].ExtractionError, AssertionError, KeyError, ValueError):
        probe('refused')
      else:
        rt.violation('accepted', '%s: a %s was made of a record that lacks a required field or is inconsistent', where, c)
      return
    if it.kind == 'laser' and want is not None and FP(1, 4):
      mine = M['pb'].Frame.FromString(frames[fi].bytes)
      d = damage(mine, it, c)
      if d:
        fault(d[0])
        try:
          got = one(extract, mine, it, 0)
          for x in got:
            row_of(x, c)
          rt.violation('damaged', '%s: %d rows of %s from a damaged range image (%s)', where, len(got), c, d[0])
        except rt.End:
          raise
        except MemoryError:
          raise
        except Exception:  # pylint: disable=broad-except
          probe('damage noticed')
        setattr(d[1], d[2], d[3])
        finish(want, one(extract, mine, it, 0), c, where + ' repaired', tables, False)
    for a in range(4):
      try:
        got = one(extract, frame, it, rate if a < 3 else 0)
        break
      except tfsim.ResourceExhaustedError:
        probe('retry')
    finish(want, got, c, where, tables, True)
    if it.kind != 'laser' or S(3) == 0:
      live.append((got, want, c, where))
    rt.event('%s %s' % (where, c))

  def together(t, ks):
    """Several extractors half way at once."""
    gens = []
    for k in ks:
      fi, it, c, want = work[k]
      gens.append([k, iter((shared[c] if S(2) else M['extractors'][c]())(source(frame_for(fi, t), it))), []])
    open_ = list(range(len(gens)))
    while open_:
      i = open_[S(len(open_))]
      k, it, got = gens[i]
      fi, item, c, want = work[k]
      where = 'worker %d, %s %s, among %d' % (t, frames[fi].name, '.'.join(map(str, item.path)), len(ks))
      rt.C.steps += 1
      try:
        got.append(next(it))
        check(len(got) < 3, 'extra', '%s: %s without end', where, c)
        continue
      except StopIteration:
        pass
      except (M['interfaces'].ExtractionError, AssertionError, KeyError, ValueError):
        if want is not BAD:
          raise
        probe('refused')
      open_.remove(i)
      if want is not BAD:
        finish(want, got, c, where, tables, True)
    probe('interleaved extractors')

  def body(t):
    def go():
      ks = list(shares[t])
      while ks:
        n = 1 if style == 0 else 1 + S(min(6, len(ks)))
        mine, ks[:n] = ks[:n], []
        if oom and F(4) == 3:
          th.fail[t] = F(60)
        for again in (False, True):
          try:
            if n > 1 and style == 2 and len({work[k][0] for k in mine} if keep == 2 else '1') == 1:
              together(t, mine)
            else:
              for k in mine:
                job(t, k)
            th.fail.pop(t, None)
            break
          except MemoryError:
            check(not again, 'raises', 'worker %d runs out of memory by itself', t)
            probe('job repeated')
            th.fail.pop(t, None)
            th.retrace()
        if FP(1, 12):
          fault('worker restarted')
          for key in [q for q in read if not keep and q[1] == t]:
            del read[key]
    return go
  if nw > 1 or oom:
    errors = th.run([body(t) for t in range(nw)])
    for t, e in errors:
      if isinstance(e, Exception):
        raise e
      rt.violation('error', 'worker %d: %s: %s', t, type(e).__name__, str(e)[:300])
  else:
    body(0)()
  for t, (f, fi) in room.items():
    if fi is not None:
      read[fi, t] = f
  for k, f in read.items():
    fi = k if keep == 1 else k[0]
    check(f.SerializeToString() == frames[fi].bytes, 'input-changed', 'converting %s changed it', frames[fi].name)
  # What was made stays as it is when the frames' memory is used for others.
  for f in read.values():
    other = frames[W(len(frames))].bytes
    if W(2):
      lists = [f.pose.transform] + [i.pose.transform for i in f.images] + [l.extrinsic.transform for l in f.context.camera_calibrations]
      lists += [l.extrinsic.transform for l in f.context.laser_calibrations] + [l.beam_inclinations for l in f.context.laser_calibrations]
      for x in lists:
        for j in range(len(x)):
          x[j] = -77.0
    f.Clear()
    f.ParseFromString(other)
    for i in range(len(f.lasers)):
      f.lasers[i].Clear()
  for got, want, c, where in live:
    finish(want, got, c, where + ', after the frame was reused', tables, False)
  # The tables hold the rows that the records describe, each once.
  want = {}
  for fi, it, c, w in work:
    if w is not None and w is not BAD:
      want.setdefault(c, {})[tuple(sorted((k, v) for k, v in w.items() if k.startswith('key.')))] = w
  for c in sorted(set(want) | set(tables)):
    check(set(want.get(c, {})) == set(tables.get(c, {})), 'rows', '%s has %d rows instead of %d', c, len(tables.get(c, {})), len(want.get(c, {})))
  tfsim.ON_OP = None
  readback(tables)
  if len(work) > 3:
    rt.nontrivial()


def readback(tables):
  """Rows of joined tables, their columns in any order, give the components back."""
  flat = [(c, k, r) for c in sorted(tables) for k, r in sorted(tables[c].items(), key=repr)]
  for i in rt.permutation(rt.SCHED, len(flat))[:12]:
    c, k, row = flat[i]
    cols = dict(row)
    for c2, k2, r2 in [flat[S(len(flat))] for _ in range(S(4))]:
      if c2 != c:
        cols.update({n: v for n, v in r2.items() if n not in cols})
    names = list(cols)
    comp = M['components'][c].from_dict({names[j]: cols[names[j]] for j in rt.permutation(rt.SCHED, len(names))})
    compare(row_of(comp, c), row, c, 'read back')
    probe('read back')
    for n in ('range_image_return1', 'range_image_return2'):
      ri = getattr(comp, n, None)
      if ri is not None and ri.shape is not None:
        t = np.asarray(ri.tensor)
        v = row['[%s].%s.values' % (c, n)]
        check(t.shape == tuple(ri.shape) and t.reshape(-1).tolist() == v, 'tensor', 'the tensor of %s.%s has shape %r', c, n, t.shape)
    if hasattr(comp, 'range_image_returns'):
      check([r is getattr(comp, 'range_image_return%d' % (j + 1)) for j, r in enumerate(comp.range_image_returns)] == [True, True], 'tensor',
            '%s.range_image_returns does not list the two returns in order', c)
    if c == 'LiDARBoxComponent':
      b = comp.box.numpy(np.float64)
      want = [row['[%s].box.%s' % (c, n)] for n in ('center.x', 'center.y', 'center.z', 'size.x', 'size.y', 'size.z', 'heading')]
      check(b.tolist() == want and comp.box.center.numpy.tolist() == want[:3] and comp.box.size.numpy.tolist() == want[3:6], 'tensor',
            'a box becomes the array %r instead of %r', b, want)


def _inflate(a, b):
  b = b[()] if isinstance(b, np.ndarray) else b
  d = zlib.decompressobj()
  try:
    out = d.decompress(bytes(b))
  except zlib.error as e:
    raise segsim.DataLossError('inflate() failed: %s' % e)
  return np.array(out, object)


def setup(args):
  tf = tfsim.module()
  tfeager.extend(tf)
  segsim.extend(tf)
  arrowsim.install()
  segsim.v2_package(args.repo)
  tfsim.KERNELS['DecodeCompressed'] = _inflate

  def decode_compressed(bytes, compression_type='', name=None):  # pylint: disable=redefined-builtin
    if compression_type != 'ZLIB':
      raise rt.Unsupported('compression %r' % compression_type)
    x = bytes if isinstance(bytes, tfsim.Tensor) else tfsim.Tensor(np.array(bytes, object))
    return tfsim._op('DecodeCompressed', [x])
  tf.io.decode_compressed = decode_compressed
  import warnings
  warnings.simplefilter('ignore')
  from waymo_open_dataset import dataset_pb2
  from waymo_open_dataset.v2.perception import box, camera_image, context, keypoints, lidar, pose, segmentation
  from waymo_open_dataset.v2.perception.compat_v1 import box as xbox, camera_image as ximage, context as xcontext, interfaces
  from waymo_open_dataset.v2.perception.compat_v1 import keypoints as xkeypoints, lidar as xlidar, pose as xpose, segmentation as xseg
  from google.protobuf import message
  M.update(pb=dataset_pb2, interfaces=interfaces, DecodeError=message.DecodeError)
  M['components'] = {}
  for m in (box, camera_image, context, keypoints, lidar, pose, segmentation):
    for k, v in vars(m).items():
      if k.endswith('Component') and isinstance(v, type):
        M['components'][k] = v
  M['extractors'] = {
      'LiDARBoxComponent': xbox.LiDARBoxComponentExtractor,
      'LiDARCameraSyncedBoxComponent': xbox.LiDARCameraSyncedBoxComponentExtractor,
      'ProjectedLiDARBoxComponent': xbox.ProjectedLiDARBoxComponentExtractor,
      'CameraBoxComponent': xbox.CameraBoxComponentExtractor,
      'CameraToLiDARBoxAssociationComponent': xbox.CameraToLiDARBoxAssociationComponentExtractor,
      'CameraImageComponent': ximage.CameraImageComponentExtractor,
      'CameraCalibrationComponent': xcontext.CameraCalibrationComponentExtractor,
      'LiDARCalibrationComponent': xcontext.LiDARCalibrationComponentExtractor,
      'StatsComponent': xcontext.StatsComponentExtractor,
      'CameraHumanKeypointsComponent': xkeypoints.CameraHumanKeypointsFrameExtractor,
      'LiDARHumanKeypointsComponent': xkeypoints.LiDARHumanKeypointsFrameExtractor,
      'LiDARComponent': xlidar.LiDARComponentExtractor,
      'LiDARCameraProjectionComponent': xlidar.LiDARCameraProjectionComponentExtractor,
      'LiDARPoseComponent': xlidar.LiDARPoseComponentExtractor,
      'VehiclePoseComponent': xpose.VehiclePoseFrameExtractor,
      'CameraSegmentationLabelComponent': xseg.CameraSegmentationLabelComponentExtractor,
      'LiDARSegmentationLabelComponent': xseg.LiDARSegmentationLabelComponentExtractor,
  }
  M['enums'] = ((box.BoxType, 'TYPE_UNKNOWN TYPE_VEHICLE TYPE_PEDESTRIAN TYPE_SIGN TYPE_CYCLIST'),
                (box.DifficultyLevelType, 'UNKNOWN LEVEL_1 LEVEL_2'),
                (camera_image.CameraName, 'UNKNOWN FRONT FRONT_LEFT FRONT_RIGHT SIDE_LEFT SIDE_RIGHT'),
                (lidar.LaserName, 'UNKNOWN TOP FRONT SIDE_LEFT SIDE_RIGHT REAR'),
                (context.RollingShutterReadOutDirection, 'UNKNOWN TOP_TO_BOTTOM LEFT_TO_RIGHT BOTTOM_TO_TOP RIGHT_TO_LEFT GLOBAL_SHUTTER'))
  return run
