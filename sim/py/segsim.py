"""Stand-ins for what camera segmentation needs besides TensorFlow: PNG codec, pyarrow types, scikit-image, DeepLab2."""
import collections, hashlib, struct, sys, types, zlib
import numpy as np
import rt, tfsim
from tfsim import Tensor, _op, _need, InvalidArgumentError

MAGIC = b'\x89SIMPNG'


def png_bytes(a):
  a = np.asarray(a)
  return MAGIC + struct.pack('<BIII', a.dtype.itemsize, *a.shape) + zlib.compress(np.ascontiguousarray(a).tobytes(), 1)


def _encode(a, x):
  _need(x.ndim == 3, 'image must be 3-dimensional %r', x.shape)
  _need(x.dtype in (np.uint8, np.uint16), 'image must be uint8 or uint16, not %s', x.dtype)
  return np.array(png_bytes(x), object)


def _decode(a, x):
  b = x[()] if isinstance(x, np.ndarray) else x
  b = b if isinstance(b, bytes) else bytes(b)
  if not b.startswith(MAGIC) or len(b) < len(MAGIC) + 13:
    raise InvalidArgumentError('Unknown image file format. One of JPEG, PNG, GIF, BMP required.')
  size, h, w, c = struct.unpack('<BIII', b[len(MAGIC):len(MAGIC) + 13])
  if a['channels'] not in (0, c):
    raise rt.Unsupported('channel conversion')
  if a['dtype'] not in (np.uint8, np.uint16):
    raise InvalidArgumentError('dtype')
  if np.dtype(a['dtype']).itemsize != size:
    raise rt.Unsupported('bit depth conversion')
  try:
    raw = zlib.decompress(b[len(MAGIC) + 13:])
  except zlib.error:
    raise InvalidArgumentError('Invalid PNG data')
  return np.frombuffer(raw, a['dtype']).reshape(h, w, c).copy()


class ArrayMap:
  """skimage.util._map_array.ArrayMap."""

  def __init__(self, in_values, out_values):
    self.in_values, self.out_values = in_values, out_values
    self._dict = None

  def __len__(self):
    return int(np.max(self.in_values)) + 1

  @property
  def shape(self):
    return (len(self),)

  @property
  def dtype(self):
    return self.out_values.dtype

  def __array__(self, dtype=None):
    out = np.zeros(self.shape, self.out_values.dtype)
    out[self.in_values] = self.out_values
    return out if dtype is None else out.astype(dtype)

  def __getitem__(self, index):
    scalar = np.isscalar(index)
    if scalar:
      index = np.array([index])
    elif isinstance(index, slice):
      index = np.arange(*index.indices(len(self)))
    index = np.asarray(index)
    if index.dtype == bool:
      index = np.flatnonzero(index)
    m = dict(zip(self.in_values.tolist(), self.out_values.tolist()))
    out = np.array([m.get(int(v), 0) for v in index.reshape(-1)], self.out_values.dtype).reshape(index.shape)
    return out[0] if scalar else out


def relabel_sequential(label_field, offset=1):
  if offset <= 0:
    raise ValueError('Offset must be strictly positive.')
  label_field = np.asarray(label_field)
  if np.min(label_field) < 0:
    raise ValueError('Cannot relabel array that contains negative values.')
  offset = int(offset)
  in_vals = np.unique(label_field)
  if in_vals[0] == 0:
    out_vals = np.concatenate([[0], np.arange(offset, offset + len(in_vals) - 1)])
  else:
    out_vals = np.arange(offset, offset + len(in_vals))
  input_type = label_field.dtype
  if input_type.kind not in 'iu':
    raise TypeError('labels must be an integer type')
  required = np.min_scalar_type(int(out_vals[-1]))
  if input_type.itemsize < required.itemsize:
    output_type = required
  elif out_vals[-1] < np.iinfo(input_type).max:
    output_type = input_type
  else:
    output_type = required
  out = out_vals[np.searchsorted(in_vals, label_field)].astype(output_type)
  out_vals = out_vals.astype(output_type)
  return out, ArrayMap(in_vals, out_vals), ArrayMap(out_vals, in_vals)


class _Anything:

  def __init__(self, name):
    self._name = name

  def __call__(self, *a, **k):
    return _Anything(self._name)

  def __repr__(self):
    return self._name


def pyarrow():
  m = types.ModuleType('pyarrow')
  for n in ('DataType', 'Schema', 'Field', 'Table', 'Array'):
    setattr(m, n, type(n, (), {}))

  def get(k):
    if k.startswith('__'):
      raise AttributeError(k)
    return _Anything('pa.' + k)
  m.__getattr__ = get
  sys.modules['pyarrow'] = m
  return m


DIVISOR = 100000
ON_METRIC = None  # called with the name of every call on a metric object; may raise


def _on(name):
  if ON_METRIC:
    ON_METRIC(name)


class STQuality:
  """Remembers what it was given: {sequence: [(truth, prediction, weights)]}."""

  def __init__(self, num_classes, things_list, ignore_label, max_instances_per_category, offset, name='stq'):
    self.settings = (num_classes, tuple(things_list), ignore_label, max_instances_per_category, offset)
    self.name = name
    self.seen = collections.OrderedDict()

  def update_state(self, y_true, y_pred, sequence_id=0, weights=None):
    _on('update_state')
    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
    if y_true.shape != y_pred.shape:
      raise ValueError('Shapes %r and %r do not match.' % (y_true.shape, y_pred.shape))
    w = np.ones(y_true.shape) if weights is None else np.asarray(weights)
    if w.shape != y_true.shape:
      raise ValueError('The weights have shape %r, the labels %r.' % (w.shape, y_true.shape))
    self.seen.setdefault(sequence_id, []).append(
        (y_true.astype(np.int64).copy(), y_pred.astype(np.int64).copy(), w.astype(np.float64).copy()))

  def merge_state(self, metrics):
    for m in metrics:
      _on('merge_state')
      if m.settings != self.settings:
        raise ValueError('The metrics have different settings.')
      for s, frames in list(m.seen.items()):
        self.seen.setdefault(s, []).extend(list(frames))

  def result(self):
    _on('result')
    return numbers(self.content())

  def reset_states(self):
    self.seen = collections.OrderedDict()
  reset_state = reset_states

  def content(self):
    return content(self.seen)


def frame_key(frame):
  t, p, w = frame
  return (t.shape, tuple(t.reshape(-1).tolist()), tuple(p.reshape(-1).tolist()), tuple(round(float(v), 5) for v in w.reshape(-1)))


def content(seen):
  """{sequence: [frame in order]} as plain values; sequences in any order."""
  return {str(s): [frame_key(f) for f in frames] for s, frames in seen.items()}


def numbers(c):
  h = hashlib.sha256(repr(sorted(c.items())).encode()).digest()
  v = [int.from_bytes(h[3 * i:3 * i + 2], 'little') / 65536 for i in range(3)]
  return {'STQ': v[0], 'AQ': v[1], 'IoU': v[2], 'STQ_per_seq': [], 'AQ_per_seq': [], 'IoU_per_seq': [], 'ID_per_seq': sorted(c),
          'Length_per_seq': [len(c[s]) for s in sorted(c)]}


def deeplab2():
  info = types.SimpleNamespace(dataset_name='wod_pvps_image_panoptic_seg_multicam', panoptic_label_divisor=DIVISOR, num_classes=29,
                               class_has_instances_list=tuple(range(2, 14)), ignore_label=0, is_video_dataset=True)

  class DatasetDescriptor(types.SimpleNamespace):
    pass
  info = DatasetDescriptor(**info.__dict__)
  root = types.ModuleType('deeplab2')
  root.__path__ = []
  data = types.ModuleType('deeplab2.data')
  data.__path__ = []
  ds = types.ModuleType('deeplab2.data.dataset')
  ds.DatasetDescriptor = DatasetDescriptor
  ds.WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET = info
  ds.MAP_NAME_TO_DATASET_INFO = {info.dataset_name: info}
  ev = types.ModuleType('deeplab2.evaluation')
  ev.__path__ = []
  stq = types.ModuleType('deeplab2.evaluation.segmentation_and_tracking_quality')
  stq.STQuality = STQuality
  root.data, data.dataset, root.evaluation, ev.segmentation_and_tracking_quality = data, ds, ev, stq
  for m in (root, data, ds, ev, stq):
    sys.modules[m.__name__] = m


class DataLossError(tfsim.OpError):
  pass


class Dataset:
  """A dataset of serialised records; ON_RECORD is called before each and may raise."""

  ON_RECORD = None

  def __init__(self, records):
    self.records = records

  def __iter__(self):
    for i, r in enumerate(self.records):
      if Dataset.ON_RECORD:
        Dataset.ON_RECORD(i)
      yield Tensor(np.array(r, object))


def extend(tf):
  tfsim.KERNELS['EncodePng'] = _encode
  tfsim.KERNELS['DecodePng'] = _decode
  def decode_png(contents, channels=0, dtype=tf.uint8, name=None):
    x = Tensor(np.array(contents, object)) if isinstance(contents, bytes) else contents
    return _op('DecodePng', [x], channels=channels, dtype=np.dtype(tfsim._dt(dtype)).type)

  def decode_image(contents, channels=None, dtype=tf.uint8, name=None, expand_animations=True):
    return decode_png(contents, channels or 0, dtype)
  encode_png = lambda image, compression=-1, name=None: _op('EncodePng', [image])
  for n in ('io', 'image'):
    if n not in vars(tf):
      setattr(tf, n, types.SimpleNamespace())
    for k, f in dict(encode_png=encode_png, decode_png=decode_png, decode_image=decode_image).items():
      setattr(getattr(tf, n), k, f)

  def later(path):
    def get(k):
      if k.startswith('__'):
        raise AttributeError(k)

      def call(*a, **kw):
        raise rt.Unsupported('%s.%s' % (path, k))
      return call
    return get
  tf.math.__getattr__ = later('tf.math')  # functions named as defaults of functions that are not called here
  tf.data = types.SimpleNamespace(Dataset=Dataset, TFRecordDataset=Dataset)
  tf.errors.DataLossError = DataLossError
  sk = types.ModuleType('skimage')
  sk.__path__ = []
  seg = types.ModuleType('skimage.segmentation')
  seg.relabel_sequential = relabel_sequential
  sk.segmentation = seg
  sys.modules['skimage'], sys.modules['skimage.segmentation'] = sk, seg
  pyarrow()
  deeplab2()


def v2_package(repo):
  """The v2 package without its __init__, which imports every component."""
  import os
  import waymo_open_dataset
  pkg = types.ModuleType('waymo_open_dataset.v2')
  pkg.__path__ = [os.path.join(repo, 'waymo_open_dataset', 'v2')]
  sys.modules[pkg.__name__] = waymo_open_dataset.v2 = pkg
