"""Further eager functions of the TensorFlow API, so that rewritten code finds what it may reach for."""
import types
import numpy as np
import tfsim
from tfsim import KERNELS, Tensor, _op, _binary, _dt, _need, convert_to_tensor, InvalidArgumentError


def _np(a, *xs):
  try:
    return a['f'](*xs)
  except (ValueError, IndexError) as e:
    raise InvalidArgumentError('%s: %s' % (a['op'], e))


KERNELS['Np'] = _np


def call(op, f, *xs, nout=1):
  return _op('Np', list(xs), nout=nout, op=op, f=f)


def _axis(a):
  return tuple(int(v) for v in a) if isinstance(a, (list, tuple)) else None if a is None else int(a)


def _ints(v):
  return [int(x) for x in np.asarray(v).reshape(-1)]


def _segment(op, init):
  def f(data, ids, num_segments, name=None):
    n = int(num_segments)

    def k(x, i):
      _need(x.shape[:i.ndim] == i.shape, '%s: ids of shape %r for %r', op, i.shape, x.shape)
      out = np.full((n,) + x.shape[i.ndim:], init(x.dtype), x.dtype)
      for p in np.ndindex(*i.shape):
        if i[p] >= 0:
          _need(i[p] < n, '%s: id out of range', op)
          out[i[p]] = getattr(np, op)(out[i[p]], x[p])
      return out
    return call('Segment', k, data, ids)
  return f


def _lim(lo):
  return lambda d: (np.finfo(d).min if lo else np.finfo(d).max) if d.kind == 'f' else (np.iinfo(d).min if lo else np.iinfo(d).max)


def extend(m):
  have = lambda mod, f: f in vars(mod)

  def put(names, fn):
    for n in names.split():
      path, f = n.rsplit('.', 1) if '.' in n else ('', n)
      mod = m if not path else getattr(m, path)
      if not have(mod, f):
        setattr(mod, f, fn)

  class Named(types.SimpleNamespace):

    def __getattr__(self, k):
      if k.startswith('__'):
        raise AttributeError(k)
      raise tfsim.Unsupported('tf.*.' + k)
  for n in ('nn', 'random', 'io', 'sets'):
    if n not in vars(m):
      setattr(m, n, Named())
  if type(m.linalg) is types.SimpleNamespace:
    m.linalg = Named(**vars(m.linalg))
  un = lambda op, f: lambda x, name=None: call(op, lambda v: np.asarray(f(v)).astype(v.dtype), x)
  for n, f in dict(tan=np.tan, acos=np.arccos, asin=np.arcsin, sinh=np.sinh, cosh=np.cosh, tanh=np.tanh, floor=np.floor, ceil=np.ceil,
                   round=np.round, rint=np.rint, rsqrt=lambda v: 1 / np.sqrt(v), reciprocal=lambda v: 1 / v, log1p=np.log1p, expm1=np.expm1,
                   atan=np.arctan, square=np.square, sigmoid=lambda v: 1 / (1 + np.exp(-v)), softplus=lambda v: np.logaddexp(0, v),
                   negative=np.negative, sign=np.sign, abs=np.abs, exp=np.exp, log=np.log, sqrt=np.sqrt, cos=np.cos, sin=np.sin).items():
    put('%s math.%s' % (n, n), un(n, f))
  put('nn.relu', un('Relu', lambda v: np.maximum(v, 0)))
  put('nn.sigmoid', m.math.sigmoid)
  boolean = lambda op, f: lambda x, name=None: call(op, f, x)
  for n, f in dict(is_nan=np.isnan, is_inf=np.isinf, is_finite=np.isfinite).items():
    put('math.%s' % n, boolean(n, f))
  m.math.ceil = m.math.ceil

  def binary(op, f):
    def g(x, y, name=None):
      if not isinstance(x, (Tensor, tfsim.Variable)) and not isinstance(y, (Tensor, tfsim.Variable)):
        x = convert_to_tensor(x)
      if not isinstance(x, (Tensor, tfsim.Variable)):
        x = convert_to_tensor(x, dtype=y.dtype)
      elif not isinstance(y, (Tensor, tfsim.Variable)):
        y = convert_to_tensor(y, dtype=x.dtype)

      def k(a, b):
        _need(a.dtype == b.dtype, '%s: dtypes %s and %s', op, a.dtype, b.dtype)
        return np.asarray(f(a, b)).astype(a.dtype)
      return call(op, k, x, y)
    return g
  for n, f in dict(pow=np.power, floordiv=np.floor_divide, mod=np.mod, floormod=np.mod, squared_difference=lambda a, b: (a - b) ** 2,
                   atan2=np.arctan2, logical_xor=np.logical_xor, divide_no_nan=lambda a, b: np.where(b == 0, 0, a / np.where(b == 0, 1, b)),
                   multiply_no_nan=lambda a, b: np.where(b == 0, 0, a * b)).items():
    put('math.%s' % n, binary(n, f))
    if n not in ('divide_no_nan', 'multiply_no_nan'):
      put(n, binary(n, f))
  put('hypot', binary('hypot', np.hypot))
  m.truncatemod = binary('truncatemod', np.fmod)

  def red(op, f):
    def g(input_tensor, axis=None, keepdims=False, name=None):
      ax = _axis(axis)
      return call(op, lambda v: np.asarray(f(v, axis=ax, keepdims=bool(keepdims))).astype(v.dtype), input_tensor)
    return g

  def logsumexp(v, axis, keepdims):
    hi = np.max(v, axis=axis, keepdims=True)
    hi = np.where(np.isfinite(hi), hi, 0)
    r = np.log(np.sum(np.exp(v - hi), axis=axis, keepdims=True)) + hi
    return r if keepdims else np.squeeze(r, axis if axis is not None else tuple(range(v.ndim)))
  for n, f in dict(reduce_std=np.std, reduce_variance=np.var, reduce_logsumexp=logsumexp,
                   reduce_euclidean_norm=lambda v, axis, keepdims: np.sqrt(np.sum(v * v, axis=axis, keepdims=keepdims))).items():
    put('%s math.%s' % (n, n), red(n, f))

  def count_nonzero(input, axis=None, keepdims=None, dtype=None, name=None):
    d = _dt(dtype) or np.int64
    return call('CountNonzero', lambda v: np.sum(v != np.zeros((), v.dtype), axis=_axis(axis), keepdims=bool(keepdims)).astype(d), input)
  put('math.count_nonzero', count_nonzero)

  def softmax(logits, axis=None, name=None):
    ax = -1 if axis is None else axis

    def k(v):
      e = np.exp(v - v.max(axis=ax, keepdims=True))
      return (e / e.sum(axis=ax, keepdims=True)).astype(v.dtype)
    return call('Softmax', k, logits)
  put('nn.softmax', softmax)

  def l2_normalize(x, axis=None, epsilon=1e-12, name=None):
    return call('L2', lambda v: (v / np.sqrt(np.maximum(np.sum(v * v, axis=_axis(axis), keepdims=True), epsilon))).astype(v.dtype), x)
  put('math.l2_normalize nn.l2_normalize', l2_normalize)
  put('roll', lambda input, shift, axis, name=None: call(
      'Roll', lambda v: np.roll(v, _ints(shift) if np.ndim(shift) else int(shift), _axis(axis)), input))
  put('reverse', lambda tensor, axis, name=None: call('Reverse', lambda v: np.flip(v, _axis(list(axis))), tensor))

  def pad(tensor, paddings, mode='CONSTANT', constant_values=0, name=None):
    p = [tuple(_ints(r)) for r in np.asarray(paddings)]
    if mode.upper() == 'CONSTANT':
      return call('Pad', lambda v: np.pad(v, p, constant_values=np.asarray(constant_values).astype(v.dtype)), tensor)
    kept = 1 if mode.upper() == 'REFLECT' else 0

    def k(v):
      _need(all(max(r) <= n - kept for r, n in zip(p, v.shape)), 'paddings must be no greater than the dimension size: %r for %r', p, v.shape)
      return np.pad(v, p, mode=mode.lower())
    return call('MirrorPad', k, tensor)
  put('pad', pad)

  def slice_(input_, begin, size, name=None):
    b, s = _ints(begin), _ints(size)
    return call('Slice', lambda v: v[tuple(slice(i, None if n == -1 else i + n) for i, n in zip(b, s))], input_)
  put('slice', slice_)

  def one_hot(indices, depth, on_value=None, off_value=None, axis=None, dtype=None, name=None):
    d = _dt(dtype) or np.float32
    on, off = (1 if on_value is None else on_value), (0 if off_value is None else off_value)

    def k(v):
      r = np.where(v[..., None] == np.arange(int(depth)), on, off).astype(d)
      return r if axis in (None, -1) else np.moveaxis(r, -1, axis)
    return call('OneHot', k, indices)
  put('one_hot', one_hot)

  def argsort(values, axis=-1, direction='ASCENDING', stable=False, name=None):
    def k(v):
      if direction != 'ASCENDING':
        return (v.shape[axis] - 1 - np.flip(np.argsort(np.flip(v, axis), axis, kind='stable'), axis)).astype(np.int32)
      return np.argsort(v, axis, kind='stable').astype(np.int32)
    return call('ArgSort', k, values)
  put('argsort', argsort)

  def sort(values, axis=-1, direction='ASCENDING', name=None):
    return call('Sort', lambda v: np.sort(v, axis) if direction == 'ASCENDING' else np.flip(np.sort(v, axis), axis), values)
  m.sort = sort

  def top_k(input, k=1, sorted=True, name=None):
    x = convert_to_tensor(input)
    i = argsort(x, direction='DESCENDING')[..., :int(k)]
    T = __import__('collections').namedtuple('TopKV2', 'values indices')
    return T(call('TopK', lambda v, j: np.take_along_axis(v, j.astype(np.int64), -1), x, i), i)
  put('math.top_k nn.top_k', top_k)

  def cumulative(op, f):
    def g(x, axis=0, exclusive=False, reverse=False, name=None):
      def k(v):
        v = np.flip(v, axis) if reverse else v
        r = f(v, axis, dtype=v.dtype)
        if exclusive:
          one = np.full_like(np.take(r, [0], axis), 0 if op == 'Cumsum' else 1)
          r = np.concatenate([one, np.take(r, range(v.shape[axis] - 1), axis)], axis)
        return np.flip(r, axis) if reverse else r
      return call(op, k, x)
    return g
  m.cumsum = m.math.cumsum = cumulative('Cumsum', np.cumsum)
  put('math.cumprod', cumulative('Cumprod', np.cumprod))

  def searchsorted(sorted_sequence, values, side='left', out_type=None, name=None):
    d = _dt(out_type) or np.int32

    def k(s, v):
      if s.ndim == 1:
        return np.searchsorted(s, v, side).astype(d)
      a, b = s.reshape(-1, s.shape[-1]), v.reshape(-1, v.shape[-1])
      return np.stack([np.searchsorted(x, y, side) for x, y in zip(a, b)]).reshape(v.shape).astype(d)
    return call('SearchSorted', k, sorted_sequence, values)
  put('searchsorted', searchsorted)

  def unique(x, out_idx=None, name=None):
    x = convert_to_tensor(x)
    v = x.numpy().tolist()
    vals = list(dict.fromkeys(v))
    T = __import__('collections').namedtuple('Unique', 'y idx')
    return T(call('Unique', lambda a: np.array(vals, a.dtype).reshape(-1), x),
             call('Unique', lambda a: np.array([vals.index(t) for t in v], _dt(out_idx) or np.int32), x))
  put('unique', unique)
  for n, o, lo in (('sum', 'add', None), ('max', 'maximum', True), ('min', 'minimum', False)):
    f = _segment(o, (lambda d: 0) if lo is None else _lim(lo))
    put('math.unsorted_segment_' + n, f)
    put('math.segment_' + n, lambda data, ids, name=None, f=f: f(data, ids, int(np.max(np.asarray(ids.numpy() if hasattr(
        ids, 'numpy') else ids))) + 1))
  put('tensordot', lambda a, b, axes, name=None: call('Tensordot', lambda x, y: np.tensordot(x, y, axes), a, b))
  put('linalg.cross', lambda a, b, name=None: call('Cross', np.cross, a, b))
  put('linalg.det', lambda input, name=None: call('Det', lambda v: np.linalg.det(v).astype(v.dtype), input))
  put('linalg.diag', lambda diagonal, name=None: call('Diag', lambda v: v[..., None] * np.eye(v.shape[-1], dtype=v.dtype), diagonal))
  put('linalg.diag_part', lambda input, name=None: call('DiagPart', lambda v: np.diagonal(v, axis1=-2, axis2=-1), input))
  put('linalg.trace', lambda x, name=None: call('Trace', lambda v: np.trace(v, axis1=-2, axis2=-1), x))
  put('linalg.matrix_transpose', lambda a, name=None: call('MatrixTranspose', lambda v: np.swapaxes(v, -1, -2), a))
  put('linalg.matvec', lambda a, b, name=None: call('MatVec', lambda x, y: np.matmul(x, y[..., None])[..., 0], a, b))
  put('linalg.l2_normalize', m.math.l2_normalize)
  put('add_n', lambda inputs, name=None: call('AddN', lambda *v: sum(v[1:], v[0]), *inputs))
  put('math.add_n', m.add_n)
  put('reshape', tfsim.reshape)
  put('linspace', lambda start, stop, num, name=None, axis=0: call(
      'LinSpace', lambda a, b: np.linspace(a, b, int(num)).astype(np.result_type(a, np.float32)), start, stop))

  def tril(keep):
    return lambda v, l, u: np.stack([np.where((np.arange(v.shape[-2])[:, None] - np.arange(v.shape[-1]) <= (l if l >= 0 else 1 << 30)) & (
        np.arange(v.shape[-1]) - np.arange(v.shape[-2])[:, None] <= (u if u >= 0 else 1 << 30)), v, np.zeros((), v.dtype))])[0]
  put('linalg.band_part', lambda input, num_lower, num_upper, name=None: call(
      'BandPart', lambda v: tril(True)(v, int(num_lower), int(num_upper)), input))

  def value(c):
    return bool(c.numpy()) if hasattr(c, 'numpy') else bool(c)
  put('cond', lambda pred, true_fn=None, false_fn=None, name=None: true_fn() if value(pred) else false_fn())

  def while_loop(cond, body, loop_vars, *_, **__):
    v = list(loop_vars)
    while value(cond(*v)):
      v = body(*v)
      v = list(v) if isinstance(v, (list, tuple)) else [v]
    return v
  put('while_loop', while_loop)

  def pack(rows):
    if isinstance(rows[0], (list, tuple)):
      return type(rows[0])(pack([r[i] for r in rows]) for i in range(len(rows[0])))
    if isinstance(rows[0], dict):
      return {k: pack([r[k] for r in rows]) for k in rows[0]}
    return m.stack(rows)

  def map_fn(fn, elems, *_, **__):
    leaf = elems
    while isinstance(leaf, (list, tuple, dict)):
      leaf = (list(leaf.values()) if isinstance(leaf, dict) else leaf)[0]
    take = lambda e, i: ({k: take(v, i) for k, v in e.items()} if isinstance(e, dict) else type(e)(take(v, i) for v in e) if isinstance(
        e, (list, tuple)) else convert_to_tensor(e)[i])
    return pack([fn(take(elems, i)) for i in range(convert_to_tensor(leaf).shape[0])])
  put('map_fn vectorized_map', map_fn)
  # Assertions, of which a failing one raises at once.
  ops = dict(less=np.less, less_equal=np.less_equal, greater=np.greater, greater_equal=np.greater_equal, none_equal=np.not_equal, near=None)
  for n, f in ops.items():
    def g(x, y, *a, message=None, n=n, f=f, **k):
      x, y = (np.asarray(v.numpy() if hasattr(v, 'numpy') else v) for v in (x, y))
      ok = np.allclose(x, y) if f is None else np.all(f(x, y))
      if not ok:
        raise InvalidArgumentError(message or 'assert_' + n)
    put('debugging.assert_%s assert_%s' % (n, n), g)
  for n, f in dict(positive=lambda v: v > 0, negative=lambda v: v < 0, non_negative=lambda v: v >= 0, non_positive=lambda v: v <= 0).items():
    def g(x, message=None, f=f, n=n, **k):
      if not np.all(f(np.asarray(x.numpy() if hasattr(x, 'numpy') else x))):
        raise InvalidArgumentError(message or 'assert_' + n)
    put('debugging.assert_' + n, g)
  for n in ('assert_less assert_less_equal assert_greater assert_greater_equal assert_none_equal assert_near assert_positive assert_negative '
            'assert_non_negative assert_non_positive').split():
    if n not in vars(m.compat.v1):
      setattr(m.compat.v1, n, getattr(m.debugging, n))
  # Bits of integers.
  if 'bitwise' not in vars(m):
    m.bitwise = Named()

  def bits(op, f):
    def k(a, b):
      _need(a.dtype == b.dtype and a.dtype.kind in 'iu', '%s: dtypes %s and %s', op, a.dtype, b.dtype)
      return f(a, b).astype(a.dtype)

    def g(x, y, name=None):
      x = x if isinstance(x, Tensor) else convert_to_tensor(x, dtype=y.dtype if isinstance(y, Tensor) else None)
      return call(op, k, x, y if isinstance(y, Tensor) else convert_to_tensor(y, dtype=x.dtype))
    return g
  for n, f in dict(left_shift=np.left_shift, right_shift=np.right_shift, bitwise_and=np.bitwise_and, bitwise_or=np.bitwise_or,
                   bitwise_xor=np.bitwise_xor).items():
    put('bitwise.' + n, bits(n, f))
  put('bitwise.invert', lambda x, name=None: call('Invert', np.invert, x))

  def bitcast(input, type, name=None):
    d = np.dtype(_dt(type))

    def k(v):
      _need(v.dtype.itemsize == d.itemsize, 'bitcast of %s to %s', v.dtype, d)
      return np.ascontiguousarray(v).view(d).reshape(v.shape)
    return call('Bitcast', k, input)
  put('bitcast', bitcast)
  put('print', lambda *a, **k: None)
  ident = lambda f=None, **k: f if f else (lambda g: g)
  put('function', ident)
  # Operators of tensors.
  pw, fd, md = m.pow, binary('FloorDiv', np.floor_divide), binary('FloorMod', np.mod)
  for n, f in dict(pow=pw, floordiv=fd, mod=md, matmul=m.matmul).items():
    for c in (Tensor,):
      if '__%s__' % n not in vars(c):
        setattr(c, '__%s__' % n, lambda s, o, f=f: f(s, o))
      if '__r%s__' % n not in vars(c):
        setattr(c, '__r%s__' % n, lambda s, o, f=f: f(o, s))
  for n, f in dict(neg=lambda s: _op('Neg', [s]), abs=lambda s: _op('Abs', [s]), invert=lambda s: _op('LogicalNot', [s])).items():
    if '__%s__' % n not in vars(Tensor):
      setattr(Tensor, '__%s__' % n, f)

  def assert_rank(x, rank, *a, message=None, at_least=False, **k):
    n = len(convert_to_tensor(x).shape)
    if n < int(rank) if at_least else n != int(rank):
      raise ValueError('%s: tensor must have rank %d, not %d' % (message or 'assert_rank', int(rank), n))
  put('debugging.assert_rank assert_rank', assert_rank)
  put('debugging.assert_rank_at_least', lambda x, rank, message=None, **k: assert_rank(x, rank, message=message, at_least=True))
  if 'assert_rank' not in vars(m.compat.v1):
    m.compat.v1.assert_rank = m.debugging.assert_rank

  def assert_shapes(shapes, data=None, summarize=None, message=None, name=None):
    known = {}
    for x, want in (shapes.items() if isinstance(shapes, dict) else shapes):
      have = list(convert_to_tensor(x).shape.as_list())
      want = list(want) if isinstance(want, (list, tuple)) or hasattr(want, '__iter__') and not isinstance(want, str) else [want]
      if want and want[0] in (Ellipsis, '...'):
        want = want[1:]
        have_ = have[len(have) - len(want):] if len(have) >= len(want) else None
      else:
        have_ = have if len(have) == len(want) else None
      if have_ is None:
        raise ValueError('%s: tensor of shape %r must have rank %d' % (message or 'assert_shapes', have, len(want)))
      for h, w in zip(have_, want):
        if isinstance(w, str) and w.isdigit():
          w = int(w)
        if w is None or w == '.':
          continue
        if h != (known.setdefault(w, h) if isinstance(w, str) else int(w)):
          raise ValueError('%s: tensor dimension %r is not %r in shape %r' % (message or 'assert_shapes', h, w, have))
  put('debugging.assert_shapes', assert_shapes)

  def hsv_to_rgb(images, name=None):
    def k(x):
      _need(x.shape[-1] == 3, 'hsv_to_rgb of shape %r', x.shape)
      h, s, v = x[..., 0] * 6, x[..., 1], x[..., 2]
      d = np.stack([np.abs(h - 3) - 1, 2 - np.abs(h - 2), 2 - np.abs(h - 4)], -1)
      return (((1 - s)[..., None] + s[..., None] * np.clip(d, 0, 1)) * v[..., None]).astype(x.dtype)
    return call('HSVToRGB', k, images)
  if 'image' not in vars(m):
    m.image = Named()
  put('image.hsv_to_rgb', hsv_to_rgb)

  class FixedLenFeature:

    def __init__(self, shape, dtype, default_value=None):
      self.shape, self.dtype, self.default_value = list(shape), tfsim.as_dtype(dtype), default_value

  def parse_single_example(serialized, features, example_names=None, name=None):
    """An example is a pickled dictionary of flat arrays here."""
    import pickle
    got = pickle.loads(bytes(np.asarray(convert_to_tensor(serialized).numpy(), object)[()]))
    out = {}
    for n, f in features.items():
      if n not in got:
        if f.default_value is None:
          raise InvalidArgumentError('Feature: %s (data type: %s) is required but could not be found.' % (n, f.dtype))
        v = np.full(f.shape, f.default_value)
      else:
        v = got[n]
        kind = 'float32' if v.dtype.kind == 'f' else 'int64' if v.dtype.kind == 'i' else 'string'
        _need(f.dtype == kind, 'Key: %s.  Data types don\'t match. Expected type: %s', n, f.dtype)
        _need(v.size == int(np.prod(f.shape)), 'Key: %s.  Number of values != expected.', n)
      out[n] = call('ParseExample', lambda x: x.reshape(f.shape), v)
    return out
  put('io.FixedLenFeature', FixedLenFeature)
  put('io.parse_single_example', parse_single_example)
