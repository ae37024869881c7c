"""The eager half of the TensorFlow stub: more kernels, variables and Keras metrics with attribute tracking."""
import re, types
import numpy as np
import tfsim
from tfsim import KERNELS, Tensor, _op, _binary, _dt, _need, convert_to_tensor, InvalidArgumentError


def _scatter(a, i, u, s):
  out = np.zeros([int(v) for v in s], u.dtype)
  _put(out, i, u, True)
  return out


def _put(out, i, u, add):
  d = i.shape[-1]
  _need(i.shape[:-1] + out.shape[d:] == u.shape, 'updates %r for indices %r of %r', u.shape, i.shape, out.shape)
  _inside(i, out.shape[:d], 'indices do not index %r' % (out.shape,))
  t = tuple(np.moveaxis(i, -1, 0))
  if not i.size and i.shape[-1]:
    return
  if not add:
    for k in np.ndindex(*i.shape[:-1]):
      out[tuple(int(v) for v in i[k])] = u[k]
  elif u.dtype == bool:
    np.logical_or.at(out, t, u)
  else:
    np.add.at(out, t, u)


def _inside(i, shape, what):
  if i.size:
    _need((i >= 0).all() and (i < np.array(shape, np.int64)).all(), '%s', what)


def _tensor_scatter(a, x, i, u):
  out = np.array(x)
  _put(out, i, u, False)
  return out


def _gather_nd(a, x, i):
  d = i.shape[-1]
  _inside(i, x.shape[:d], 'indices do not index the params')
  return x[tuple(np.moveaxis(i, -1, 0))]


def _norm(a, x):
  return np.sqrt(np.sum(x * x, axis=a['axis'], keepdims=a['keepdims'])).astype(x.dtype)


def _split(a, x):
  n = a['n']
  if isinstance(n, (list, tuple)):
    _need(sum(n) == x.shape[a['axis']], 'split sizes')
    return tuple(np.split(x, np.cumsum(n)[:-1], a['axis']))
  _need(x.shape[a['axis']] % n == 0, 'split of %r into %d', x.shape, n)
  return tuple(np.split(x, n, a['axis']))


def _mask(a, x, m):
  ax = a.get('axis') or 0
  _need(x.shape[ax:ax + m.ndim] == m.shape, 'mask of shape %r for %r', m.shape, x.shape)
  return x[(slice(None),) * ax + (m,)]


def _inv(a, x):
  try:
    return np.linalg.inv(x).astype(x.dtype)
  except np.linalg.LinAlgError:
    raise InvalidArgumentError('Input is not invertible.')


def _divnn(a, x, y):
  _need(x.dtype == y.dtype, 'DivNoNan: dtypes')
  with np.errstate(all='ignore'):
    return np.where(y == 0, np.zeros((), x.dtype), np.divide(x, y)).astype(x.dtype)


KERNELS.update(
    Exp=lambda a, x: np.exp(x), Log=lambda a, x: np.log(x), Sqrt=lambda a, x: np.sqrt(x), Square=lambda a, x: x * x,
    Cos=lambda a, x: np.cos(x), Sin=lambda a, x: np.sin(x), Sign=lambda a, x: np.sign(x),
    Pow=lambda a, x, y: np.power(x, y).astype(x.dtype), DivNoNan=_divnn, MulNoNan=lambda a, x, y: np.where(y == 0, 0, x * y).astype(x.dtype),
    ClipByValue=lambda a, x, l, h: np.minimum(np.maximum(x, l), h), Norm=_norm, Inv=_inv, Split=_split, BooleanMask=_mask,
    Einsum=lambda a, *xs: np.einsum(a['eq'], *xs), ScatterNd=_scatter, TensorScatterUpdate=_tensor_scatter, GatherNd=_gather_nd,
    BroadcastTo=lambda a, x, s: np.broadcast_to(x, [int(v) for v in s]), Meshgrid=lambda a, *xs: tuple(np.meshgrid(*xs, indexing=a['ij'])),
    MatMul=lambda a, x, y: np.matmul(x, y), LogicalXor=lambda a, x, y: np.logical_xor(x, y), Assign=lambda a, x: x, AssignAdd=lambda a, x: x,
    Cumsum=lambda a, x: np.cumsum(x, a['axis'], dtype=x.dtype), Sort=lambda a, x: np.sort(x, a['axis'], kind='stable'),
    ArgMax=lambda a, x: np.argmax(x, a['axis']), ArgMin=lambda a, x: np.argmin(x, a['axis']),
    Unstack=lambda a, x: tuple(np.moveaxis(x, a['axis'], 0)), Minimum3=lambda a, x: x, IsNan=lambda a, x: np.isnan(x),
    IsFinite=lambda a, x: np.isfinite(x), Py=lambda a, *xs: a['fn'](*xs))


def _wrap(name):
  f = KERNELS[name]

  def k(a, *xs):
    try:
      return f(a, *xs)
    except ValueError as e:
      raise InvalidArgumentError('%s: %s' % (name, e))
  KERNELS[name] = k


for _n in list(KERNELS):
  _wrap(_n)


class Variable:
  """An eager variable; every assignment is one op that may fail."""

  def __init__(self, initial_value=0.0, trainable=None, name=None, dtype=None, **_):
    self._v = convert_to_tensor(initial_value, dtype=dtype)
    self.name = (name or 'Variable') + ':0'

  dtype = property(lambda s: s._v.dtype)
  shape = property(lambda s: s._v.shape)

  def value(self):
    return self._v

  read_value = value

  def numpy(self):
    return self._v.numpy()

  def assign(self, value, **_):
    v = _op('Assign', [convert_to_tensor(value, dtype=None if isinstance(value, Tensor) else self.dtype)])
    if v.dtype != self.dtype or v.shape != self.shape:
      raise ValueError('Cannot assign %r %r to a variable of %r %r' % (v.dtype, v.shape, self.dtype, self.shape))
    self._v = v
    return self

  def assign_add(self, delta, **_):
    return self.assign(_op('AssignAdd', [_binary('Add', self._v, delta)]))

  def assign_sub(self, delta, **_):
    return self.assign(_op('AssignAdd', [_binary('Sub', self._v, delta)]))

  def __hash__(self):
    return id(self)

  __eq__ = lambda s, o: s is o

  def __array__(self, dtype=None):
    return self._v.__array__(dtype)

  def __getattr__(self, k):
    if k.startswith('_'):
      raise AttributeError(k)
    return getattr(self._v, k)


for _m in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'gt', 'ge', 'lt', 'le', 'getitem'):
  setattr(Variable, '__%s__' % _m, lambda s, *a, m=_m: getattr(s._v, '__%s__' % m)(*a))

_names = {}


def _default_name(cls):
  n = re.sub('([a-z0-9])([A-Z])', r'\1_\2', re.sub('(.)([A-Z][a-z0-9]+)', r'\1_\2', cls.__name__)).lower()
  k = _names[n] = _names.get(n, -1) + 1
  return n if k == 0 else '%s_%d' % (n, k)


def _walk(v, out, seen):
  if isinstance(v, Metric):
    if id(v) not in seen:
      seen.add(id(v))
      v._collect(out, seen)
  elif isinstance(v, Variable):
    if id(v) not in seen:
      seen.add(id(v))
      out.append(v)
  elif type(v) in (list, tuple) or hasattr(type(v), '_fields'):
    for x in v:
      _walk(x, out, seen)
  elif type(v) is dict:
    for x in v.values():
      _walk(x, out, seen)


class Metric:
  """tf.keras.metrics.Metric: variables of nested metrics count if they are reachable through tracked attributes."""

  def __init__(self, name=None, dtype=None, **_):
    self.name = name if name is not None else _default_name(type(self))
    self._dtype = 'float32'
    self._own = []

  @property
  def dtype(self):
    return self._dtype

  def _collect(self, out, seen):
    for k, v in list(self.__dict__.items()):
      _walk(v, out, seen)

  @property
  def variables(self):
    out = []
    self._collect(out, {id(self)})
    return out

  weights = non_trainable_weights = non_trainable_variables = variables
  metrics = property(lambda s: [])

  def add_weight(self, name=None, shape=(), initializer=None, dtype=None, aggregation=None, synchronization=None, **_):
    if initializer in (None, 'zeros', 'Zeros'):
      v = np.zeros(tuple(shape), tfsim.as_dtype(dtype or 'float32').np)
    elif initializer in ('ones', 'Ones'):
      v = np.ones(tuple(shape), tfsim.as_dtype(dtype or 'float32').np)
    else:
      raise tfsim.Unsupported('initializer %r' % (initializer,))
    v = Variable(v, name=name)
    self._own.append(v)
    return v

  def reset_state(self):
    for v in self.variables:
      v.assign(np.zeros(v.shape, v.dtype.np))

  def reset_states(self):
    return self.reset_state()

  def merge_state(self, metrics):
    for m in metrics:
      if len(m.weights) != len(self.weights):
        raise ValueError('Metric %s is not compatible with %s' % (m.name, self.name))
      for v, w in zip(self.weights, m.weights):
        v.assign_add(w.value())

  def update_state(self, *a, **k):
    raise NotImplementedError('Must be implemented in subclasses.')

  def result(self):
    raise NotImplementedError('Must be implemented in subclasses.')

  def __call__(self, *a, **k):
    self.update_state(*a, **k)
    return self.result()


def _static_squeeze(x, w):
  """Keras' squeeze_or_expand_dimensions for a weight."""
  wr, xr = len(w.shape), len(x.shape)
  if wr == 0:
    return w
  if wr - xr == 1 and w.shape[-1] == 1:
    return _op('Squeeze', [w], axis=-1)
  if xr - wr == 1:
    return _op('ExpandDims', [w], axis=-1)
  return w


def _broadcast_weights(x, w):
  ws, xs = tuple(w.shape), tuple(x.shape)
  if ws and (len(ws) != len(xs) or any(a not in (1, b) for a, b in zip(ws, xs))):
    raise ValueError('weights can not be broadcast to values. values.shape=%r. weights.shape=%r.' % (xs, ws))
  return _op('BroadcastTo', [w, np.array(xs, np.int32)])


def _f32(x):
  x = convert_to_tensor(x)
  return x if x.dtype == 'float32' else _op('Cast', [x], dtype=np.float32)


class Reduce(Metric):

  def __init__(self, name=None, dtype=None):
    super().__init__(name=name, dtype=dtype)
    self.total = self.add_weight('total')
    if self.with_count:
      self.count = self.add_weight('count')

  def update_state(self, values, sample_weight=None):
    x = _f32(values)
    if sample_weight is not None:
      w = _f32(sample_weight)
      w = _static_squeeze(x, w)
      try:
        w = _broadcast_weights(x, w)
      except ValueError:
        nd, wd = len(x.shape), len(w.shape)
        red = _op('Sum' if not self.with_count else 'Mean', [x], axis=tuple(range(wd, nd)), keepdims=False)
        x = red
        if tuple(x.shape) != tuple(w.shape):
          raise InvalidArgumentError('Incompatible shapes: %r vs. %r' % (x.shape, w.shape))
      x = _binary('Mul', x, w)
    total = self.total.assign_add(_op('Sum', [x], axis=None, keepdims=False))
    if not self.with_count:
      return total
    n = _op('Sum', [w], axis=None, keepdims=False) if sample_weight is not None else np.float32(np.prod(x.shape))
    return self.count.assign_add(n)

  def result(self):
    if self.with_count:
      return _op('DivNoNan', [self.total.value(), self.count.value()])
    return _op('Identity', [self.total.value()])


class Mean(Reduce):
  with_count = True

  def __init__(self, name='mean', dtype=None):
    super().__init__(name=name, dtype=dtype)


class Sum(Reduce):
  with_count = False

  def __init__(self, name='sum', dtype=None):
    super().__init__(name=name, dtype=dtype)


class Binary(Metric):

  def __init__(self, thresholds=None, top_k=None, class_id=None, name=None, dtype=None):
    super().__init__(name=name, dtype=dtype)
    if top_k is not None or class_id is not None or isinstance(thresholds, (list, tuple)):
      raise tfsim.Unsupported('thresholds, top_k or class_id')
    self.threshold = 0.5 if thresholds is None else thresholds
    self.true_positives = self.add_weight('true_positives', shape=(1,))
    self.other = self.add_weight('false', shape=(1,))

  def update_state(self, y_true, y_pred, sample_weight=None):
    t, p = _f32(y_true), _f32(y_pred)
    t.shape.assert_is_compatible_with(p.shape)
    if sample_weight is not None:
      w = _broadcast_weights(p, _static_squeeze(p, _f32(sample_weight)))
    else:
      w = np.ones(p.shape, np.float32)
    pos = _f32(_binary('Greater', p, np.float32(self.threshold)))
    neg = _binary('Sub', np.float32(1), pos)
    t = _f32(_op('Cast', [t], dtype=np.bool_))
    tp = _binary('Mul', _binary('Mul', t, pos), w)
    a, b = (_binary('Sub', np.float32(1), t), pos) if self.precision else (t, neg)
    x = _binary('Mul', _binary('Mul', a, b), w)
    ups = [self.true_positives.assign_add(_op('Reshape', [_op('Sum', [tp], axis=None, keepdims=False), np.array([1], np.int32)]))]
    ups.append(self.other.assign_add(_op('Reshape', [_op('Sum', [x], axis=None, keepdims=False), np.array([1], np.int32)])))
    return ups

  def result(self):
    tp = self.true_positives.value()
    return _op('DivNoNan', [tp, _binary('Add', tp, self.other.value())])[0]


class Precision(Binary):
  precision = True


class Recall(Binary):
  precision = False


class AUC(Metric):
  """Area under the precision-recall curve, interpolated."""

  def __init__(self, num_thresholds=200, curve='ROC', summation_method='interpolation', name=None, dtype=None, **k):
    super().__init__(name=name, dtype=dtype)
    if str(curve) != 'PR' or summation_method != 'interpolation' or k or num_thresholds < 3:
      raise tfsim.Unsupported('this kind of AUC')
    n = num_thresholds
    self.thresholds = [-1e-7] + [(i + 1) / (n - 1) for i in range(n - 2)] + [1 + 1e-7]
    self.tp, self.fp, self.fn = [self.add_weight(x, shape=(n,)) for x in ('tp', 'fp', 'fn')]

  def update_state(self, y_true, y_pred, sample_weight=None):
    if sample_weight is not None:
      raise tfsim.Unsupported('weights of AUC')
    t, p = _f32(y_true), _f32(y_pred)
    t.shape.assert_is_compatible_with(p.shape)

    def k(a, t, p):
      _need((p >= 0).all(), 'predictions must be >= 0')
      _need((p <= 1).all(), 'predictions must be <= 1')
      t, p = t.reshape(-1) != 0, p.reshape(-1)
      on = p[None] > np.array(a['th'], np.float32)[:, None]
      return tuple(np.sum(x, axis=1).astype(np.float32) for x in (on & t, on & ~t, ~on & t))
    KERNELS['AucCounts'] = k
    for v, n in zip((self.tp, self.fp, self.fn), _op('AucCounts', [t, p], nout=3, th=self.thresholds)):
      v.assign_add(n)

  def result(self):

    def k(a, tp, fp, fn):
      div = lambda x, y: np.where(y == 0, np.float32(0), x / np.where(y == 0, np.float32(1), y))
      dtp, p = tp[:-1] - tp[1:], tp + fp
      slope = div(dtp, np.maximum(p[:-1] - p[1:], 0))
      rest = tp[1:] - slope * p[1:]
      ratio = np.where((p[:-1] > 0) & (p[1:] > 0), div(p[:-1], np.maximum(p[1:], 0)), np.float32(1))
      return np.float32(np.sum(div(slope * (dtp + rest * np.log(ratio)), np.maximum(tp[1:] + fn[1:], 0))))
    KERNELS['AucResult'] = k
    return _op('AucResult', [self.tp.value(), self.fp.value(), self.fn.value()])


def extend(m):
  """Adds the eager API to the stub module."""
  def unary(name):
    return lambda x, name=None, n=name: _op(n, [x])
  for f, n in dict(exp='Exp', log='Log', sqrt='Sqrt', square='Square', cos='Cos', sin='Sin', sign='Sign', negative='Neg').items():
    setattr(m, f, unary(n))
    setattr(m.math, f, getattr(m, f))
  m.pow = m.math.pow = lambda x, y, name=None: _binary('Pow', x, y)
  m.divide = m.math.divide = m.truediv = lambda x, y, name=None: _binary('RealDiv', x, y)
  m.math.divide_no_nan = lambda x, y, name=None: _binary('DivNoNan', x, y)
  m.math.multiply_no_nan = lambda x, y, name=None: _binary('MulNoNan', x, y)
  for f in ('reduce_prod', 'reduce_any', 'reduce_all', 'abs', 'subtract', 'multiply', 'greater_equal', 'less_equal', 'not_equal'):
    setattr(m.math, f, getattr(m, f))
  m.math.is_nan, m.math.is_finite = unary('IsNan'), unary('IsFinite')

  def clip(t, clip_value_min, clip_value_max, name=None):
    t = convert_to_tensor(t)
    conv = lambda v: v if isinstance(v, Tensor) else convert_to_tensor(v, dtype=t.dtype)
    return _op('ClipByValue', [t, conv(clip_value_min), conv(clip_value_max)])
  m.clip_by_value = clip
  ax = lambda a: tuple(a) if isinstance(a, list) else a
  lin = types.SimpleNamespace()
  lin.norm = m.norm = lambda tensor, ord='euclidean', axis=None, keepdims=None, name=None: _op(
      'Norm', [tensor], axis=ax(axis), keepdims=bool(keepdims))
  lin.inv = lambda input, adjoint=False, name=None: _op('Inv', [input])

  def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, a_is_sparse=False, b_is_sparse=False,
             output_type=None, name=None):
    t = lambda x: m.linalg.matrix_transpose(x)
    return _op('MatMul', [t(a) if transpose_a or adjoint_a else a, t(b) if transpose_b or adjoint_b else b])
  lin.matmul = m.matmul = matmul
  m.linalg = lin
  m.einsum = lambda eq, *xs, **k: _op('Einsum', list(xs), eq=eq.replace(' ', ''))

  def split(value, num_or_size_splits, axis=0, num=None, name='split'):
    value = convert_to_tensor(value)
    n = num_or_size_splits
    k = len(n) if isinstance(n, (list, tuple)) else int(n)
    r = _op('Split', [value], nout=k, n=n if isinstance(n, (list, tuple)) else k, axis=axis)
    return list(r) if k > 1 else [r]
  m.split = split

  def unstack(value, num=None, axis=0, name=None):
    value = convert_to_tensor(value)
    k = value.shape[axis]
    r = _op('Unstack', [value], nout=k, axis=axis) if k else []
    return list(r) if k > 1 else [r] if k else []
  m.unstack = unstack
  m.boolean_mask = lambda tensor, mask, axis=None, name=None: _op('BooleanMask', [tensor, mask], axis=axis)
  m.scatter_nd = lambda indices, updates, shape, name=None: _op('ScatterNd', [indices, updates, tfsim._shape(shape)])
  m.tensor_scatter_nd_update = lambda tensor, indices, updates, name=None: _op('TensorScatterUpdate', [tensor, indices, updates])
  m.gather_nd = lambda params, indices, name=None: _op('GatherNd', [params, indices])
  m.broadcast_to = lambda input, shape, name=None: _op('BroadcastTo', [input, tfsim._shape(shape)])
  m.meshgrid = lambda *a, indexing='xy': list(_op('Meshgrid', list(a), nout=len(a), ij=indexing))
  m.cumsum = lambda x, axis=0, name=None: _op('Cumsum', [x], axis=axis)

  def _arg(op, x, axis, out):
    r = _op(op, [x], axis=axis or 0)
    return r if out is None else _op('Cast', [r], dtype=_dt(out))
  m.sort = lambda values, axis=-1, direction='ASCENDING', name=None: _op('Sort', [values], axis=axis)
  m.argmax = lambda input, axis=None, output_type=None, name=None: _arg('ArgMax', input, axis, output_type)
  m.argmin = lambda input, axis=None, output_type=None, name=None: _arg('ArgMin', input, axis, output_type)
  def py_function(func=None, inp=None, Tout=None, name=None):
    r = func(*[convert_to_tensor(x) for x in inp])
    if isinstance(Tout, (list, tuple)):
      return [_op('Cast', [np.asarray(x)], dtype=_dt(d)) for x, d in zip(r, Tout)]
    return _op('Cast', [np.asarray(r)], dtype=_dt(Tout))
  m.py_function = m.numpy_function = py_function
  m.Variable = Variable
  keras = types.ModuleType('tensorflow.keras')
  metrics = types.ModuleType('tensorflow.keras.metrics')
  for c in (Metric, Mean, Sum, Precision, Recall, AUC):
    setattr(metrics, c.__name__, c)

  def missing(k):
    if k.startswith('__'):
      raise AttributeError(k)
    raise tfsim.Unsupported('tf.keras.' + k)
  keras.__getattr__ = metrics.__getattr__ = missing
  keras.metrics = metrics
  keras.backend = types.SimpleNamespace(epsilon=lambda: 1e-7)
  m.keras = keras
  import sys
  sys.modules['tensorflow.keras'] = keras
  import tfmore
  tfmore.extend(m)
  sys.modules['tensorflow.keras.metrics'] = metrics
  m.types = types.SimpleNamespace(experimental=types.SimpleNamespace(TensorLike=object))
