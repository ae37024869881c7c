"""Stub kernels for the Sim Agents code: the rest of the tf functions, tensorflow_probability and scikit-learn."""
import sys, types
import numpy as np
import tfsim, tfeager
from tfsim import KERNELS, Tensor, _op, _binary, _dt, _need, convert_to_tensor, InvalidArgumentError


def _gather(a, x, i):
  b, ax = a['batch_dims'], a['axis']
  ax = ax + x.ndim if ax < 0 else ax
  b = b + i.ndim if b < 0 else b
  ax = max(ax, b)
  _need(x.shape[:b] == i.shape[:b], 'batch dims of %r and %r', x.shape, i.shape)
  _need(i.size == 0 or (i.min() >= 0 and i.max() < x.shape[ax]), 'indices are not in [0, %d)', x.shape[ax])
  if not b:
    return np.take(x, i, ax)
  if ax == b:
    n = int(np.prod(x.shape[:b], dtype=int))
    out = x.reshape((n,) + x.shape[b:])[np.arange(n)[:, None], i.reshape(n, -1)]
    return out.reshape(x.shape[:b] + i.shape[b:] + x.shape[b + 1:])
  out = np.zeros(x.shape[:ax] + i.shape[b:] + x.shape[ax + 1:], x.dtype)
  for k in np.ndindex(*x.shape[:b]):
    out[k] = np.take(x[k], i[k], ax - b)
  return out


def _histogram(a, x, edges):
  ax = a['axis']
  _need(x.dtype == edges.dtype, 'histogram: dtypes')
  x = x.reshape(-1) if ax is None else np.moveaxis(x, ax, 0)
  k = np.searchsorted(edges, x.reshape(-1), side='right').reshape(x.shape) - 1
  n = len(edges) - 1
  k = np.where(x == edges[-1], n - 1, np.where(np.isnan(x), n, k))
  return np.stack([np.sum(k == j, axis=0) for j in range(n)]).astype(x.dtype)


def _categorical(a, p, k):
  shape = np.broadcast_shapes(p.shape[:-1], k.shape)
  lp = np.log(p.astype(np.float64))
  lp = lp - np.logaddexp.reduce(lp, axis=-1, keepdims=True)
  lp = np.broadcast_to(lp, shape + p.shape[-1:])
  k = np.broadcast_to(k, shape)
  return np.take_along_axis(lp, k[..., None].astype(np.int64), -1)[..., 0].astype(p.dtype)


KERNELS.update(GatherB=_gather, Histogram=_histogram, CategoricalLogProb=_categorical, Repeat=lambda a, x: np.repeat(x, a['n'], a['axis']),
               LinSpace=lambda a, x, y: np.linspace(x, y, a['n']).astype(np.float32), FloorMod=lambda a, x, y: np.mod(x, y).astype(x.dtype),
               Eye=lambda a: np.eye(a['n'], a['m'], dtype=a['dtype']), Atan2=lambda a, x, y: np.arctan2(x, y), Atan=lambda a, x: np.arctan(x),
               TopK=lambda a, x: np.argsort(x, kind='stable'))
for _n in ('GatherB', 'Histogram', 'CategoricalLogProb', 'Repeat', 'LinSpace', 'FloorMod', 'Eye', 'Atan2', 'Atan'):
  tfeager._wrap(_n)


class Categorical:

  def __init__(self, logits=None, probs=None, **_):
    if probs is None:
      raise tfsim.Unsupported('Categorical of logits')
    self.probs = convert_to_tensor(probs)

  def log_prob(self, value, name='log_prob'):
    return _op('CategoricalLogProb', [self.probs, value])

  def prob(self, value, name='prob'):
    return _op('Exp', [self.log_prob(value)])


class KernelDensity:

  def __init__(self, bandwidth=1.0, kernel='gaussian', **k):
    if kernel != 'gaussian' or k:
      raise tfsim.Unsupported('kernel %r' % kernel)
    self.h = bandwidth

  @staticmethod
  def check(x):
    x = np.asarray(x, np.float64)
    if x.ndim != 2 or not len(x) or not np.isfinite(x).all():
      raise ValueError('KernelDensity: bad samples of shape %r' % (x.shape,))
    return x

  def fit(self, X, y=None):
    self.x = self.check(X)
    return self

  def score_samples(self, X):
    d = ((self.check(X)[:, None] - self.x[None]) ** 2).sum(-1)
    n = self.x.shape[1]
    l = -d / (2 * self.h**2) - n * np.log(np.sqrt(2 * np.pi) * self.h)
    return np.logaddexp.reduce(l, axis=1) - np.log(len(self.x))


def extend(m):

  def assert_rank(x, rank, message=None, name=None):
    n = len(convert_to_tensor(x).shape)
    if n != rank:
      raise ValueError('%s Tensor  must have rank %d.  Received rank %d' % (message or '', rank, n))
  m.assert_rank = m.debugging.assert_rank = assert_rank

  def assert_equal(x, y, message=None, summarize=None, name=None):
    r = _binary('Equal', convert_to_tensor(x), convert_to_tensor(y))
    if not np.all(r.numpy()):
      raise InvalidArgumentError(message or 'assert_equal')
  m.assert_equal = m.debugging.assert_equal = assert_equal

  def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
    return _op('GatherB', [params, indices], axis=batch_dims if axis is None else int(axis), batch_dims=int(batch_dims))
  m.gather = gather

  def repeat(input, repeats, axis=None, name=None):
    r = convert_to_tensor(repeats)
    if len(r.shape):
      raise tfsim.Unsupported('repeat by a vector')
    return _op('Repeat', [input], n=int(r), axis=axis)
  m.repeat = repeat
  m.linspace = lambda start, stop, num, name=None, axis=0: _op(
      'LinSpace', [convert_to_tensor(start), convert_to_tensor(stop)], n=int(num))
  m.eye = lambda num_rows, num_columns=None, batch_shape=None, dtype=m.float32, name=None: _op(
      'Eye', [], n=int(num_rows), m=int(num_rows if num_columns is None else num_columns), dtype=_dt(dtype))

  def ensure_shape(x, shape, name=None):
    have = tuple(x.shape)
    if len(have) != len(shape) or any(w is not None and int(w) != h for w, h in zip(shape, have)):
      raise InvalidArgumentError('Shape of tensor %r is not compatible with %r' % (have, list(shape)))
    return _op('Identity', [x])
  m.ensure_shape = ensure_shape
  m.math.mod = m.math.floormod = lambda x, y, name=None: _binary('FloorMod', x, y)
  m.atan2 = m.math.atan2 = lambda y, x, name=None: _binary('Atan2', y, x)
  m.atan = m.math.atan = lambda x, name=None: _op('Atan', [x])
  arg = lambda n: lambda input, axis=None, output_type=None, name=None: _op(n, [input], axis=0 if axis is None else int(axis))
  m.argmax = m.math.argmax = arg('ArgMax')
  m.argmin = m.math.argmin = arg('ArgMin')
  m.where = lambda condition, x=None, y=None, name=None: tfsim.where(condition) if x is None else tfsim.where(
      condition, *_same(x, y))
  for f in ('logical_and', 'logical_or', 'logical_not', 'equal', 'not_equal', 'greater', 'greater_equal', 'less', 'less_equal', 'maximum',
            'minimum', 'add', 'subtract', 'multiply', 'abs', 'cos', 'sin', 'square', 'sqrt', 'exp', 'log', 'sign', 'reduce_max',
            'reduce_min', 'reduce_sum', 'reduce_mean', 'reduce_any', 'reduce_all', 'reduce_prod', 'cumsum'):
    if f in m.__dict__:
      setattr(m.math, f, getattr(m, f))
  for f in ('einsum', 'matmul'):
    setattr(m.linalg, f, getattr(m, f))
  m.nest = types.SimpleNamespace(map_structure=_map)
  # As in the C implementations of protobuf, anything with __index__ sets an enum.
  from google.protobuf.internal import type_checkers
  orig = type_checkers.EnumValueChecker.CheckValue
  type_checkers.EnumValueChecker.CheckValue = lambda s, v: orig(s, int(v) if isinstance(v, Tensor) else v)
  tfp = types.ModuleType('tensorflow_probability')
  tfp.stats = types.SimpleNamespace(histogram=lambda x, edges, axis=None, name=None: _op(
      'Histogram', [x, edges], axis=axis))
  tfp.distributions = types.SimpleNamespace(Categorical=Categorical)
  sys.modules['tensorflow_probability'] = tfp
  sk = types.ModuleType('sklearn')
  sk.__path__ = []
  nb = types.ModuleType('sklearn.neighbors')
  nb.KernelDensity = KernelDensity
  sk.neighbors = nb
  sys.modules.update({'sklearn': sk, 'sklearn.neighbors': nb})


def _map(f, x):
  return type(x)(_map(f, v) for v in x) if isinstance(x, (list, tuple)) else {k: _map(f, v) for k, v in x.items()} if isinstance(
      x, dict) else f(x)


def _same(x, y):
  """Python numbers take the type of the other branch."""
  if isinstance(x, Tensor) and not isinstance(y, Tensor):
    y = convert_to_tensor(y, dtype=x.dtype)
  elif isinstance(y, Tensor) and not isinstance(x, Tensor):
    x = convert_to_tensor(x, dtype=y.dtype)
  return x, y
