"""A small TensorFlow for simulations: eager tensors and a lazily executed graph.

The executor of the graph runs ready ops in a drawn order and lets drawn ops
fail; ops in flight at that moment may still finish. Reads and assignments of a
variable are separate ops, ordered only by data and control dependencies.
"""
import contextlib, sys, types
import numpy as np
import rt


Unsupported = rt.Unsupported


class OpError(Exception):

  def __init__(self, message='', *a):
    super().__init__(message)
    self.message = message


class InvalidArgumentError(OpError):
  pass


class ResourceExhaustedError(OpError):
  pass


class FailedPreconditionError(OpError):
  pass


class NotFoundError(OpError):
  pass


class DType:

  def __init__(self, name, np_type):
    self.name, self.as_numpy_dtype = name, np_type
    self.np = np.dtype(np_type)

  def __eq__(self, o):
    return o is not None and as_dtype(o).name == self.name

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return 'tf.' + self.name

  is_floating = property(lambda s: s.np.kind == 'f')
  is_integer = property(lambda s: s.np.kind in 'iu')
  base_dtype = property(lambda s: s)
  is_unsigned = property(lambda s: s.np.kind == 'u')
  is_bool = property(lambda s: s.np.kind == 'b')
  size = property(lambda s: s.np.itemsize)
  _info = property(lambda s: np.finfo(s.np) if s.np.kind == 'f' else np.iinfo(s.np))
  min = property(lambda s: s._info.min)
  max = property(lambda s: s._info.max)
  limits = property(lambda s: (s.min, s.max))


DTYPES = {n: DType(n, t) for n, t in dict(
    float16=np.float16, float32=np.float32, float64=np.float64, int8=np.int8, int16=np.int16, int32=np.int32,
    int64=np.int64, uint8=np.uint8, uint16=np.uint16, uint32=np.uint32, uint64=np.uint64, bool=np.bool_,
    string=np.object_).items()}


def as_dtype(d):
  if isinstance(d, DType):
    return d
  if isinstance(d, str):
    return DTYPES[d]
  n = np.dtype(d)
  for t in DTYPES.values():
    if t.np == n:
      return t
  raise TypeError('no such dtype: %r' % (d,))


class TensorShape(tuple):

  def as_list(self):
    return list(self)

  def __getitem__(self, i):
    r = tuple.__getitem__(self, i)
    return TensorShape(r) if isinstance(i, slice) else r

  def __add__(self, o):
    return TensorShape(tuple(self) + tuple(o))

  def __radd__(self, o):
    return TensorShape(tuple(o) + tuple(self))

  concatenate = __add__
  dims = property(as_list)

  def is_compatible_with(self, o):
    o = tuple(o)
    return len(self) == len(o) and all(a is None or b is None or a == b for a, b in zip(self, o))

  def assert_is_compatible_with(self, o):
    if not self.is_compatible_with(o):
      raise ValueError('Shapes %r and %r are incompatible' % (tuple(self), tuple(o)))

  def assert_has_rank(self, rank):
    if len(self) != rank:
      raise ValueError('Shape %r must have rank %d' % (tuple(self), rank))

  assert_same_rank = lambda self, o: self.assert_has_rank(len(o))

  def with_rank(self, rank):
    self.assert_has_rank(rank)
    return self

  rank = ndims = property(lambda s: len(s))

  def is_fully_defined(self):
    return True

  def num_elements(self):
    return int(np.prod(self))


class UnknownShape:
  rank = ndims = None
  dims = None

  def is_fully_defined(self):
    return False

  def as_list(self):
    raise ValueError('as_list() is not defined on an unknown TensorShape.')

  def __getitem__(self, i):
    return None

  def __iter__(self):
    raise ValueError('Cannot iterate over a shape with unknown rank.')

  def __len__(self):
    raise ValueError('Cannot take the length of shape with unknown rank.')


# ---------------------------------------------------------------- kernels


def _need(cond, text, *a):
  if not cond:
    raise InvalidArgumentError(text % a)


def k_concat(attrs, *xs):
  ax = attrs['axis']
  for x in xs:
    _need(x.ndim >= 1, 'ConcatOp : expected concatenating dimensions, got a scalar')
    _need(x.dtype == xs[0].dtype, 'ConcatOp : dtypes differ')
    a, b = list(x.shape), list(xs[0].shape)
    _need(len(a) == len(b), 'ConcatOp : Ranks of all input tensors should match')
    a[ax] = b[ax] = 0
    _need(a == b, 'ConcatOp : Dimensions of inputs should match: %r vs. %r', x.shape, xs[0].shape)
  return np.concatenate(xs, axis=ax)


def k_reshape(attrs, x, s):
  try:
    return x.reshape([int(v) for v in s])
  except ValueError as e:
    if x.size == 0 and list(s).count(-1) == 1:
      t = [int(v) for v in s if v != -1]
      if all(t):
        return x.reshape([0 if v == -1 else int(v) for v in s])
    raise InvalidArgumentError('reshape of %r to %r' % (x.shape, [int(v) for v in s]))


def k_assert(attrs, c, *data):
  _need(bool(np.all(c)), 'assertion failed')
  return np.zeros(0, np.float32)


def k_select(attrs, *xs):
  if len(xs) == 1:
    return np.argwhere(xs[0]).astype(np.int64)
  return np.where(*xs)


def k_gather(attrs, x, i):
  ax = attrs['axis']
  _need(i.size == 0 or (i.min() >= 0 and i.max() < x.shape[ax]), 'indices out of range')
  return np.take(x, i, axis=ax)


def k_index(attrs, x):
  try:
    return x[attrs['key']]
  except IndexError as e:
    raise InvalidArgumentError('slice index: %s' % e)


def k_metrics(attrs, *xs):
  return METRICS(attrs['op'], attrs['config'], dict(zip(attrs['names'], xs)))


def _red(f):
  if f in (np.sum, np.prod):
    return lambda a, x: f(x, axis=a['axis'], keepdims=a['keepdims'], dtype=x.dtype)
  return lambda a, x: f(x, axis=a['axis'], keepdims=a['keepdims']) if x.size or f not in (np.max, np.min) else (
      np.full((), -np.inf if f is np.max else np.inf, x.dtype))


KERNELS = dict(
    Const=lambda a: a['value'], ConcatV2=k_concat, Reshape=k_reshape,
    Shape=lambda a, x: np.array(x.shape, a['out'].np), Size=lambda a, x: np.array(x.size, a['out'].np),
    Rank=lambda a, x: np.array(x.ndim, np.int32), Pack=lambda a, *x: np.stack(x, a['axis']),
    Fill=lambda a, s, v: np.full([int(t) for t in s], v, v.dtype), ZerosLike=lambda a, x: np.zeros(x.shape, a['dtype'] or x.dtype),
    OnesLike=lambda a, x: np.ones(x.shape, a['dtype'] or x.dtype), Select=k_select, Identity=lambda a, x: x,
    StridedSlice=k_index, Cast=lambda a, x: x.astype(a['dtype']), ExpandDims=lambda a, x: np.expand_dims(x, a['axis']),
    Squeeze=lambda a, x: np.squeeze(x, a['axis']), Transpose=lambda a, x: np.transpose(x, a['perm']),
    Tile=lambda a, x, m: np.tile(x, [int(t) for t in m]), GatherV2=k_gather, Assert=k_assert,
    Max=_red(np.max), Min=_red(np.min), Sum=_red(np.sum), Mean=_red(np.mean), Prod=_red(np.prod), All=_red(np.all),
    Any=_red(np.any), Metrics=k_metrics, NoOp=lambda a: np.zeros(0, np.float32),
    Range=lambda a, x, y, z: np.arange(x, y, z, dtype=x.dtype) if a['dtype'] is None else np.arange(x, y, z).astype(a['dtype']),
    AsString=lambda a, x: np.array([str(v).encode() for v in x.reshape(-1)], object).reshape(x.shape),
    BooleanMask=lambda a, x, m: x[m], LogicalNot=lambda a, x: np.logical_not(x), Neg=lambda a, x: -x, Abs=lambda a, x: abs(x))
BINARY = dict(Add=np.add, Sub=np.subtract, Mul=np.multiply, Greater=np.greater, GreaterEqual=np.greater_equal, Less=np.less,
              LessEqual=np.less_equal, Equal=np.equal, NotEqual=np.not_equal, LogicalAnd=np.logical_and,
              LogicalOr=np.logical_or, Maximum=np.maximum, Minimum=np.minimum, FloorDiv=np.floor_divide, RealDiv=np.divide,
              FloorMod=np.mod)
for _n, _f in BINARY.items():
  def _k(a, x, y, f=_f, n=_n):
    _need(x.dtype == y.dtype, '%s: dtypes %s and %s', n, x.dtype, y.dtype)
    return f(x, y)
  KERNELS[_n] = _k
METRICS = None
ON_OP = None  # called with the name of every op about to run; may raise


def _run_kernel(op, attrs, xs):
  if ON_OP:
    ON_OP(op)
  r = KERNELS[op](attrs, *xs)
  return r if isinstance(r, tuple) else (np.asarray(r),)


# ---------------------------------------------------------------- tensors


class Graph:

  def __init__(self):
    self.vars = {}
    self.collections = {}
    self.nodes = []
    self.control = []

  @contextlib.contextmanager
  def as_default(self):
    _graphs.append(self)
    try:
      yield self
    finally:
      _graphs.pop()

  def finalize(self):
    pass

  def get_collection(self, k):
    return list(self.collections.get(k, []))

  @contextlib.contextmanager
  def control_dependencies(self, deps):
    if deps is None:
      old, self.control = self.control, []
      try:
        yield
      finally:
        self.control = old
      return
    mine = [_node_of(d) for d in deps]
    self.control.extend(mine)
    try:
      yield
    finally:
      del self.control[len(self.control) - len(mine):]


_graphs = []
_scopes = []


def executing_eagerly():
  return not _graphs


class Operation:

  def __init__(self, op, inputs, attrs, nout, control=()):
    g = _graphs[-1]
    self.type, self.inputs, self.attrs, self.graph = op, list(inputs), attrs, g
    self.control_inputs = list(dict.fromkeys(list(g.control) + list(control)))
    self.outputs = [Tensor(node=self, index=i) for i in range(nout)]
    self.id = len(g.nodes)
    self.name = '%s_%d' % (op, self.id)
    g.nodes.append(self)

  def run(self, feed_dict=None, session=None):
    (session or Session._stack[-1]).run(self, feed_dict)


class Tensor:
  __array_priority__ = 100

  def __init__(self, value=None, node=None, index=0):
    if value is not None:
      value = np.array(value)
      value.setflags(write=False)
    self._value, self.op, self.index = value, node, index

  def numpy(self):
    if self._value is None:
      raise AttributeError("'Tensor' object has no attribute 'numpy'")
    return self._value.copy() if self._value.ndim else self._value[()]

  @property
  def dtype(self):
    if self._value is not None:
      return as_dtype(self._value.dtype)
    return as_dtype(_dtype_of(self))

  @property
  def shape(self):
    if self._value is not None:
      return TensorShape(self._value.shape)
    s = self.op.attrs.get('static')
    return UnknownShape() if s is None else TensorShape(s)

  def get_shape(self):
    return self.shape

  def set_shape(self, s):
    pass

  def eval(self, feed_dict=None, session=None):
    return (session or Session._stack[-1]).run(self, feed_dict)

  def __array__(self, dtype=None):
    if self._value is None:
      raise NotImplementedError('Cannot convert a symbolic tensor to a numpy array.')
    return self._value.astype(dtype) if dtype else np.array(self._value)

  def __getitem__(self, key):
    def plain(k):
      if isinstance(k, slice):
        return slice(*(plain(v) for v in (k.start, k.stop, k.step)))
      if isinstance(k, Tensor):
        if k._value is None:
          raise Unsupported('index by a symbolic tensor')
        return int(k._value)
      return k
    key = tuple(plain(k) for k in key) if isinstance(key, tuple) else plain(key)
    return _op('StridedSlice', [self], key=key)

  def __iter__(self):
    if self._value is None:
      raise TypeError('Iterating over a symbolic tensor is not allowed')
    return (Tensor(v) for v in self._value)

  def __len__(self):
    if self._value is None:
      raise TypeError('len is not well defined for a symbolic tensor')
    return len(self._value)

  def __bool__(self):
    if self._value is None:
      raise TypeError('Using a symbolic tensor as a Python bool is not allowed')
    return bool(self._value)

  def __int__(self):
    return int(self._value)

  def __float__(self):
    return float(self._value)

  def __index__(self):
    return int(self._value)

  def __hash__(self):
    return id(self)

  def __eq__(self, o):
    if o is None:
      return False
    return _binary('Equal', self, o)

  def __ne__(self, o):
    if o is None:
      return True
    return _binary('NotEqual', self, o)

  def __invert__(self):
    return _op('LogicalNot', [self])

  def __neg__(self):
    return _op('Neg', [self])


for _m, _n in dict(add='Add', sub='Sub', mul='Mul', gt='Greater', ge='GreaterEqual', lt='Less', le='LessEqual',
                   truediv='RealDiv', floordiv='FloorDiv', mod='FloorMod').items():
  setattr(Tensor, '__%s__' % _m, lambda s, o, n=_n: _binary(n, s, o))
  setattr(Tensor, '__r%s__' % _m, lambda s, o, n=_n: _binary(n, o, s))
setattr(Tensor, '__and__', lambda s, o: _binary('LogicalAnd', s, o))
setattr(Tensor, '__or__', lambda s, o: _binary('LogicalOr', s, o))


def _dtype_of(t):
  n = t.op
  a = n.attrs
  if n.type in ('Placeholder', 'Read', 'Assign', 'Const'):
    return a['dtype'] if 'dtype' in a else a['value'].dtype
  if a.get('dtype') is not None and n.type in ('Cast', 'ZerosLike', 'OnesLike'):
    return a['dtype']
  if n.type in ('Shape', 'Size'):
    return a['out']
  if n.type == 'AsString':
    return DTYPES['string']
  if n.type in ('Greater', 'GreaterEqual', 'Less', 'LessEqual', 'Equal', 'NotEqual', 'LogicalAnd', 'LogicalOr', 'LogicalNot'):
    return DTYPES['bool']
  if n.type == 'Metrics':
    return DTYPES['float32']
  if n.type == 'Select':
    return _dtype_of(n.inputs[1])
  if n.type == 'Fill':
    return _dtype_of(n.inputs[1])
  if n.type == 'Range' and a['dtype'] is not None:
    return as_dtype(a['dtype'])
  if n.inputs:
    return _dtype_of(n.inputs[0])
  raise Unsupported('dtype of ' + n.type)


def _node_of(x):
  if isinstance(x, Operation):
    return x
  if isinstance(x, Tensor):
    return x.op
  if isinstance(x, Variable):
    return x.value().op
  raise TypeError('not an operation: %r' % (x,))


def _op(name, inputs, nout=1, control=(), **attrs):
  inputs = [convert_to_tensor(x) for x in inputs]
  if executing_eagerly():
    out = [Tensor(v) for v in _run_kernel(name, attrs, [x._value for x in inputs])]
  else:
    for x in inputs:
      if x._value is not None:
        raise Unsupported('an eager tensor in a graph')
    out = Operation(name, inputs, attrs, nout, control).outputs
  return out if nout > 1 else out[0]


def _binary(name, a, b):
  if not isinstance(a, (Tensor, Variable)):
    a = convert_to_tensor(a, dtype=b.dtype)
  elif not isinstance(b, (Tensor, Variable)):
    b = convert_to_tensor(b, dtype=a.dtype)
  return _op(name, [a, b])


def _has_tensor(x):
  if isinstance(x, (Tensor, Variable)):
    return True
  return isinstance(x, (list, tuple)) and any(_has_tensor(v) for v in x)


def convert_to_tensor(value, dtype=None, name=None, dtype_hint=None, **_):
  if isinstance(value, Variable):
    return value.value()
  if isinstance(value, Tensor):
    if dtype is not None and value.dtype != dtype:
      raise ValueError('Tensor conversion requested dtype %s for Tensor with dtype %s' % (as_dtype(dtype).name, value.dtype.name))
    return value
  if value is None:
    raise ValueError('None values not supported.')
  if isinstance(value, (list, tuple)) and _has_tensor(value):
    t = next(v for v in value if isinstance(v, (Tensor, Variable)))
    return _op('Pack', [convert_to_tensor(v, dtype=None if isinstance(v, (Tensor, Variable)) else t.dtype) for v in value], axis=0)
  if isinstance(value, (bytes, str)):
    a = np.array(value.encode() if isinstance(value, str) else value, dtype=object)
  elif dtype is not None:
    a = np.asarray(value)
    if a.size and a.dtype.kind == 'f' and as_dtype(dtype).is_integer and not isinstance(value, np.ndarray):
      raise TypeError('Cannot convert %r to EagerTensor of dtype %s' % (value, as_dtype(dtype).name))
    a = a.astype(as_dtype(dtype).np)
  else:
    a = np.asarray(value)
    if not isinstance(value, (np.ndarray, np.generic)):
      if a.dtype == np.float64:
        a = a.astype(np.float32)
      elif a.dtype == np.int64:
        a = a.astype(np.int32)
  if executing_eagerly():
    return Tensor(a)
  return Operation('Const', [], dict(value=a), 1).outputs[0]


# ---------------------------------------------------------------- variables and sessions


class Variable:

  def __init__(self, initial, name, dtype, validate_shape):
    self.name, self._dtype, self.initial = name + ':0', as_dtype(dtype), initial
    self.validate_shape = validate_shape
    self.graph = _graphs[-1]
    with self.graph.control_dependencies(None):
      self._read = Operation('Read', [], dict(var=self, dtype=self._dtype), 1).outputs[0]
      self.initializer = Operation('Assign', [initial], dict(var=self, dtype=self._dtype), 1)

  dtype = property(lambda s: s._dtype)
  shape = property(lambda s: UnknownShape())

  def get_shape(self):
    return UnknownShape()

  op = property(lambda s: s.initializer)

  def value(self):
    return self._read

  def read_value(self):
    return Operation('Read', [], dict(var=self, dtype=self._dtype), 1).outputs[0]

  def initialized_value(self):
    return self._read

  def assign(self, value, use_locking=False, name=None, read_value=True):
    return assign(self, value)

  def __getitem__(self, k):
    return self.value()[k]

  def __hash__(self):
    return id(self)


for _m in ('add', 'sub', 'mul', 'gt', 'ge', 'lt', 'le'):
  setattr(Variable, '__%s__' % _m, lambda s, o, m=_m: getattr(s.value(), '__%s__' % m)(o))


def assign(ref, value, validate_shape=None, use_locking=None, name=None):
  return _assign(ref, value, False)


def _assign(ref, value, read):
  v = convert_to_tensor(value, dtype=None if isinstance(value, (Tensor, Variable)) else ref.dtype)
  if v.dtype != ref.dtype:
    raise TypeError("Input 'value' of 'Assign' Op has type %s that does not match type %s" % (v.dtype.name, ref.dtype.name))
  return Operation('Assign', [v], dict(var=ref, dtype=ref.dtype), 1).outputs[0]


class _Scope:
  pass


AUTO_REUSE = object()


@contextlib.contextmanager
def variable_scope(name, default_name=None, values=None, reuse=None, **_):
  _scopes.append((name or default_name, reuse))
  try:
    s = _Scope()
    s.name = s.original_name_scope = '/'.join(n for n, _ in _scopes if n)
    yield s
  finally:
    _scopes.pop()


def get_variable(name, shape=None, dtype=None, initializer=None, regularizer=None, trainable=None, collections=None,
                 caching_device=None, partitioner=None, validate_shape=True, use_resource=None, local=False, **_):
  g = _graphs[-1]
  full = '/'.join([n for n, _ in _scopes if n] + [name])
  reuse = next((r for _, r in reversed(_scopes) if r is not None), False)
  if full in g.vars:
    if reuse is False:
      raise ValueError('Variable %s already exists, disallowed.' % full)
    return g.vars[full]
  if reuse is True:
    raise ValueError('Variable %s does not exist' % full)
  dtype = as_dtype(dtype or 'float32')
  with g.control_dependencies(None):
    if callable(initializer) and shape is None:
      init = convert_to_tensor(initializer())
    elif callable(initializer):
      init = convert_to_tensor(initializer(shape, dtype=dtype))
    elif initializer is None:
      init = zeros(shape, dtype)
    else:
      init = convert_to_tensor(initializer, dtype=None if isinstance(initializer, Tensor) else dtype)
  v = Variable(init, full, dtype, validate_shape)
  g.vars[full] = v
  for c in collections or [GraphKeys.LOCAL_VARIABLES if local else GraphKeys.GLOBAL_VARIABLES]:
    g.collections.setdefault(c, []).append(v)
  return v


def get_local_variable(name, *a, **k):
  return get_variable(name, *a, local=True, **k)


class GraphKeys:
  GLOBAL_VARIABLES, LOCAL_VARIABLES, METRIC_VARIABLES, UPDATE_OPS = 'variables', 'local_variables', 'metric_variables', 'update_ops'


def local_variables():
  return _graphs[-1].get_collection(GraphKeys.LOCAL_VARIABLES)


def variables_initializer(vs, name=None):
  return group([v.initializer for v in vs])


def local_variables_initializer():
  return variables_initializer(local_variables())


class Session:
  _stack = []
  fault = None  # fault(op): raises to make an op fail

  def __init__(self, target='', graph=None, config=None):
    self.graph = graph or _graphs[-1]
    self.values = {}

  def __enter__(self):
    Session._stack.append(self)
    return self

  def __exit__(self, *a):
    Session._stack.pop()

  def run(self, fetches, feed_dict=None):
    roots = []

    def walk(f):
      if isinstance(f, (list, tuple)):
        for x in f:
          walk(x)
      elif isinstance(f, dict):
        for x in f.values():
          walk(x)
      else:
        roots.append(_node_of(f))
    walk(fetches)
    fed = {}
    for t, v in (feed_dict or {}).items():
      if isinstance(v, Tensor):
        raise TypeError('The value of a feed cannot be a tf.Tensor object.')
      fed[t.op] = np.asarray(v, dtype=_dtype_of(t).np if isinstance(_dtype_of(t), DType) else _dtype_of(t))
    need, stack = [], list(roots)
    seen = set()
    while stack:
      n = stack.pop()
      if n in seen:
        continue
      seen.add(n)
      need.append(n)
      if n not in fed:
        stack.extend(x.op for x in n.inputs)
        stack.extend(n.control_inputs)
    need.sort(key=lambda n: n.id)
    waiting, users = {}, {}
    for n in need:
      deps = set() if n in fed else {x.op for x in n.inputs} | set(n.control_inputs)
      waiting[n] = len(deps)
      for d in deps:
        users.setdefault(d, []).append(n)
    ready = [n for n in need if waiting[n] == 0]
    out, error = {}, None
    while ready:
      if error is not None and rt.S(2) == 0:
        break  # cancelled; what has not started does not run
      n = ready.pop(rt.S(len(ready)))
      rt.C.steps += 1
      try:
        if n in fed:
          out[n] = (fed[n],)
        else:
          if self.fault:
            self.fault(n)
          out[n] = self._exec(n, [out[x.op][x.index] for x in n.inputs])
      except OpError as e:
        rt.event('op %d %s fails' % (n.id, n.type))
        error = error or e
        continue
      rt.event('op %d' % n.id)
      for u in users.get(n, ()):
        waiting[u] -= 1
        if waiting[u] == 0:
          ready.append(u)
    if error is not None:
      raise error

    def build(f):
      if isinstance(f, (list, tuple)):
        return type(f)(build(x) for x in f) if not hasattr(f, '_fields') else type(f)(*[build(x) for x in f])
      if isinstance(f, dict):
        return {k: build(x) for k, x in f.items()}
      if isinstance(f, Operation):
        return None
      t = f.value() if isinstance(f, Variable) else f
      v = out[t.op][t.index]
      return v.copy() if v.ndim else v[()]
    return build(fetches)

  def _exec(self, n, xs):
    if n.type == 'Placeholder':
      raise InvalidArgumentError('You must feed a value for placeholder tensor')
    if n.type == 'Read':
      v = n.attrs['var']
      if v not in self.values:
        raise FailedPreconditionError('Attempting to use uninitialized value ' + v.name)
      return (self.values[v],)
    if n.type == 'Assign':
      self.values[n.attrs['var']] = np.array(xs[0])
      return (self.values[n.attrs['var']],)
    return _run_kernel(n.type, n.attrs, xs)


# ---------------------------------------------------------------- the tf.* surface


def concat(values, axis, name=None):
  if isinstance(values, (Tensor, Variable)):
    values = [values]
  hint = next((v.dtype for v in values if isinstance(v, (Tensor, Variable))), None)
  if not values:
    raise ValueError('concat of an empty list')
  values = [v if isinstance(v, (Tensor, Variable, np.ndarray)) else convert_to_tensor(v, dtype=hint) for v in values]
  return _op('ConcatV2', values, axis=int(axis))


def group(*inputs, **_):
  flat = []

  def walk(x):
    if isinstance(x, (list, tuple)):
      for y in x:
        walk(y)
    elif isinstance(x, dict):
      walk(list(x.values()))
    elif x is not None:
      flat.append(_node_of(x))
  walk(inputs)
  return Operation('NoOp', [], {}, 1, control=flat)


def control_dependencies(deps):
  if executing_eagerly():
    return contextlib.nullcontext()
  return _graphs[-1].control_dependencies(deps)


def constant(value, dtype=None, shape=None, name=None):
  d = None if dtype is None else as_dtype(dtype)
  if shape is not None:
    a = np.asarray(value)
    if d is None:
      d = as_dtype(np.float32 if a.dtype == np.float64 else a.dtype)
    n = int(np.prod([int(s) for s in shape]))
    a = np.zeros(shape, d.np) if a.size == 0 and n == 0 else np.broadcast_to(a.reshape([1] * len(shape)) if a.size == 1 else a.reshape(shape), shape)
    value = np.array(a).astype(d.np)
  return convert_to_tensor(value, dtype=d)


def zeros(shape, dtype='float32', name=None):
  return _op('Fill', [_shape(shape), np.zeros((), as_dtype(dtype).np)])


def ones(shape, dtype='float32', name=None):
  return _op('Fill', [_shape(shape), np.ones((), as_dtype(dtype).np)])


def fill(dims, value, name=None):
  return _op('Fill', [_shape(dims), value])


def _shape(s):
  if isinstance(s, Tensor):
    return s
  if _has_tensor(s):
    return convert_to_tensor(s)
  return np.array(s, np.int32).reshape(-1)  # a number will do for one dimension


def reshape(tensor, shape, name=None):
  return _op('Reshape', [tensor, _shape(shape)])


def shape(input, out_type='int32', name=None):
  return _op('Shape', [input], out=as_dtype(out_type))


def size(input, out_type='int32', name=None):
  return _op('Size', [input], out=as_dtype(out_type))


def where(condition, x=None, y=None, name=None):
  return _op('Select', [condition] if x is None else [condition, x, y])


def placeholder(dtype, shape=None, name=None):
  return Operation('Placeholder', [], dict(dtype=as_dtype(dtype), static=shape), 1).outputs[0]


def _reduce(n):
  return lambda input_tensor, axis=None, keepdims=False, name=None: _op(
      n, [input_tensor], axis=tuple(axis) if isinstance(axis, list) else axis, keepdims=keepdims)


def _dt(d):
  return None if d is None else as_dtype(d).np


METRIC_OPS = dict(
    detection_metrics=(dict(
        prediction_bbox='float32', prediction_type='uint8', prediction_score='float32', prediction_frame_id='int64',
        prediction_overlap_nlz='bool', ground_truth_bbox='float32', ground_truth_type='uint8', ground_truth_frame_id='int64',
        ground_truth_difficulty='uint8', ground_truth_speed='float32'),
        ['average_precision', 'average_precision_ha_weighted', 'average_precision_longitudinal_affinity_weighted',
         'precision_recall', 'precision_recall_ha_weighted', 'precision_recall_longitudinal_affinity_weighted', 'breakdown']),
    tracking_metrics=(dict(
        prediction_bbox='float32', prediction_type='uint8', prediction_score='float32', prediction_frame_id='int64',
        prediction_sequence_id='string', prediction_object_id='int64', prediction_overlap_nlz='bool',
        ground_truth_bbox='float32', ground_truth_type='uint8', ground_truth_frame_id='int64',
        ground_truth_sequence_id='string', ground_truth_object_id='int64', ground_truth_difficulty='uint8',
        ground_truth_speed='float32'),
        ['mota', 'motp', 'miss', 'mismatch', 'fp', 'score_cutoff', 'breakdown']),
    motion_metrics=(dict(
        prediction_trajectory='float32', prediction_score='float32', ground_truth_trajectory='float32',
        ground_truth_is_valid='bool', prediction_ground_truth_indices='int64', prediction_ground_truth_indices_mask='bool',
        object_type='int64', object_id='int64', scenario_id='string'),
        ['min_ade', 'min_fde', 'miss_rate', 'overlap_rate', 'mean_average_precision']))


def metric_op(name):
  want, outs = METRIC_OPS[name]
  import collections
  T = collections.namedtuple(name, outs)

  def call(**kw):
    config = kw.pop('config')
    kw.pop('name', None)
    if set(kw) != set(want):
      raise TypeError('%s() got arguments %r' % (name, sorted(kw)))
    xs = []
    for k, d in want.items():
      x = convert_to_tensor(kw[k], dtype=None if isinstance(kw[k], (Tensor, Variable)) else d)
      if x.dtype != d:
        raise TypeError("Input '%s' has type %s, expected %s" % (k, x.dtype.name, d))
      xs.append(x)
    return T(*_op('Metrics', xs, nout=len(outs), config=config, op=name, names=list(want)))
  return call


def module():
  m = types.ModuleType('tensorflow')
  m.__path__ = []
  m.__version__ = '2.12.0'

  def missing(path):
    def g(k):
      if k.startswith('__'):
        raise AttributeError(k)
      raise Unsupported('%s.%s' % (path, k))
    return g
  m.__getattr__ = missing('tf')
  for n, d in DTYPES.items():
    setattr(m, n, d)
  m.newaxis = None
  for f in (concat, group, control_dependencies, constant, zeros, ones, fill, reshape, shape, size, where,
            convert_to_tensor, executing_eagerly):
    setattr(m, f.__name__, f)
  m.Tensor, m.Graph, m.Operation, m.DType, m.TensorShape = Tensor, Graph, Operation, DType, TensorShape
  m.is_tensor = lambda x: isinstance(x, (Tensor, Variable))
  m.as_dtype = as_dtype
  m.identity = lambda input, name=None: _op('Identity', [input])
  m.stop_gradient = m.identity
  m.rank = lambda input, name=None: _op('Rank', [input])
  m.stack = lambda values, axis=0, name=None: _op('Pack', list(values), axis=axis)
  m.cast = lambda x, dtype, name=None: _op('Cast', [x], dtype=_dt(dtype))
  m.zeros_like = lambda input, dtype=None, name=None: _op('ZerosLike', [input], dtype=_dt(dtype))
  m.ones_like = lambda input, dtype=None, name=None: _op('OnesLike', [input], dtype=_dt(dtype))
  m.expand_dims = lambda input, axis, name=None: _op('ExpandDims', [input], axis=axis)
  m.squeeze = lambda input, axis=None, name=None: _op('Squeeze', [input], axis=tuple(axis) if isinstance(axis, list) else axis)
  m.transpose = lambda a, perm=None, name=None: _op('Transpose', [a], perm=perm)
  m.tile = lambda input, multiples, name=None: _op('Tile', [input, _shape(multiples)])
  m.gather = lambda params, indices, axis=0, name=None: _op('GatherV2', [params, indices], axis=axis)
  m.boolean_mask = lambda tensor, mask, axis=None, name=None: _op('BooleanMask', [tensor, mask])
  m.range = lambda start, limit=None, delta=1, dtype=None, name=None: (
      _op('Range', list((0, start, delta) if limit is None else (start, limit, delta)), dtype=_dt(dtype)))
  m.strings = types.SimpleNamespace(as_string=lambda input, **k: _op('AsString', [input]))
  m.as_string = m.strings.as_string
  m.no_op = lambda name=None: group()
  m.tuple = lambda tensors, name=None, control_inputs=None: _tuple(tensors, control_inputs)
  m.logical_not = lambda x, name=None: _op('LogicalNot', [x])
  m.abs = lambda x, name=None: _op('Abs', [x])
  for f, n in dict(reduce_max='Max', reduce_min='Min', reduce_sum='Sum', reduce_mean='Mean', reduce_prod='Prod',
                   reduce_all='All', reduce_any='Any').items():
    setattr(m, f, _reduce(n))
  for f, n in dict(add='Add', subtract='Sub', multiply='Mul', greater='Greater', greater_equal='GreaterEqual', less='Less',
                   less_equal='LessEqual', equal='Equal', not_equal='NotEqual', logical_and='LogicalAnd',
                   logical_or='LogicalOr', maximum='Maximum', minimum='Minimum').items():
    setattr(m, f, lambda x, y, name=None, n=n: _binary(n, x, y))
  math = types.ModuleType('tensorflow.math')
  for f in ('reduce_max', 'reduce_min', 'reduce_sum', 'reduce_mean', 'greater', 'less', 'equal', 'add', 'logical_and',
            'logical_or', 'logical_not', 'maximum', 'minimum'):
    setattr(math, f, getattr(m, f))
  math.__getattr__ = missing('tf.math')
  m.math = math
  errors = types.ModuleType('tensorflow.errors')
  for e in (OpError, InvalidArgumentError, ResourceExhaustedError, FailedPreconditionError, NotFoundError):
    setattr(errors, e.__name__, e)
  m.errors = errors

  @contextlib.contextmanager
  def name_scope(*a, **k):
    yield ''
  m.name_scope = name_scope
  m.function = lambda f=None, **k: f if f else (lambda g: g)
  debugging = types.ModuleType('tensorflow.debugging')
  debugging.Assert = lambda condition, data, name=None: _op('Assert', [condition] + list(data))

  def assert_equal(x, y, message=None, data=None, summarize=None, name=None):
    return _op('Assert', [m.reduce_all(_binary('Equal', x, y))])
  debugging.assert_equal = assert_equal
  debugging.__getattr__ = missing('tf.debugging')
  m.debugging, m.Assert, m.assert_equal = debugging, debugging.Assert, assert_equal
  v1 = types.ModuleType('tensorflow.compat.v1')
  v1.__dict__.update({k: v for k, v in m.__dict__.items() if not k.startswith('__')})
  for f in (variable_scope, get_variable, get_local_variable, assign, local_variables, variables_initializer,
            local_variables_initializer, placeholder):
    setattr(v1, f.__name__, f)
  v1.AUTO_REUSE, v1.GraphKeys, v1.Session = AUTO_REUSE, GraphKeys, Session
  v1.get_default_graph = lambda: _graphs[-1]
  v1.add_to_collection = lambda k, v: _graphs[-1].collections.setdefault(k, []).append(v)
  v1.get_collection = lambda k: _graphs[-1].get_collection(k)
  v1.shape = shape
  v1.disable_eager_execution = lambda: None
  v1.assign_add = lambda ref, value, use_locking=None, name=None: assign(ref, ref.value() + value)
  v1.initializers = types.SimpleNamespace(local_variables=local_variables_initializer, variables=variables_initializer,
                                          constant=lambda v: (lambda s, dtype: constant(v, dtype, s)),
                                          zeros=lambda: (lambda s, dtype: zeros(s, dtype)))
  v1.zeros_initializer = v1.initializers.zeros
  v1.constant_initializer = v1.initializers.constant
  v1.resource_loader = types.SimpleNamespace(get_path_to_datafile=lambda p: p)
  v1.__getattr__ = missing('tf.compat.v1')
  m.compat = types.ModuleType('tensorflow.compat')
  m.compat.v1 = v1
  lib = types.SimpleNamespace(**{n: metric_op(n) for n in METRIC_OPS})
  m.load_op_library = lambda path: lib
  for k, v in {'tensorflow': m, 'tensorflow.compat': m.compat, 'tensorflow.compat.v1': v1, 'tensorflow.math': math,
               'tensorflow.errors': errors}.items():
    sys.modules[k] = v
  return m


def _tuple(tensors, control_inputs):
  ops = [_node_of(t) for t in tensors if t is not None] + [_node_of(c) for c in control_inputs or ()]
  gate = group(ops)
  out = []
  for t in tensors:
    if t is None:
      out.append(None)
      continue
    with control_dependencies([gate]):
      out.append(_op('Identity', [t]))
  return out
