"""The pyarrow types that the v2 components declare, and whether a value can be stored in a column of such a type."""
import struct, sys, types
import numpy as np


class ArrowInvalid(ValueError):
  pass


class DataType:

  def __init__(self, name, item=None, size=-1):
    self.name, self.value_type, self.list_size = name, item, size

  def _key(self):
    return (self.name, self.value_type and self.value_type._key(), self.list_size)

  def __eq__(self, o):
    return isinstance(o, DataType) and self._key() == o._key()

  def __hash__(self):
    return hash(self._key())

  def __repr__(self):
    return self.name if self.value_type is None else 'list<%r>%s' % (self.value_type, '' if self.list_size < 0 else '[%d]' % self.list_size)

  def store(self, v):
    """The value as it is read back."""
    if v is None:
      return None
    if isinstance(v, np.generic):
      v = v.item()
    n = self.name
    bad = ArrowInvalid('%r (%s) cannot be stored as %r' % (v if len(repr(v)) < 60 else repr(v)[:60], type(v).__name__, self))
    if n == 'list':
      if isinstance(v, (str, bytes, dict, set)) or not hasattr(v, '__len__') or not hasattr(v, '__getitem__'):
        raise bad
      if self.list_size >= 0 and len(v) != self.list_size:
        raise ArrowInvalid('a list of %d values in a column of lists of %d' % (len(v), self.list_size))
      return [self.value_type.store(x) for x in v]
    if n == 'bool':
      if not isinstance(v, bool):
        raise bad
      return v
    if n.startswith('int'):
      if isinstance(v, bool) or not isinstance(v, (int, float)) or v != int(v):
        raise bad
      b = int(n[3:])
      if not -(1 << b - 1) <= v < 1 << b - 1:
        raise ArrowInvalid('%r does not fit into %s' % (v, n))
      return int(v)
    if n.startswith('float'):
      if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise bad
      return float(v) if n == 'float64' else float(np.float32(v))
    if n == 'string':
      if isinstance(v, bytes):
        return v.decode()
      if not isinstance(v, str):
        raise bad
      return v
    if n == 'binary':
      if isinstance(v, (bytes, bytearray, memoryview)):
        return bytes(v)
      raise bad
    raise bad


class Field:

  def __init__(self, name, type_):
    self.name, self.type = name, type_


class Schema:

  def __init__(self, fields):
    self.fields = [f if isinstance(f, Field) else Field(*f) for f in fields]
    for f in self.fields:
      if not isinstance(f.type, DataType):
        raise TypeError('the column %s has no type' % f.name)
    self.names = [f.name for f in self.fields]
    self.types = [f.type for f in self.fields]

  def __len__(self):
    return len(self.fields)

  def __iter__(self):
    return iter(self.fields)

  def field(self, k):
    if isinstance(k, int):
      return self.fields[k]
    return self.fields[self.names.index(k)]

  def __eq__(self, o):
    return isinstance(o, Schema) and list(zip(self.names, self.types)) == list(zip(o.names, o.types))


def install():
  m = types.ModuleType('pyarrow')
  m.DataType, m.Field, m.Schema, m.ArrowInvalid = DataType, Field, Schema, ArrowInvalid
  for k in (8, 16, 32, 64):
    setattr(m, 'int%d' % k, lambda k=k: DataType('int%d' % k))
  m.float32, m.float64 = lambda: DataType('float32'), lambda: DataType('float64')
  m.string = m.utf8 = lambda: DataType('string')
  m.binary = lambda size=-1: DataType('binary')
  m.bool_ = lambda: DataType('bool')
  m.list_ = lambda t, size=-1: DataType('list', t, size)
  m.dictionary = lambda index_type=None, value_type=None, ordered=False: DataType('dictionary')
  m.field = lambda name, type_, **_: Field(name, type_)
  m.schema = lambda fields, metadata=None: Schema(list(fields))
  m.lib = types.SimpleNamespace(ArrowInvalid=ArrowInvalid)
  sys.modules['pyarrow'] = m
  return m
