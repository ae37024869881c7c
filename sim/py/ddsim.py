"""A small dask.dataframe for simulations.

A frame is a list of lazy partitions. Computing it runs the tasks of its graph
in a drawn order; drawn tasks are lost after they ran and run again, possibly
after their inputs were recomputed too. Aggregations and shuffles see the
partitions in the order in which they arrived.
"""
import sys, types
import numpy as np
import pandas as pd
import rt
from rt import Unsupported


class Task:
  __slots__ = ('fn', 'deps', 'name', 'unordered')

  def __init__(self, name, fn, deps, unordered=False):
    self.name, self.fn, self.deps, self.unordered = name, fn, list(deps), unordered


class State:
  rate = 0  # one of this many tasks is lost; 0 for none
  armed = False


def execute(targets):
  """Runs the tasks below 'targets' in a drawn order."""
  done, order = {}, []
  need, seen = list(targets), set()
  while need:
    t = need.pop()
    if id(t) not in seen:
      seen.add(id(t))
      order.append(t)
      need.extend(t.deps)
  waiting = order
  arrival = {}
  lost = 0
  while True:
    ready = [t for t in waiting if id(t) not in done and all(id(d) in done for d in t.deps)]
    if not ready:
      break
    t = ready[rt.S(len(ready))]
    deps = t.deps
    if t.unordered:
      deps = sorted(deps, key=lambda d: arrival[id(d)])
    rt.C.steps += 1
    rt.event('task %s' % t.name)
    value = t.fn(*[done[id(d)] for d in deps])
    if State.rate and lost < 20 and rt.FP(1, State.rate):
      lost += 1
      rt.fault('worker lost: ' + t.name)
      for d in t.deps:  # results held by the same worker
        if rt.F(2):
          done.pop(id(d), None)
      continue
    done[id(t)] = value
    arrival[id(t)] = len(arrival)
  return [done[id(t)] for t in targets]


def concat(parts):
  keep = [p for p in parts if len(p)] or list(parts[:1])
  return pd.concat(keep) if len(keep) > 1 else keep[0]


def nonempty(meta):
  """Like dask's meta_nonempty: two rows of dummy values with the dtypes of 'meta'."""
  def col(s):
    d = s.dtype
    if isinstance(d, pd.CategoricalDtype):
      return pd.Categorical([d.categories[0]] * 2 if len(d.categories) else [np.nan] * 2, dtype=d)
    return ['foo', 'foo'] if d == object else np.ones(2, d) if isinstance(d, np.dtype) else pd.array([1, 1], dtype=d)
  df = pd.DataFrame({c: col(meta[c]) for c in meta.columns}, columns=meta.columns)
  i = meta.index
  if isinstance(i, pd.MultiIndex):
    df.index = pd.MultiIndex.from_arrays([col(i.levels[k].to_series()) for k in range(i.nlevels)], names=i.names)
  elif i.name is not None:
    df.index = pd.Index(col(i.to_series()), name=i.name)
  return df


def scalar_bytes(v):
  return repr(v.item() if hasattr(v, 'item') else v).encode()


def bucket(df, on, n):
  """The output partition of every row, a function of the values of its key."""
  import zlib
  out = []
  for row in df[list(on)].itertuples(index=False, name=None):
    out.append(zlib.crc32(b'|'.join(scalar_bytes(v) for v in row)) % n)
  return np.array(out, int)


class Frame:
  """dd.DataFrame."""

  def __init__(self, meta, parts):
    self._meta, self._parts = meta.iloc[:0], list(parts)

  columns = property(lambda s: s._meta.columns)
  dtypes = property(lambda s: s._meta.dtypes)
  npartitions = property(lambda s: len(s._parts))
  empty = property(lambda s: not len(s))

  def _map(self, name, fn, meta=None):
    if meta is None:
      meta = fn(nonempty(self._meta))
    kind = Frame if isinstance(meta, pd.DataFrame) else Column
    return kind(meta, [Task(name, fn, [p]) for p in self._parts])

  def compute(self, **kw):
    return concat(execute(self._parts))

  def __len__(self):
    return len(self.compute())

  def copy(self, deep=False):
    return Frame(self._meta, self._parts)

  def persist(self, **kw):
    r = execute(self._parts)
    return Frame(self._meta, [Task('persisted', lambda p=p: p, []) for p in r])

  def repartition(self, npartitions=None, **kw):
    n = npartitions or 1
    whole = Task('gather', lambda *p: concat(p), self._parts, True)
    return Frame(self._meta, [Task('split', lambda w, i=i: w.iloc[i * len(w) // n:(i + 1) * len(w) // n], [whole]) for i in range(n)])

  def map_partitions(self, fn, *args, meta=None, **kw):
    return self._map('map_partitions', lambda p: fn(p, *args, **kw), meta)

  def __getattr__(self, name):
    if not name.startswith('_') and name in self._meta.columns:
      return self[name]
    raise Unsupported('dask.dataframe has no stub for ' + name) if not name.startswith('_') else AttributeError(name)

  def __getitem__(self, key):
    if isinstance(key, Column):
      if len(key._parts) != len(self._parts):
        raise Unsupported('boolean index with other partitions')
      return Frame(self._meta, [Task('filter', lambda p, k: p[k], [a, b]) for a, b in zip(self._parts, key._parts)])
    return self._map('getitem', lambda p: p[key])

  def _assign(self, kw):
    parts, meta = self._parts, nonempty(self._meta)
    for name, v in kw.items():
      if callable(v) and not isinstance(v, Frame):
        v = v(Frame(meta, parts))
      if isinstance(v, Column):
        parts = [Task('assign', lambda p, c, n=name: p.assign(**{n: c}), [a, b]) for a, b in zip(parts, v._parts)]
        meta = meta.assign(**{name: nonempty_series(v._meta)})
      else:
        parts = [Task('assign', lambda p, n=name, v=v: p.assign(**{n: v}), [a]) for a in parts]
        meta = meta.assign(**{name: v})
    return meta, parts

  def assign(self, **kw):
    return Frame(*self._assign(kw))

  def __setitem__(self, key, value):
    meta, parts = self._assign({key: value})
    self._meta, self._parts = meta.iloc[:0], parts

  def astype(self, d, **kw):
    return self._map('astype', lambda p: p.astype(d))

  def rename(self, **kw):
    return self._map('rename', lambda p: p.rename(**kw))

  def drop(self, *a, **kw):
    return self._map('drop', lambda p: p.drop(*a, **kw))

  def dropna(self, **kw):
    return self._map('dropna', lambda p: p.dropna(**kw))

  def fillna(self, *a, **kw):
    return self._map('fillna', lambda p: p.fillna(*a, **kw))

  def reset_index(self, drop=False):
    return self._map('reset_index', lambda p: p.reset_index(drop=drop))

  def set_index(self, keys, drop=True, **kw):
    return self._map('set_index', lambda p: p.set_index(keys, drop=drop))

  def drop_duplicates(self, **kw):
    whole = Task('drop_duplicates', lambda *p: concat(p).drop_duplicates(**kw), self._parts, True)
    return Frame(self._meta, [whole])

  def groupby(self, by=None, **kw):
    return GroupBy(self, by, kw)

  def merge(self, right, how='inner', on=None, left_on=None, right_on=None, left_index=False, right_index=False,
            suffixes=('_x', '_y'), **kw):
    for k in ('npartitions', 'shuffle', 'broadcast'):
      kw.pop(k, None)
    opts = dict(kw, how=how, on=on, left_on=left_on, right_on=right_on, left_index=left_index, right_index=right_index,
                suffixes=suffixes)
    if isinstance(right, pd.DataFrame):
      right = from_pandas(right, npartitions=1)
    if not isinstance(right, Frame):
      raise TypeError('right must be DataFrame')
    meta = nonempty(self._meta).merge(nonempty(right._meta), **opts)
    f = lambda a, b: a.merge(b, **opts)
    if len(self._parts) == 1 and len(right._parts) == 1:
      return Frame(meta, [Task('merge', f, [self._parts[0], right._parts[0]])])
    if len(right._parts) == 1 and how in ('inner', 'left'):
      return Frame(meta, [Task('merge', f, [p, right._parts[0]]) for p in self._parts])
    if len(self._parts) == 1 and how in ('inner', 'right'):
      return Frame(meta, [Task('merge', f, [self._parts[0], p]) for p in right._parts])
    if left_index or right_index:
      raise Unsupported('index join of several partitions')
    ks = [on, on] if on is not None else [left_on, right_on]
    if ks[0] is None:
      ks = [[c for c in self.columns if c in set(right.columns)]] * 2
    ks = [[k] if isinstance(k, str) else list(k) for k in ks]
    n = max(len(self._parts), len(right._parts))
    sides = [shuffle(d, k, n) for d, k in zip((self, right), ks)]
    return Frame(meta, [Task('merge', f, [a, b]) for a, b in zip(*sides)])

  join = None


def shuffle(frame, on, n):
  split = [Task('split', lambda p: [p[bucket(p, on, n) == i] for i in range(n)], [p]) for p in frame._parts]
  return [Task('collect', lambda *s, i=i: concat([x[i] for x in s]), split, True) for i in range(n)]


class Column(Frame):
  """dd.Series."""
  dtype = property(lambda s: s._meta.dtype)
  name = property(lambda s: s._meta.name)

  def _map(self, name, fn, meta=None):
    if meta is None:
      meta = fn(nonempty_series(self._meta))
    return Column(meta, [Task(name, fn, [p]) for p in self._parts])

  def map(self, fn, **kw):
    return self._map('map', lambda p: p.map(fn))

  def isin(self, values):
    return self._map('isin', lambda p: p.isin(values))

  def _bin(self, name, o):
    if isinstance(o, Column):
      return Column(getattr(self._meta, name)(o._meta), [Task(name, lambda a, b: getattr(a, name)(b), [a, b])
                                                       for a, b in zip(self._parts, o._parts)])
    return self._map(name, lambda p: getattr(p, name)(o))

  def __getattr__(self, name):
    raise Unsupported('dask.dataframe has no stub for Series.' + name) if not name.startswith('_') else AttributeError(name)


for _n in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__and__', '__or__', '__add__'):
  setattr(Column, _n, lambda s, o, n=_n: s._bin(n, o))
Column.__hash__ = object.__hash__


def nonempty_series(s):
  return nonempty(pd.DataFrame({0: s}))[0].rename(s.name)


class GroupBy:

  def __init__(self, frame, by, kw, columns=None):
    self.frame, self.by, self.kw, self.columns = frame, [by] if isinstance(by, str) else list(by), kw, columns

  def __getitem__(self, columns):
    return GroupBy(self.frame, self.by, self.kw, columns)

  def agg(self, spec=None, **kw):
    names = spec.values() if isinstance(spec, dict) else [spec]
    if any(callable(s) and s is not list for s in names):
      raise ValueError('unknown aggregate %r' % (spec,))
    if any(s not in (list, 'list') for s in names):
      raise Unsupported('aggregation %r' % (spec,))
    by, gkw, columns = self.by, self.kw, self.columns
    gkw = {k: v for k, v in gkw.items() if k in ('observed', 'dropna', 'sort', 'group_keys')}
    if isinstance(columns, str) or columns is None and isinstance(spec, dict):
      raise Unsupported('aggregation of one column')

    def chunk(p):
      if not len(p):  # dask aggregates column by column, where an empty partition is no special case
        return None
      g = p.groupby(by, **gkw)
      return (g if columns is None else g[list(columns)]).agg(list)

    def combine(*chunks):
      # Lists of the same key, in the order in which their chunks arrived.
      chunks = [c for c in chunks if c is not None and len(c)]
      if len(chunks) < 2:
        return chunks[0] if chunks else None
      g = pd.concat(chunks).groupby(level=list(range(len(by))), **{k: v for k, v in gkw.items() if k != 'sort'})
      out = g.agg(lambda s: [v for x in s if isinstance(x, list) for v in x])
      out.index.names = by
      return out
    meta = chunk(nonempty(self.frame._meta))
    parts = [Task('chunk', chunk, [p]) for p in self.frame._parts]
    while len(parts) > 1:  # a tree of aggregations
      width = 2 + rt.S(3)
      groups = [parts[i:i + width] for i in range(0, len(parts), width)]
      parts = [g[0] if len(g) == 1 else Task('combine', combine, g, True) for g in groups]
    return Frame(meta, [Task('aggregated', lambda c: meta.iloc[:0] if c is None else c, parts)])

  aggregate = agg

  def __getattr__(self, name):
    raise Unsupported('dask groupby has no stub for ' + name) if not name.startswith('_') else AttributeError(name)


def from_pandas(df, npartitions=1, chunksize=None, sort=True, **kw):
  n = max(1, npartitions)
  cut = [i * len(df) // n for i in range(n + 1)]
  return Frame(df, [Task('load', lambda a=a, b=b: df.iloc[a:b], []) for a, b in zip(cut, cut[1:])])


def from_parts(parts):
  """A frame whose partitions are loaded from the given tables."""
  return Frame(parts[0], [Task('load', lambda p=p: p.copy(), []) for p in parts])


def concat_frames(dfs, **kw):
  return Frame(dfs[0]._meta, [p for d in dfs for p in d._parts])


def merge(left, right, **kw):
  return left.merge(right, **kw)


def module():
  dask = types.ModuleType('dask')
  dd = types.ModuleType('dask.dataframe')
  dd.DataFrame, dd.Series, dd.from_pandas, dd.concat, dd.merge = Frame, Column, from_pandas, concat_frames, merge
  dask.dataframe = dd
  dask.compute = lambda *a, **k: tuple(x.compute() for x in a)
  sys.modules['dask'], sys.modules['dask.dataframe'] = dask, dd
  return dd
