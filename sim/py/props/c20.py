"""C20: merging tables under drawn partitionings, completion orders and lost workers."""
import collections
import numpy as np
import pandas as pd
import rt, ddsim
from rt import W, WP, F, S, pick, probe, fault, check

M = {}
KEYS = ['key.segment', 'key.timestamp', 'key.camera', 'key.laser']


def norm(v):
  if isinstance(v, (list, tuple)):
    return tuple(norm(x) for x in v)
  if v is None or v is pd.NA or (isinstance(v, (float, np.floating)) and v != v):
    return None
  v = v.item() if hasattr(v, 'item') else v
  return int(v) if isinstance(v, (float, bool)) and v == int(v) else v


def domain(key, kind):
  """The values of a key column, and the dtypes it may have."""
  n = 1 + W(3)
  if kind == 'int':
    return [W(3) + 3 * i for i in range(n)], ['int64', 'int32', 'int8']
  if kind == 'big':
    return [(1 << 50) + i * (1 + W(2)) for i in range(n)], ['int64']
  if kind == 'wide':  # values that only fit one of the types
    return [i + (W(2) << 32) for i in range(n)], ['int64', 'int64', 'int32']
  if kind == 'str':
    return ['s%d' % i for i in range(n)], [object]
  if kind == 'category':
    return ['s%d' % i for i in range(n)], [pd.CategoricalDtype(['s%d' % i for i in range(n + 1)])]
  return [i % 2 == 1 for i in range(min(n, 2))], [bool]


def table(keys, dom, dtype, name, unique):
  rows, seen = [], set()
  for i in range(pick([0, 1, 2, 3, 5, 8])):
    k = tuple(dom[c][W(len(dom[c]))] for c in keys)
    k = tuple(v % (1 << 32) if dtype[c] == 'int32' else v for c, v in zip(keys, k))
    if unique and k in seen:
      continue
    seen.add(k)
    rows.append(k)
  df = pd.DataFrame({c: pd.Series([r[i] for r in rows], dtype=dtype[c]) for i, c in enumerate(keys)}, columns=keys)
  nv = 1 + W(2)
  for v in range(nv):
    vals = [W(100) for _ in rows]
    t = pick(['int64', 'float32', object])
    if t is object:
      vals = [pick(['x%d' % x, (x, x + 1), 'x%d' % x]) for x in vals]
      s = pd.Series(np.empty(len(vals), object))
      for i, x in enumerate(vals):
        s[i] = x
      df['[%s].v%d' % (name, v)] = s.values
    else:
      df['[%s].v%d' % (name, v)] = pd.Series(vals, dtype=t)
  return df[rt_order(list(df.columns))]


def rt_order(xs):
  return [xs[i] for i in rt.permutation(rt.WORK, len(xs))]


def records(df):
  cols = list(df.columns)
  return [dict(zip(cols, map(norm, r))) for r in df.itertuples(index=False, name=None)]


def grouped(recs, common, other):
  """One record per common key; the other columns hold a sorted tuple of rows."""
  out = collections.OrderedDict()
  for r in recs:
    out.setdefault(tuple(r[c] for c in common), []).append(tuple(r[c] for c in other))
  return [dict(list(zip(common, k)) + [('rows', tuple(sorted(v, key=repr)))]) for k, v in out.items()]


def side_view(recs, cols, common, is_grouped):
  """For results: the part of a record that comes from one side."""
  other = [c for c in cols if c not in common]
  out = []
  for r in recs:
    if is_grouped:
      ls = [r[c] for c in other]
      if all(x is None for x in ls):
        out.append(None)
        continue
      if not all(isinstance(x, tuple) for x in ls) or len(set(len(x) for x in ls)) != 1:
        out.append(('not parallel lists', repr(ls)))
        continue
      out.append(tuple(sorted(zip(*ls), key=repr)))
    else:
      v = tuple(r[c] for c in other)
      out.append(None if all(x is None for x in v) else v)
  return out


def expected(left, right, common, lg, rg, ln, rn):
  sides = []
  for df, g in ((left, lg), (right, rg)):
    other = [c for c in df.columns if c not in common]
    recs = records(df)
    if g:
      sides.append([(tuple(r[c] for c in common), r['rows']) for r in grouped(recs, common, other)])
    else:
      sides.append([(tuple(r[c] for c in common), tuple(r[c] for c in other)) for r in recs])
  out = collections.Counter()
  lkeys, rkeys = set(k for k, _ in sides[0]), set(k for k, _ in sides[1])
  for k, v in sides[0]:
    for k2, v2 in sides[1]:
      if k == k2:
        out[(k, v, v2)] += 1
    if rn and k not in rkeys:
      out[(k, v, None)] += 1
  if ln:
    for k, v in sides[1]:
      if k not in lkeys:
        out[(k, None, v)] += 1
  return out


def run():
  dd, lib = M['dd'], M['lib']
  kinds = {c: pick(['int', 'int', 'str', 'big', 'wide', 'bool', 'category']) for c in KEYS}
  dom, types = {}, {}
  for c in KEYS:
    dom[c], types[c] = domain(c, kinds[c])
  prefix = 'key.'
  names = rt_order(KEYS)
  nc = 1 + W(2)
  common = sorted(names[:nc])
  rest = names[nc:]
  lk = common + ([rest[0]] if WP(1, 2) else [])
  rk = common + ([rest[1]] if WP(1, 2) and len(rest) > 1 else [])
  lg, rg, ln, rn = W(2), W(2), W(2), W(2)
  dt = [{c: pick(types[c]) for c in KEYS} for _ in range(2)]
  left = table(lk, dom, dt[0], 'L', (lg and lk == common) or WP(3, 4))
  right = table(rk, dom, dt[1], 'R', (rg and rk == common) or WP(3, 4))
  glued = bool(lg and lk != common), bool(rg and rk != common)
  want = expected(left, right, common, glued[0], glued[1], ln, rn)
  rt.note(left.to_csv(), right.to_csv(), [str(t) for t in left.dtypes], [str(t) for t in right.dtypes], lg, rg, ln, rn)
  rt.log('left keys %r group %d nullable %d:\n%s\n%s', lk, lg, ln, left.to_string(), left.dtypes.to_dict())
  rt.log('right keys %r group %d nullable %d:\n%s\n%s', rk, rg, rn, right.to_string(), right.dtypes.to_dict())
  opts = {}
  for n, v in (('left_group', lg), ('right_group', rg), ('left_nullable', ln), ('right_nullable', rn)):
    if v or WP(1, 2):
      opts[n] = bool(v)
  if len(left) and len(right):
    rt.nontrivial()
  for trial in range(3):
    ddsim.State.rate = (0, 4, 12)[F(3)]
    use_dask = trial > 0
    mine = [(df.iloc[rt.permutation(rt.SCHED, len(df))] if trial else df).reset_index(drop=True) for df in (left, right)]
    given = []
    for df in mine:
      if not use_dask:
        given.append(df)
        continue
      n = 1 + S(4)
      cut = sorted(S(len(df) + 1) for _ in range(n - 1))
      parts = [df.iloc[a:b] for a, b in zip([0] + cut, cut + [len(df)])]
      probe('partitions', n)
      probe('empty partition', sum(not len(p) for p in parts))
      given.append(ddsim.from_parts(parts))
    before = [records(g.compute() if use_dask else g) for g in given]
    types_before = [g.dtypes.to_dict() for g in given]
    tag = 'dask' if use_dask else 'pandas'
    res = lib.merge(given[0], given[1], **opts)
    outs = [res.compute() for _ in range(1 + S(2))] if use_dask else [res]
    for out in outs:
      cols = list(out.columns)
      check(sorted(cols) == sorted(set(left.columns) | set(right.columns)), 'columns', '%s: columns %r', tag, cols)
      recs = records(out)
      keys = [tuple(r[c] for c in common) for r in recs]
      got = collections.Counter(zip(keys, side_view(recs, left.columns, common, glued[0]),
                                    side_view(recs, right.columns, common, glued[1])))
      if got != want:
        rt.violation('join-differs', '%s: rows that are not in the join %r, rows missing %r\n%s', tag, list((got - want).items())[:4],
                     list((want - got).items())[:4], out.to_string()[:1500])
      for c in common:
        if left[c].dtype == right[c].dtype and len(out) and not isinstance(left[c].dtype, pd.CategoricalDtype) and (
            not any(out[c].isna())):
          check(out[c].dtype == left[c].dtype, 'key-type', '%s: key %s has type %s, was %s', tag, c, out[c].dtype, left[c].dtype)
    after = [records(g.compute() if use_dask else g) for g in given]
    check(sorted(map(repr, before[0])) == sorted(map(repr, after[0])) and sorted(map(repr, before[1])) == sorted(map(repr, after[1])),
          'input-changed', '%s: a table given to merge() changed', tag)
    check(types_before == [g.dtypes.to_dict() for g in given], 'input-changed', '%s: column types of a table given to merge() changed', tag)


def setup(args):
  dd = ddsim.module()
  # The package itself imports all components and with them pyarrow.
  import os, sys, types
  pkg = types.ModuleType('waymo_open_dataset.v2')
  pkg.__path__ = [os.path.join(args.repo, 'waymo_open_dataset', 'v2')]
  import waymo_open_dataset
  sys.modules[pkg.__name__] = waymo_open_dataset.v2 = pkg
  from waymo_open_dataset.v2 import dataframe_utils
  M.update(dd=dd, lib=dataframe_utils)
  return run
