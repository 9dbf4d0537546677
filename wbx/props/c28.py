"""C28: structure mapping applies the function to every leaf, loses none."""

import numpy as np
import xarray as xr
from wbx.core import check, expect_raises
from weatherbenchX import xarray_tree

RULE = ('random nested structures of dicts, lists, tuples and Datasets (shared '
        'and conflicting coordinates) with 1-3 structures at once; functions '
        'returning arrays, other types, or nothing for some leaves; '
        'fingerprint = structure shape and function kind')
ASSUMPTIONS = ['all structures passed to one call have the same shape']


def _leaf(rng, labels=None):
  n = 3 if labels is None else len(labels)
  return xr.DataArray(rng.normal(size=n), dims=['x'], coords={
      'x': np.arange(n) if labels is None else labels})


def _tree(rng, depth, k):
  """Returns (list of k structures, description)."""
  r = rng.random()
  if depth == 0 or r < 0.2:
    if rng.random() < .4:
      n = int(rng.integers(0, 4))
      ds = []
      for _ in range(k):
        ds.append(xr.Dataset({f'v{i}': _leaf(rng) for i in range(n)}))
      return ds, ('ds', n)
    return [_leaf(rng, rng.choice(9, 3, replace=False)) for _ in range(k)], 'a'
  n = int(rng.integers(0, 4))
  kids = [_tree(rng, depth - 1, k) for _ in range(n)]
  desc = tuple(d for _, d in kids)
  if r < 0.6:
    names = [f'k{i}' for i in range(n)]
    out = []
    for j in range(k):
      order = list(range(n)) if j == 0 else [int(x) for x in rng.permutation(n)]
      out.append({names[i]: kids[i][0][j] for i in order})
    return out, ('d',) + desc
  typ = list if r < 0.8 else tuple
  return [typ(kids[i][0][j] for i in range(n)) for j in range(k)], (
      typ.__name__,) + desc


def _leaves(x, path=()):
  if isinstance(x, xr.Dataset):
    for v in x:
      yield path + (v,), x[v]
  elif isinstance(x, dict):
    for v in x:
      yield from _leaves(x[v], path + (v,))
  elif isinstance(x, (list, tuple)):
    for i, v in enumerate(x):
      yield from _leaves(v, path + (i,))
  else:
    yield path, x


def mapping(rng, obs):
  k = int(rng.integers(1, 4))
  structs, desc = _tree(rng, int(rng.integers(0, 4)), k)
  calls = []

  def fn(*args):
    check(len(args) == k, 'number of arguments', 'args')
    calls.append(args)
    return sum((i + 1) * a for i, a in enumerate(args))

  before = [dict((p, v.copy(deep=True)) for p, v in _leaves(s))
            for s in structs]
  got = xarray_tree.map_structure(fn, *structs)
  paths = [p for p, _ in _leaves(structs[0])]
  check(len(calls) == len(paths), f'{len(calls)} calls for {len(paths)} leaves',
        'calls')
  out = dict(_leaves(got))
  check(set(out) == set(paths), f'leaves {set(out)} of {set(paths)}', 'leaves')
  for p in paths:
    vals = [dict(_leaves(s))[p] for s in structs]
    want = sum((i + 1) * a for i, a in enumerate(vals))
    check(out[p].equals(want), f'leaf {p} is not the function of the inputs',
          'value')
    obs.ev('leaves')
  for s, b in zip(structs, before):
    for p, v in _leaves(s):
      check(v.identical(b[p]), 'input modified', 'mutated')

  def same_type(a, b):
    check(isinstance(b, xr.Dataset) == isinstance(a, xr.Dataset)
          and (isinstance(a, xr.Dataset) or type(a) is type(b)),
          f'container {type(a)} became {type(b)}', 'type')
    if isinstance(a, xr.Dataset):
      return
    if isinstance(a, dict):
      check(list(a) == list(b), 'key order', 'type')
      for x in a:
        same_type(a[x], b[x])
    elif isinstance(a, (list, tuple)):
      for x, y in zip(a, b):
        same_type(x, y)

  same_type(structs[0], got)
  obs.mark('map', desc, k)
  obs.sample(desc=str(desc), leaves=len(paths), structures=k)


def dataset(rng, obs):
  """Dataset inputs: dropped leaves, foreign types, conflicting coordinates."""
  n = int(rng.integers(1, 6))
  ds = xr.Dataset({f'v{i}': _leaf(rng) for i in range(n)})
  drop = {f'v{i}' for i in range(n) if rng.random() < .3}
  kind = str(rng.choice(['none', 'float', 'conflict', 'rename', 'aux']))
  base_aux = rng.normal(size=3)
  aux = {v: np.where(rng.random(3) < .4, np.nan, base_aux) for v in ds}
  if rng.random() < .3:
    aux = {v: base_aux[:0 if rng.random() < .5 else 1].sum() for v in ds}
  labels = {v: (np.arange(3) if rng.random() < .5 else rng.choice(
      9, 3, replace=False)) for v in ds}
  seq = iter(list(ds))

  def fn(a):
    name = next(seq)
    if kind == 'none':
      return None if name in drop else a * 2
    if kind == 'float':
      return float(a.sum())
    if kind == 'conflict':
      return (a * 2).assign_coords(x=labels[name])
    if kind == 'aux':
      return (a * 2).assign_coords(
          aux=('x', aux[name]) if np.ndim(aux[name]) else aux[name])
    return (a * 2).rename('other')

  got = xarray_tree.map_structure(fn, ds)
  if kind == 'none':
    want = [v for v in ds if v not in drop]
    check(list(got.keys()) == want, f'kept {list(got)} of {want}', 'none')
    check(isinstance(got, xr.Dataset), 'not a Dataset', 'none')
  else:
    check(list(got.keys()) == list(ds.keys()), f'kept {list(got)}', 'ds')
  for v in got:
    if kind == 'float':
      check(got[v] == float(ds[v].sum()), f'value of {v}', 'ds')
    else:
      a = got[v]
      check(np.array_equal(a.values, 2 * ds[v].values),
            f'values of {v} changed by combining the results', 'ds')
      if kind == 'conflict':
        check(np.array_equal(a.x.values, labels[v]),
              f'labels of {v} are not those returned', 'ds')
      if kind == 'aux':
        check('aux' in a.coords and np.array_equal(
            a.coords['aux'].values, aux[v], equal_nan=True),
              f'coordinate of {v} is not the one returned', 'aux')
        obs.ev('aux_coordinates')
    obs.ev('dataset_leaves')
  if kind == 'conflict' and any(
      not np.array_equal(l, labels['v0']) for l in labels.values()):
    check(isinstance(got, dict), 'conflicting labels must not be merged', 'ds')
    obs.ev('conflicts')
  if kind == 'rename':
    check(isinstance(got, xr.Dataset), 'not a Dataset', 'ds')
  expect_raises(lambda: xarray_tree.map_structure(3, ds), 'not callable',
                'reject', TypeError)
  expect_raises(lambda: xarray_tree.map_structure(fn), 'no structure',
                'reject', ValueError)
  obs.mark('ds', kind, n, sorted(drop))


SCENARIOS = {'mapping': (mapping, 2000, 50000),
             'dataset': (dataset, 1500, 30000)}
MIN = {'leaves': 3000, 'dataset_leaves': 2000, 'conflicts': 100, 'aux_coordinates': 200}
