"""C06: aggregation states: algebra, partial reduction and lossless round trips."""

import os

import numpy as np
import xarray as xr
from wbx import gen
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import aggregation

RULE = ('random states: nesting depth 0-3, random variable names (also with '
        'dots, spaces, unicode), random dims/labels per leaf (partially '
        'overlapping between operands), NaN/inf/negative entries, float32/'
        'float64, scalar leaves; operations compared with a dictionary-of-cells '
        'oracle; fingerprint = (scenario, structure, dims, sizes)')
ASSUMPTIONS = [
    'dataset round trips use names without the separator and leaves whose '
    'coordinates are compatible, as the documentation requires',
    'states that are written to a file contain no empty level']

DIMPOOL = ['init_time', 'lead_time', 'latitude', 'region', 'station']
NAMES = ['a', 'SquaredError', 'u.v', 'x y', 'T_2m', 'größe', 'A(b=[1, 2])',
         'p<0.5', 'k=1,n=2', 'None']


def _pool(rng):
  out = {}
  out['init_time'] = gen.init_times(rng, 6)
  out['lead_time'] = gen.lead_times(rng, 6)
  out['latitude'] = gen.latitudes(rng, 6)
  out['region'] = np.array(['n', 's', 'e', 'w', 'not_in_n', 'global'])
  out['station'] = np.array(['KA', 'KB', 'KC', 'LONGNAME', 'KE', 'KF'])
  return out


def _labels(rng, pool, d, overlap):
  if overlap == 'same':
    return pool[d][:3]
  n = int(rng.integers(1, 5))
  idx = rng.choice(6, size=n, replace=False)
  if d != 'station':
    idx = np.sort(idx)
  return pool[d][idx]


def _structure(rng, pool, depth):
  """Nested dict of leaf specs: list of dims."""
  if depth == 0:
    return [str(d) for d in rng.permutation(DIMPOOL)[:int(rng.integers(0, 4))]]
  names = [NAMES[i] for i in rng.choice(len(NAMES), int(rng.integers(1, 4)),
                                        replace=False)]
  return {n: _structure(rng, pool, depth - 1) for n in names}


def _fill(rng, spec, pool, overlap, hostile, dtype=float):
  if isinstance(spec, list):
    coords = {d: _labels(rng, pool, d, overlap) for d in spec}
    shape = tuple(len(v) for v in coords.values())

    def leaf(kind):
      v = (rng.integers(-6, 7, size=shape) / 4.0 if kind == 's'
           else rng.integers(0, 7, size=shape) / 2.0)
      v = np.asarray(v, dtype)
      if hostile and v.size:
        v = np.where(rng.random(shape) < 0.1, np.nan, v)
        if rng.random() < .3:
          v = np.where(rng.random(shape) < 0.1, np.inf, v)
      return xr.DataArray(np.asarray(v, dtype), dims=list(coords),
                          coords=coords)
    s = leaf('s')
    w = leaf('w').copy()
    return s, w
  out = {k: _fill(rng, v, pool, overlap, hostile, dtype)
         for k, v in spec.items()}
  return ({k: v[0] for k, v in out.items()}, {k: v[1] for k, v in out.items()})


def _state(rng, spec, pool, overlap='some', hostile=True, dtype=float):
  s, w = _fill(rng, spec, pool, overlap, hostile, dtype)
  return aggregation.AggregationState(s, w)


def cells(x, path=()):
  """{(path, frozenset((dim, label))): value}; the value itself for NaN."""
  if isinstance(x, xr.DataArray):
    out = {}
    vals = np.asarray(x.values)
    labs = [x[d].values for d in x.dims]
    for idx in np.ndindex(*vals.shape):
      k = frozenset((d, str(labs[i][j])) for i, (d, j) in
                    enumerate(zip(x.dims, idx)))
      out[path, k] = float(vals[idx])
    return out
  out = {}
  for k in x:
    out.update(cells(x[k], path + (k,)))
  return out


def both(state):
  return (cells(state.sum_weighted_statistics, ('S',))
          | cells(state.sum_weights, ('W',)))


def compare(got, want, what, key, tol=1e-12):
  check(set(got) == set(want), lambda: f'{what}: cells differ: only got '
        f'{list(set(got) - set(want))[:3]} only expected '
        f'{list(set(want) - set(got))[:3]}', key)
  for k, w in want.items():
    g = got[k]
    ok = (g == w) or (g != g and w != w) or abs(g - w) <= tol * max(1, abs(w))
    check(ok, f'{what}: {k}: {g} expected {w}', key)
  return len(want)


def outer_sum(dicts):
  """Zero-filled outer join of each leaf: the grid is the label product."""
  out = {}
  # per leaf: the outer join is over the product of the unions of labels.
  leaves = {}
  for d in dicts:
    for (path, k) in d:
      leaves.setdefault(path, {})
      for dim, lab in k:
        leaves[path].setdefault(dim, set()).add(lab)
  import itertools
  for path, dims in leaves.items():
    names = sorted(dims)
    for combo in itertools.product(*[sorted(dims[n]) for n in names]):
      k = frozenset(zip(names, combo))
      tot = 0.0
      for d in dicts:
        tot = tot + d.get((path, k), 0.0)
      out[path, k] = tot
  return out


def algebra(rng, obs):
  pool = _pool(rng)
  depth = int(rng.integers(0, 4))
  spec = _structure(rng, pool, depth)
  overlap = str(rng.choice(['same', 'some', 'some']))
  n = int(rng.integers(2, 5))
  states = [_state(rng, spec, pool, overlap) for _ in range(n)]
  ds = [both(s) for s in states]
  A = aggregation.AggregationState
  with np.errstate(invalid='ignore'):
    want = outer_sum(ds)
    c = compare(both(A.sum(states)), want, 'sum of states', 'sum')
    c += compare(both(A.sum(iter(states))), want, 'sum of an iterator', 'sum')
    acc = states[0]
    for s in states[1:]:
      acc = acc + s
    c += compare(both(acc), want, 'left fold', 'assoc')
    acc = states[-1]
    for s in states[-2::-1]:
      acc = s + acc
    c += compare(both(acc), want, 'right fold', 'assoc')
    p = rng.permutation(n)
    c += compare(both(A.sum([states[i] for i in p])), want, 'permuted sum',
                 'commut')
  z = A.zero()
  compare(both(z + states[0]), ds[0], 'zero + s', 'zero')
  compare(both(states[0] + z), ds[0], 's + zero', 'zero')
  compare(both(A.sum([z, states[0], z])), ds[0], 'sum with zeros', 'zero')
  for zz in (z + z, A.sum([]), A.sum([z, z]), z.sum_along_dims(['x'])):
    check(zz.sum_weighted_statistics is None and zz.sum_weights is None,
          'a combination of zero states is not the zero state', 'zero')
    compare(both(zz + states[0]), ds[0], 'derived zero + s', 'zero')
  expect_raises(lambda: z.map(lambda x: x), 'mapping the zero state',
                'zero_map', ValueError)
  for s, d in zip(states, ds):
    compare(both(s), d, 'operand changed', 'mutated')
  obs.ev('cells_checked', c)
  obs.ev('states_summed', n)
  obs.mark('algebra', depth, spec, overlap, n)
  obs.sample(depth=depth, spec=spec, n=n)


def reduction(rng, obs):
  """sum_along_dims, dot, map(_multi) and the mean against cells."""
  pool = _pool(rng)
  depth = int(rng.integers(0, 3))
  dims = [str(d) for d in rng.permutation(DIMPOOL)[:int(rng.integers(1, 4))]]

  def fix(spec):
    if isinstance(spec, list):
      return [str(d) for d in rng.permutation(dims)]
    return {k: fix(v) for k, v in spec.items()}

  spec = fix(_structure(rng, pool, depth))
  st = _state(rng, spec, pool, 'same', hostile=bool(rng.random() < .6))
  d = both(st)
  red = [str(x) for x in rng.permutation(dims)[:int(
      rng.integers(0, len(dims) + 1))]]
  want = {}
  for (path, k), v in d.items():
    kk = frozenset(x for x in k if x[0] not in red)
    want.setdefault((path, kk), []).append(v)
  want = {k: float(np.sum(v)) for k, v in want.items()}
  got = st.sum_along_dims(red)
  c = compare(both(got), want, f'sum_along_dims {red} of {dims}', 'sum_along',
              1e-9)
  # A partial reduction and the remaining one compose.
  rest = [x for x in dims if x not in red]
  full = both(st.sum_along_dims(dims))
  c += compare(both(got.sum_along_dims(rest)), full, 'two-stage reduction',
               'two_stage', 1e-9)
  # sum over chunks, then reduce == reduce, then sum.
  st2 = _state(rng, spec, pool, 'same', hostile=False)
  c += compare(both((st + st2).sum_along_dims(red)),
               both(st.sum_along_dims(red) + st2.sum_along_dims(red)),
               'reduction does not distribute over +', 'distribute', 1e-9)
  if red:
    r = red[0]
    labs = pool[r][:3]
    wts = rng.integers(0, 4, 3).astype(float)
    warr = xr.DataArray(wts, dims=[r], coords={r: labs})
    wmap = {str(l): w for l, w in zip(labs, wts)}
    want = {}
    for (path, k), v in d.items():
      kk = frozenset(x for x in k if x[0] != r)
      lab = dict(k)[r]
      with np.errstate(invalid='ignore'):
        want.setdefault((path, kk), []).append(v * wmap[lab])
    with np.errstate(invalid='ignore'):
      want = {k: float(np.sum(v)) for k, v in want.items()}
    with np.errstate(invalid='ignore'):
      got = both(st.dot(warr, dim=r))
    c += compare(got, want, f'dot over {r}', 'dot', 1e-9)
    obs.ev('dots')
  k2 = float(rng.integers(2, 5))
  c += compare(both(st.map(lambda x: x * k2)),
               {k: v * k2 for k, v in d.items()}, 'map', 'map')
  d2 = both(st2)
  c += compare(
      both(aggregation.AggregationState.map_multi(
          lambda a, b: a - k2 * b, st, st2)),
      {k: v - k2 * d2[k] for k, v in d.items()}, 'map_multi (argument order)',
      'map_multi')
  expect_raises(lambda: aggregation.AggregationState.map_multi(
      lambda a, b: a + b, st, aggregation.AggregationState.zero()),
                'map_multi with a zero state', 'zero_map', ValueError)
  mean = cells(st.mean_statistics(), ())
  want = {}
  for (path, k), v in d.items():
    if path[0] == 'S':
      with np.errstate(all='ignore'):
        want[path[1:], k] = float(np.divide(v, d[('W',) + path[1:], k]))
  c += compare(mean, want, 'mean = weighted sum / weights', 'mean')
  compare(both(st), d, 'state changed by its methods', 'mutated')
  obs.ev('cells_checked', c)
  obs.ev('reductions')
  obs.mark('reduction', spec, sorted(red), dims)


def _exact(a, b, what, key):
  check(isinstance(a, xr.DataArray), f'{what}: not an array: {type(a)}', key)
  check(a.dims == b.dims, f'{what}: dims {a.dims} != {b.dims}', key)
  check(a.dtype == b.dtype, f'{what}: dtype {a.dtype} != {b.dtype}', key)
  check(set(a.coords) == set(b.coords),
        f'{what}: coords {set(a.coords)} != {set(b.coords)}', key)
  expect_close(a.values, b.values, what, key, rtol=0, atol=0)
  for c in b.coords:
    check(np.array_equal(a[c].values.astype(str), b[c].values.astype(str)),
          f'{what}: coordinate {c} {a[c].values} != {b[c].values}', key)


def _exact_tree(a, b, what, key):
  if isinstance(b, xr.DataArray):
    _exact(a, b, what, key)
    return 1
  check(set(a) == set(b), f'{what}: keys {set(a)} != {set(b)}', key)
  return sum(_exact_tree(a[k], b[k], f'{what}/{k}', key) for k in b)


def _same_state(a, b, what, key):
  return (_exact_tree(a.sum_weighted_statistics, b.sum_weighted_statistics,
                      f'{what}: sums', key)
          + _exact_tree(a.sum_weights, b.sum_weights, f'{what}: weights', key))


def roundtrip(rng, obs):
  pool = _pool(rng)
  depth = int(rng.integers(1, 4))
  spec = _structure(rng, pool, depth)
  dtype = [np.float32, np.float64][int(rng.integers(2))]
  st = _state(rng, spec, pool, 'some', dtype=dtype)
  A = aggregation.AggregationState
  n = _same_state(A.from_data_tree(st.to_data_tree()), st, 'data tree',
                  'data_tree')
  st = _state(rng, spec, pool, 'same', dtype=dtype)
  sep = str(rng.choice(['#', '#', '|', '::']))
  ds = st.to_dataset(separator=sep)
  leaves = len([1 for x in _leafs(st.sum_weights)])
  check(len(ds.data_vars) == 2 * leaves,
        f'{len(ds.data_vars)} variables for {leaves} leaves', 'dataset')
  back = A.from_dataset(ds, separator=sep)
  n += _same_state(back, st, f'dataset (separator {sep!r})', 'dataset')
  # Continuing to merge a restored state is the same as never storing it.
  st2 = _state(rng, spec, pool, 'same', hostile=False, dtype=dtype)
  n += _same_state(back + st2, st + st2, 'merge after restore', 'resume')
  if rng.random() < 0.4:
    path = os.path.join(obs.tmp, f'{rng.integers(1 << 40)}.nc')
    ds.to_netcdf(path)
    loaded = xr.open_dataset(path, decode_timedelta=True).load()
    loaded.close()
    os.remove(path)
    n += _same_state(A.from_dataset(loaded, separator=sep), st,
                     'netCDF file', 'netcdf')
    obs.ev('files')
  obs.ev('leaves_round_tripped', n)
  obs.mark('rt', spec, sep, str(dtype))


def _leafs(x):
  if isinstance(x, xr.DataArray):
    yield x
  else:
    for v in x.values():
      yield from _leafs(v)


SCENARIOS = {'algebra': (algebra, 1200, 40000),
             'reduction': (reduction, 2500, 60000),
             'roundtrip': (roundtrip, 800, 25000)}
MIN = {'cells_checked': 100000, 'reductions': 1000, 'leaves_round_tripped': 4000,
       'dots': 500, 'files': 200}
