"""Workload generators shared by the monitors (seeded numpy RNG only)."""

import numpy as np
import xarray as xr


def init_times(rng, n, regular=None, base=None, step_h=None):
  base = np.datetime64(base or rng.choice(
      ['2019-12-30T00', '2020-02-27T06', '2021-06-30T12', '2022-12-31T18']),
                       'ns')
  regular = rng.random() < 0.6 if regular is None else regular
  if regular:
    step = step_h or int(rng.choice([6, 12, 24, 31]))
    off = np.arange(n) * step
  else:
    off = np.sort(rng.choice(24 * 40, size=n, replace=False))
  return base + off.astype('timedelta64[h]').astype('timedelta64[ns]')


def lead_times(rng, n, regular=None):
  regular = rng.random() < 0.6 if regular is None else regular
  if regular:
    off = np.arange(n) * int(rng.choice([1, 6, 12, 24])) + int(
        rng.choice([0, 0, 6]))
  else:
    off = np.sort(rng.choice(24 * 12, size=n, replace=False))
  return off.astype('timedelta64[h]').astype('timedelta64[ns]')


def latitudes(rng, n, lo=-90.0, hi=90.0, regular=None, order=None,
              decimals=2):
  regular = rng.random() < 0.5 if regular is None else regular
  if regular:
    if rng.random() < 0.5 and lo == -90 and hi == 90:
      v = np.linspace(lo, hi, n) if n > 1 else np.array([0.0])
    else:
      d = (hi - lo) / n
      v = lo + d * (np.arange(n) + 0.5)
  else:
    v = np.sort(rng.choice(np.arange(int(lo * 10), int(hi * 10) + 1), size=n,
                           replace=False)) / 10.0
  v = np.round(v, 6)
  order = rng.choice(['asc', 'desc']) if order is None else order
  return v if order == 'asc' else v[::-1].copy()


def longitudes(rng, n, conv=None):
  conv = conv or rng.choice(['0', '-180'])
  if rng.random() < 0.5:
    v = np.arange(n) * (360.0 / n)
  else:
    v = np.sort(rng.choice(3600, size=n, replace=False)) / 10.0
  v = np.round(v, 6)
  if conv == '-180':
    v = np.sort(np.where(v >= 180, v - 360, v))
  return v


def values(rng, shape, kind=None):
  kind = kind or rng.choice(['normal', 'normal', 'ints', 'big', 'ties'])
  if kind == 'normal':
    return rng.normal(size=shape)
  if kind == 'ints':
    return rng.integers(-5, 6, size=shape).astype(float)
  if kind == 'ties':
    return rng.choice([-1.0, 0.0, 0.5, 2.0], size=shape)
  if kind == 'unit':
    return rng.random(size=shape)
  if kind == 'binary':
    return rng.integers(0, 2, size=shape).astype(float)
  if kind == 'big':
    return 250.0 + 30.0 * rng.normal(size=shape)
  raise ValueError(kind)


def holes(rng, arr, frac=None):
  """Replaces random entries by NaN, also whole slices now and then."""
  arr = arr.copy()
  frac = float(rng.choice([0.0, 0.05, 0.3, 0.7])) if frac is None else frac
  arr[rng.random(arr.shape) < frac] = np.nan
  if arr.ndim and frac and rng.random() < 0.3:
    ax = int(rng.integers(arr.ndim))
    idx = [slice(None)] * arr.ndim
    idx[ax] = int(rng.integers(arr.shape[ax]))
    arr[tuple(idx)] = np.nan
  return arr


COORD = {
    'init_time': lambda rng, n: init_times(rng, n),
    'lead_time': lambda rng, n: lead_times(rng, n),
    'latitude': lambda rng, n: latitudes(rng, n),
    'longitude': lambda rng, n: longitudes(rng, n),
    'number': lambda rng, n: np.arange(n),
    'level': lambda rng, n: np.sort(
        rng.choice([1000, 925, 850, 700, 500, 300, 250, 100], size=n,
                   replace=False))[::-1].copy(),
}


def grid(rng, dims, sizes=None, lo=1, hi=5):
  """dict dim -> coordinate values."""
  out = {}
  for d in dims:
    n = (sizes or {}).get(d)
    if n is None:
      n = int(rng.integers(2 if d == 'latitude' else lo, hi))
    out[d] = COORD[d](rng, n)
  return out


def array(rng, coords, dims=None, kind=None, nan=0.0, dtype=float, name=None):
  dims = list(coords) if dims is None else list(dims)
  shape = tuple(len(coords[d]) for d in dims)
  v = values(rng, shape, kind)
  if nan is None or nan:
    v = holes(rng, v, nan)
  return xr.DataArray(v.astype(dtype), dims=dims,
                      coords={d: coords[d] for d in dims}, name=name)


def shuffled(rng, seq):
  seq = list(seq)
  return [seq[i] for i in rng.permutation(len(seq))]


def subset(rng, seq, p=0.5):
  return [s for s in seq if rng.random() < p]


def expand(arr, dims, out_dims, sizes):
  """Broadcasts numpy arr with named dims to out_dims (own implementation)."""
  arr = np.asarray(arr)
  order = [d for d in out_dims if d in dims]
  arr = np.transpose(arr, [list(dims).index(d) for d in order])
  shape = [sizes[d] if d in dims else 1 for d in out_dims]
  return np.broadcast_to(arr.reshape(shape), [sizes[d] for d in out_dims])


def oracle_aggregate(stat, dims, reduce_dims, weights=(), bins=(), mask=None,
                     skipna=False):
  """Brute-force weighted sums.

  stat: numpy array over dims. weights: [(dims, arr)]. bins: [(name, dims, arr)]
  with arr over (name, *dims). mask: full-shape bool or None.
  Returns (out_dims, S, W, touched) where S is the weighted sum with NaN poison
  for unmasked NaN inside a bin with non-zero membership, W the weight sum, and
  nan_any is True where any contributing-slice NaN exists (inside or outside
  the bin).
  """
  sizes = dict(zip(dims, stat.shape))
  for name, _, arr in bins:
    sizes[name] = arr.shape[0]
  full = list(dims) + [b[0] for b in bins]
  s = expand(stat.astype(float), dims, full, sizes).copy()
  m = (np.ones(s.shape, bool) if mask is None
       else expand(mask, dims, full, sizes).copy())
  nan = np.isnan(s)
  if skipna:
    m &= ~nan
  s = np.where(m, s, 0.0)
  nan = nan & m
  w = np.ones(s.shape)
  for wd, wa in weights:
    w = w * expand(np.asarray(wa, float), wd, full, sizes)
  b = np.ones(s.shape)
  for name, bd, arr in bins:
    b = b * expand(np.asarray(arr, float), [name] + list(bd), full, sizes)
  axes = tuple(full.index(d) for d in reduce_dims)
  wb = w * b
  S = np.sum(np.where(nan, 0, s) * wb, axis=axes)
  W = np.sum(m * wb, axis=axes)
  A = np.sum(np.abs(np.where(nan, 0, s) * wb), axis=axes)
  # A missing value with weight zero may or may not count (NaN * 0, or skipped
  # by the linear algebra library): left open.
  nan_in = np.any(nan & (wb != 0), axis=axes)
  nan_any = np.any(nan, axis=axes)
  out_dims = [d for d in full if d not in reduce_dims]
  return out_dims, S, W, A, nan_in, nan_any
