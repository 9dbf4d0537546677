"""C08: area weights are the exact areas of the latitude cells."""

import math

import numpy as np
import xarray as xr
from wbx import gen
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import aggregation
from weatherbenchX import weighting
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import deterministic

RULE = ('latitude vectors: regular with/without poles, Gaussian-like, '
        'irregular, regional, ascending/descending, float32/float64/int, 2-720 '
        'points, any dimension name; weights compared with cell areas '
        'computed by scalar math between the midpoints; fingerprint = (n, '
        'kind, order, dtype, normalised)')
ASSUMPTIONS = ['at least two latitudes (a cell size is undefined for one)',
               'latitudes lie in [-90, 90]']


def areas(lat):
  """Area of each cell (unit: hemisphere-normalised sine difference)."""
  order = sorted(range(len(lat)), key=lambda i: float(lat[i]))
  x = [math.radians(float(lat[i])) for i in order]
  n = len(x)
  out = [0.0] * n
  for j in range(n):
    lo = (x[j - 1] + x[j]) / 2 if j else x[0] - (x[1] - x[0]) / 2
    hi = (x[j + 1] + x[j]) / 2 if j < n - 1 else x[-1] + (x[-1] - x[-2]) / 2
    lo, hi = max(lo, -math.pi / 2), min(hi, math.pi / 2)
    out[order[j]] = 2 * math.cos((hi + lo) / 2) * math.sin((hi - lo) / 2)
  return np.array(out)


def _lat(rng):
  kind = str(rng.choice(['poles', 'offset', 'irregular', 'regional', 'gauss',
                         'int', 'cluster']))
  n = int(rng.integers(2, 30)) if rng.random() < .85 else int(
      rng.integers(30, 721))
  if kind == 'poles':
    v = np.linspace(-90, 90, n)
  elif kind == 'offset':
    d = 180 / n
    v = -90 + d * (np.arange(n) + .5)
  elif kind == 'gauss':
    v = np.degrees(np.arcsin(np.polynomial.legendre.leggauss(n)[0]))
  elif kind == 'int':
    n = min(n, 60)
    v = np.sort(rng.choice(np.arange(-90, 91), n, replace=False))
  elif kind == 'regional':
    lo = rng.uniform(-90, 60)
    v = lo + np.arange(n) * (min(30, 90 - lo) / n)
  elif kind == 'cluster':
    v = np.sort(np.unique(np.round(
        np.clip(rng.normal(rng.uniform(-80, 80), 8, n), -90, 90), 3)))
    if v.size < 2:
      v = np.array([-10.0, 20.0])
  else:
    v = np.sort(rng.choice(np.arange(-900, 901), n, replace=False)) / 10
  if rng.random() < .5:
    v = v[::-1].copy()
  if v.dtype.kind == 'f' and rng.random() < .3:
    v = v.astype(np.float32)
  return kind, v


def weights(rng, obs):
  kind, lat = _lat(rng)
  if len(np.unique(lat)) < len(lat):
    return
  f32 = lat.dtype == np.float32
  name = str(rng.choice(['latitude', 'latitude', 'lat']))
  norm = bool(rng.random() < .6)
  dims = gen.shuffled(rng, [name] + gen.subset(
      rng, ['longitude', 'init_time'], .6))
  sizes = {name: len(lat), 'longitude': 3, 'init_time': 2}
  stat = xr.DataArray(rng.normal(size=[sizes[d] for d in dims]), dims=dims,
                      coords={name: lat})
  kw = {} if norm and rng.random() < .5 else {'return_normalized': norm}
  kw |= {} if name == 'latitude' else {'latitude_name': name}
  w = weighting.GridAreaWeighting(**kw).weights(stat)
  check(w.dims == (name,), f'weights over {w.dims}', 'dims')
  check(np.array_equal(w[name].values, lat) and np.array_equal(
      stat[name].values, lat), 'latitude labels changed', 'labels')
  a = areas(lat)
  want = a / a.mean() if norm else a
  what = f'area weights kind={kind} n={len(lat)} desc={lat[0] > lat[-1]} norm={norm}'
  # Single precision latitudes: absolute error of a few eps per cell edge.
  tol = dict(rtol=2e-4, atol=2e-6 * (1 / a.mean() if norm else 1)) if (
      f32) else dict(rtol=1e-8, atol=1e-12)
  expect_close(w.values, want, what, 'area', **tol)
  check(f32 or bool((w.values > 0).all()), f'{what}: a cell has no area', 'positive')
  if norm:
    expect_close(w.values.mean(), 1.0, f'{what}: mean weight', 'norm',
                 rtol=1e-5 if f32 else 1e-9)
  elif kind in ('poles', 'offset'):
    expect_close(w.values.sum(), 2.0, f'{what}: total area of the sphere',
                 'norm', rtol=1e-5 if f32 else 1e-9)
  # Reversed storage gives the same weight at the same latitude.
  rev = weighting.GridAreaWeighting(**kw).weights(
      stat.isel({name: slice(None, None, -1)}))
  expect_close(rev.values[::-1], w.values, f'{what}: reversed', 'reversed',
               rtol=1e-5 if f32 else 1e-12)
  # Effect on an aggregated mean.
  p = stat.rename({name: 'latitude'})
  t = p.copy(data=rng.normal(size=p.shape))
  metrics = {'bias': deterministic.Bias()}
  agg = aggregation.Aggregator(
      reduce_dims=list(p.dims),
      weigh_by=[weighting.GridAreaWeighting(return_normalized=norm)])
  got = aggregation.compute_metric_values_for_single_chunk(
      metrics, agg, {'v': p}, {'v': t})['bias.v']
  ax = p.dims.index('latitude')
  sh = [1] * p.ndim
  sh[ax] = -1
  wa = np.broadcast_to(a.reshape(sh), p.shape)
  if not f32:
    expect_close(float(got), float(((p.values - t.values) * wa).sum() / wa.sum()),
                 f'{what}: area-weighted bias', 'mean', rtol=1e-8, atol=1e-10)
  obs.ev('weights_checked', len(lat))
  obs.ev('grids')
  obs.ev('kind.' + kind)
  obs.mark(len(lat), kind, bool(lat[0] > lat[-1]), str(lat.dtype), norm, dims)
  obs.sample(what=what, first=lat[:3].tolist())


def special(rng, obs):
  n = int(rng.integers(3, 12))
  # Without a latitude dimension: no weighting at all.
  s = xr.DataArray(rng.normal(size=n), dims=['index'], coords={
      'latitude': ('index', rng.uniform(-90, 90, n))})
  w = weighting.GridAreaWeighting().weights(s)
  check(w.ndim == 0 and float(w) == 1.0, f'weight of sparse data: {w.values}',
        'nolat')
  # Latitudes that are no grid are rejected instead of weighted wrongly.
  lat = np.sort(rng.choice(np.arange(-90, 91), n, replace=False)).astype(float)
  i = int(rng.integers(1, n - 1))
  for what, bad in {
      'duplicate latitude': np.insert(lat, i, lat[i]),
      'latitude order broken': lat[[*range(i), i + 1, i, *range(i + 2, n)]],
      'NaN latitude': np.where(np.arange(n) == i, np.nan, lat)}.items():
    b = bad if rng.random() < .5 else bad[::-1].copy()
    s = xr.DataArray(np.zeros(len(b)), dims=['latitude'],
                     coords={'latitude': b})
    expect_raises(lambda s=s: weighting.GridAreaWeighting().weights(s), what,
                  'reject')
    obs.ev('rejections')
  obs.mark('special', n, i)


SCENARIOS = {'weights': (weights, 1500, 40000), 'special': (special, 200, 4000)}
MIN = {'grids': 1000, 'weights_checked': 20000, 'rejections': 300,
       'kind.poles': 50, 'kind.gauss': 50, 'kind.irregular': 50}
