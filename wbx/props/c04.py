"""C04: aggregation is the weighted, binned, masked mean it claims to be."""

import numpy as np
import xarray as xr
from wbx import gen
from wbx.core import check, close, expect_close, Violation
from weatherbenchX import aggregation
from weatherbenchX import binning
from weatherbenchX import weighting
from weatherbenchX.metrics import base as metrics_base

RULE = ('random statistic arrays (1-5 dims in any order, float64/float32/int/'
        'bool, NaN holes, masks on a subset of dims) x reduce dims x 0-3 '
        'weightings x 0-2 binnings x masked x skipna; fingerprint = (dims, '
        'reduce, options, dtype); non-trivial = at least one reduced dim with '
        'size>1 and (weights or bins or mask or NaN)')
ASSUMPTIONS = [
    'float32 inputs are compared with a tolerance of 2e-5 of the sum of '
    'absolute terms',
    'for an unmasked NaN outside a bin the documentation leaves the value of '
    'that bin open (NaN today); only the right value or NaN is accepted']


class RandomWeight(weighting.Weighting):

  def __init__(self, da):
    self.da = da

  def weights(self, statistic):
    return self.da


class RandomBins(binning.Binning):

  def __init__(self, name, da):
    super().__init__(name)
    self.da = da

  def create_bin_mask(self, statistic):
    return self.da


def lat_weights(lat):
  """Independent area weights: sin differences between cell edges."""
  lat = np.asarray(lat, float)
  rev = lat[0] > lat[-1]
  x = np.deg2rad(lat[::-1] if rev else lat)
  e = np.empty(len(x) + 1)
  for i in range(1, len(x)):
    e[i] = (x[i - 1] + x[i]) / 2
  e[0] = max(-np.pi / 2, x[0] - (x[1] - x[0]) / 2)
  e[-1] = min(np.pi / 2, x[-1] + (x[-1] - x[-2]) / 2)
  w = np.array([np.sin(e[i + 1]) - np.sin(e[i]) for i in range(len(x))])
  w = w / w.mean()
  return w[::-1] if rev else w


def make_stat(rng, dims=None):
  all_dims = ['init_time', 'lead_time', 'latitude', 'longitude', 'number']
  if dims is None:
    dims = gen.shuffled(rng, gen.subset(rng, all_dims, 0.65))
    if not dims:
      dims = ['latitude']
  coords = gen.grid(rng, dims)
  dtype = rng.choice(['f8', 'f8', 'f8', 'f4', 'i8', 'bool'])
  if dtype == 'bool':
    da = gen.array(rng, coords, dims, 'binary').astype(bool)
  elif dtype == 'i8':
    da = gen.array(rng, coords, dims, 'ints').astype('int64')
  else:
    da = gen.array(rng, coords, dims,
                   nan=float(rng.choice([0, 0, 0.1, 0.4])), dtype=dtype)
  return da, str(dtype)


def make_aggregator(rng, da, allow_skipna=True):
  """Random Aggregator for da, with the same thing as oracle arguments."""
  dims = list(da.dims)
  reduce_dims = gen.subset(rng, dims, 0.6)
  weigh, w_or = [], []
  for _ in range(int(rng.choice([0, 1, 1, 2]))):
    if rng.random() < 0.4:
      weigh.append(weighting.GridAreaWeighting())
      if 'latitude' in dims:
        w_or.append((('latitude',), lat_weights(da.latitude.values)))
    else:
      wd = gen.shuffled(rng, gen.subset(rng, dims, 0.4))
      coords = {d: da[d].values for d in wd}
      w = xr.DataArray(
          rng.random(tuple(da.sizes[d] for d in wd))
          * (rng.random(tuple(da.sizes[d] for d in wd)) > 0.15),
          dims=wd, coords=coords)
      weigh.append(RandomWeight(w))
      w_or.append((tuple(wd), w.values))
  bins, b_or = [], []
  for k in range(int(rng.choice([0, 0, 1, 2]))):
    bd = gen.shuffled(rng, gen.subset(rng, dims, 0.5))
    nb = int(rng.integers(1, 4))
    name = f'bin{k}'
    coords = {d: da[d].values for d in bd}
    arr = rng.random((nb,) + tuple(da.sizes[d] for d in bd)) < 0.6
    full_dims = [name] + bd
    order = gen.shuffled(rng, full_dims)
    m = xr.DataArray(arr, dims=full_dims,
                     coords=dict(coords, **{name: np.arange(nb) * 10}))
    bins.append(RandomBins(name, m.transpose(*order)))
    b_or.append((name, tuple(bd), arr))
  masked = bool(rng.random() < 0.5)
  skipna = bool(rng.random() < 0.3) and allow_skipna
  kw = dict(reduce_dims=reduce_dims if rng.random() < .5 else set(reduce_dims),
            bin_by=bins or (None if rng.random() < .5 else []),
            weigh_by=weigh or (None if rng.random() < .5 else []),
            masked=masked, skipna=skipna)
  return aggregation.Aggregator(**kw), dict(
      reduce_dims=reduce_dims, weights=w_or, bins=b_or, masked=masked,
      skipna=skipna)


def add_mask(rng, da, with_nan_masked=True):
  md = gen.shuffled(rng, gen.subset(rng, list(da.dims), 0.7)) or [da.dims[0]]
  m = rng.random(tuple(da.sizes[d] for d in md)) < 0.6
  mda = xr.DataArray(m, dims=md, coords={d: da[d].values for d in md})
  full = gen.expand(m, md, list(da.dims), dict(da.sizes))
  out = da.assign_coords(mask=mda)
  if with_nan_masked and da.dtype.kind == 'f' and rng.random() < 0.6:
    v = out.values.copy()
    kill = ~full & (rng.random(full.shape) < 0.7)
    v[kill] = np.nan
    if rng.random() < 0.3:
      v[~full & ~kill] = np.inf
    out = out.copy(data=v)
  return out, full


def compare(state_s, state_w, out_dims, S, W, A, nan_in, nan_any, f32, what):
  for nm, got in (('sums', state_s), ('weights', state_w)):
    check(set(got.dims) == set(out_dims),
          f'{what}: result dims {got.dims}, expected {out_dims}', 'dims')
  s = state_s.transpose(*out_dims).values.astype(float)
  w = state_w.transpose(*out_dims).values.astype(float)
  rtol = 2e-5 if f32 else 1e-9
  expect_close(w, W, f'{what}: sum of weights', 'weights', rtol=rtol,
               atol=1e-6 if f32 else 1e-12)
  tol = rtol * A + (1e-6 if f32 else 1e-12)
  ok_num = np.abs(s - S) <= tol
  isn = np.isnan(s)
  bad = np.where(nan_in, ~isn, np.where(nan_any, ~(isn | ok_num), ~ok_num))
  if bad.any():
    i = np.argwhere(bad)[0]
    i = tuple(i)
    kind = ('nan_swallowed' if nan_in[i] else 'sum')
    raise Violation(
        f'{what}: cell {dict(zip(out_dims, map(int, i)))} weighted sum '
        f'{s[i]!r}, expected {"NaN" if nan_in[i] else S[i]!r} '
        f'(weight {W[i]!r})', kind)
  return s, w


class _Raw(metrics_base.PerVariableStatistic):
  """Statistic that passes the prediction through (user-defined statistic)."""

  def _compute_per_variable(self, predictions, targets):
    return predictions


def weighted_mean(rng, obs):
  da, dtype = make_stat(rng)
  agg, o = make_aggregator(rng, da)
  has_mask = rng.random() < 0.6
  mask = None
  if has_mask:
    da, mask = add_mask(rng, da)
  f32 = dtype == 'f4'
  use_mask = mask if (o['masked'] and has_mask) else None
  v = da.values
  if use_mask is None and np.isinf(np.asarray(v, float)).any():
    v = np.where(np.isinf(v), 1.0, v)
    da = da.copy(data=v)
  out_dims, S, W, A, nin, nany = gen.oracle_aggregate(
      np.asarray(v, float), list(da.dims), o['reduce_dims'], o['weights'],
      o['bins'], use_mask, o['skipna'])
  desc = (f'dims={da.dims} dtype={dtype} reduce={o["reduce_dims"]} '
          f'nw={len(o["weights"])} nb={len(o["bins"])} masked={o["masked"]} '
          f'has_mask={has_mask} skipna={o["skipna"]}')
  st = agg.aggregate_statistics({'s': {'x': da}})
  check(st.sum_weighted_statistics is not None
        and 'x' in st.sum_weighted_statistics['s'],
        f'{desc}: variable dropped', 'dropped')
  s, w = compare(st.sum_weighted_statistics['s']['x'],
                 st.sum_weights['s']['x'], out_dims, S, W, A, nin, nany, f32,
                 desc)
  # Labels of the surviving dimensions.
  for d in out_dims:
    got = st.sum_weighted_statistics['s']['x']
    if d.startswith('bin'):
      check(np.array_equal(got[d].values, np.arange(got.sizes[d]) * 10),
            f'{desc}: bin labels {got[d].values}', 'labels')
    else:
      check(np.array_equal(got[d].values, da[d].values),
            f'{desc}: coordinate {d} changed', 'labels')
  with np.errstate(all='ignore'):
    want_mean = s / w
  mean = st.mean_statistics()['s']['x'].transpose(*out_dims)
  expect_close(mean, want_mean, f'{desc}: mean', 'mean', rtol=1e-6 if f32
               else 1e-9, atol=1e-6 if f32 else 1e-12)
  # The one-call entry point over the same data.
  ds = aggregation.compute_metric_values_for_single_chunk(
      {'m': _Raw()}, agg, {'x': da}, {'x': da})
  expect_close(ds['m.x'].transpose(*out_dims), want_mean,
               f'{desc}: single chunk value', 'single_chunk',
               rtol=1e-6 if f32 else 1e-9, atol=1e-6 if f32 else 1e-12)
  obs.ev('cells_checked', S.size)
  obs.ev('nan_cells', int(nin.sum()))
  obs.ev('zero_weight_cells', int((W == 0).sum()))
  obs.ev(f'dtype_{dtype}')
  red = int(np.prod([da.sizes[d] for d in o['reduce_dims']] or [1]))
  if red > 1 and (o['weights'] or o['bins'] or use_mask is not None):
    obs.mark(da.dims, sorted(o['reduce_dims']), len(o['weights']),
             len(o['bins']), o['masked'], has_mask, o['skipna'], dtype)
    obs.sample(desc=desc, first_sum=s.ravel()[:3], first_weight=w.ravel()[:3])


def missing_dims(rng, obs):
  """Variables without a reduced dimension, or without a binned one, drop out
  and leave the others unaffected."""
  c = gen.grid(rng, ['init_time', 'latitude', 'longitude'])
  full = gen.array(rng, c)
  part = gen.array(rng, c, ['init_time', 'longitude'])
  reduce_dims = gen.shuffled(rng, ['latitude', 'longitude'])
  agg = aggregation.Aggregator(reduce_dims=reduce_dims)
  order = gen.shuffled(rng, ['full', 'part'])
  d = {'full': full, 'part': part}
  st = agg.aggregate_statistics({'s': {k: d[k] for k in order}})
  check(set(st.sum_weighted_statistics['s']) == {'full'} and
        set(st.sum_weights['s']) == {'full'},
        'a variable lacking a reduced dimension must be left out', 'missing')
  expect_close(st.mean_statistics()['s']['full'],
               full.values.mean(axis=(full.dims.index('latitude'),
                                      full.dims.index('longitude'))),
               'other variable affected', 'missing')
  b = xr.DataArray(rng.random((2, len(c['latitude']))) < 0.5,
                   dims=['b', 'latitude'],
                   coords={'latitude': c['latitude'], 'b': [0, 1]})
  agg = aggregation.Aggregator(reduce_dims=['longitude'],
                               bin_by=[RandomBins('b', b)])
  st = agg.aggregate_statistics({'s': {k: d[k] for k in order}})
  check(set(st.sum_weighted_statistics['s']) == {'full'},
        'a variable lacking a binned dimension must be left out', 'missing')

  got = st.sum_weighted_statistics['s']['full']
  ref = (full.values[None].astype(float) *
         b.values[:, None, :, None]).sum(axis=-1)
  expect_close(got.transpose('b', 'init_time', 'latitude'), ref, 'binned',
               'missing')
  try:
    aggregation.Aggregator(
        reduce_dims=['longitude'],
        bin_by=[RandomBins('b', b), RandomBins('b', b)]).aggregate_statistics(
            {'s': {'full': full}})
  except ValueError:
    obs.ev('duplicate_bins_rejected')
  else:
    raise Violation('two binnings with one name were accepted', 'dup_bins')
  obs.ev('missing_dims_checked')
  obs.mark('missing', tuple(order), tuple(reduce_dims), full.shape)


SCENARIOS = {'weighted_mean': (weighted_mean, 5000, 60000),
             'missing_dims': (missing_dims, 60, 400)}
MIN = {'cells_checked': 10000, 'nan_cells': 200, 'dtype_bool': 20,
       'missing_dims_checked': 50, 'zero_weight_cells': 20}
