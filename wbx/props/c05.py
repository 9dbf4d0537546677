"""C05: missing data is propagated or masked, never silently scored."""

import numpy as np
import xarray as xr
from wbx import catalog
from wbx import gen
from wbx.core import check, close, expect_close, Violation
from wbx.props import c04
from weatherbenchX import aggregation
from weatherbenchX import binning
from weatherbenchX import weighting

RULE = ('every catalogue metric: a NaN injected at one random position (one '
        'random member for ensembles) of predictions or targets must make '
        'every statistic covering that position NaN, leave all other cells '
        'bit-identical, and reach the aggregated value unless skipna; with a '
        'mask on the targets, random/NaN/inf garbage under the mask must not '
        'change any sum, weight or value; fingerprint = (metric, side, '
        'variable, mask dims)')
ASSUMPTIONS = [
    'statistics that average over space (FSS, relative intensity) are NaN '
    'for the whole field at that time, or for the windows containing it',
    'Weibull plotting positions count all members (pinned by the existing '
    'tests), so an ensemble member missing there is looked at only with '
    'skipna=False',
    'the mask of targets and the mask of predictions, if both exist, agree',
    'masks for spatially averaging statistics have both spatial dimensions']

BASE = ('init_time', 'lead_time', 'latitude', 'longitude')


def _window_cells(nlat, nlon, idx):
  """3x3 windows (wrapped in longitude) that contain the point."""
  out = np.zeros((nlat, nlon), bool)
  for i in range(1, nlat - 1):
    for j in range(nlon):
      dj = (j - idx['longitude']) % nlon
      if abs(i - idx['latitude']) <= 1 and dj in (0, 1, nlon - 1):
        out[i, j] = True
  return out


def _bad(rng, w, v, side, with_member=True):
  """Copy of the data dicts with one NaN; returns (preds, targs, index)."""
  src = getattr(w, 'predictions' if side == 'p' else 'targets')
  da = src[v].copy(deep=True)
  idx = {d: int(rng.integers(da.sizes[d])) for d in da.dims}
  da.values[tuple(idx[d] for d in da.dims)] = np.nan
  out = dict(src)
  out[v] = da
  p, t = (out, w.targets) if side == 'p' else (w.predictions, out)
  return p, t, {d: i for d, i in idx.items() if d in BASE}


def _stats(metric, p, t):
  return {k: s.compute(dict(p), dict(t)) for k, s in metric.statistics.items()}


def _uses(entry, side):
  return entry.uses_predictions if side == 'p' else entry.uses_targets


def nan_surface(rng, obs):
  e = catalog.ENTRIES[int(rng.integers(len(catalog.ENTRIES)))]
  w = catalog.world(rng, e.kind)
  m = e.make(w, rng)
  if e.name == 'seeps':
    v = catalog.VARS[1]
  else:
    v = str(rng.choice(catalog.VARS))
  side = str(rng.choice(['p', 't']))
  p, t, idx = _bad(rng, w, v, side)
  base = _stats(m, w.predictions, w.targets)
  got = _stats(m, p, t)
  what = f'{e.name}: NaN in {"predictions" if side == "p" else "targets"} {v}'
  surfaced = 0
  for k in base:
    check(set(base[k]) == set(got[k]), f'{what}: variables of {k} changed',
          f'variables.{e.name}')
    for name in base[k]:
      b, g = base[k][name], got[k][name]
      check(b.dims == g.dims and b.shape == g.shape,
            f'{what}: {k} changed shape', f'shape.{e.name}')
      affected = name == v or name == 'wind'
      sel = {d: i for d, i in idx.items() if d in b.dims}
      cover = xr.zeros_like(b, dtype=bool)
      cover.values[tuple(sel.get(d, slice(None)) for d in b.dims)] = True
      if e.name == 'fss':
        sel = {d: i for d, i in sel.items() if d not in ('latitude',
                                                        'longitude')}
        win = xr.DataArray(
            _window_cells(b.sizes['latitude'], b.sizes['longitude'], idx),
            dims=['latitude', 'longitude'])
        cover = xr.zeros_like(b, dtype=bool)
        cover.values[tuple(sel.get(d, slice(None)) for d in b.dims)] = True
        cover = (cover & win.assign_coords(
            latitude=b.latitude, longitude=b.longitude)).transpose(*b.dims)
      gv, bv, cv = g.values, b.values, cover.values
      if not affected:
        check(close(gv, bv, 0, 0),
              f'{what}: {k}.{name} of the other variable changed',
              f'other_variable.{e.name}')
        continue
      check(close(gv[~cv], bv[~cv], 0, 0),
            f'{what}: {k}.{name} changed outside the covering cells',
            f'spread.{e.name}')
      isn = np.isnan(gv[cv].astype(float))
      if not _uses(e, side):
        check(close(gv, bv, 0, 0), f'{what}: {k}.{name} does not use it',
              f'unused.{e.name}')
      elif isn.all():
        surfaced += 1
      elif close(gv[cv], bv[cv], 0, 0) and len(base) > 1:
        pass   # this statistic does not use that input (others must)
      else:
        raise Violation(
            f'{what} at {idx}: {k}.{name} is scored as {gv[cv].ravel()[:6]} '
            f'instead of missing (without NaN {bv[cv].ravel()[:6]})',
            f'scored.{e.name}')
  if _uses(e, side) and (
      e.name != 'subset_mae' or v == catalog.VARS[1]):
    check(surfaced >= 1, f'{what}: no statistic shows the missing value',
          f'swallowed.{e.name}')
    # ... and the aggregated value shows it.
    red = [d for d in BASE]
    agg = aggregation.Aggregator(reduce_dims=red)
    if e.name == 'rel_intensity':
      agg = aggregation.Aggregator(reduce_dims=['init_time', 'lead_time'])
    if e.name in ('reliability', ):
      pass
    ds = aggregation.compute_metric_values_for_single_chunk(
        {'m': m}, agg, dict(p), dict(t))
    names = [n for n in ds.data_vars if n in (f'm.{v}', 'm.wind')]
    check(bool(names), f'{what}: no value at all', f'value.{e.name}')
    for n in names:
      check(bool(np.isnan(ds[n].values).all()),
            f'{what}: aggregated value {n} = {ds[n].values.ravel()[:5]} hides '
            'the missing value', f'aggregated.{e.name}')
    obs.ev('aggregates_nan')
    obs.ev('surfaced', surfaced)
  else:
    obs.ev('unused_side')
  obs.ev('metric_' + e.name)
  obs.mark(e.name, side, v)
  obs.sample(metric=e.name, side=side, variable=v, index=idx,
             surfaced=surfaced)


def _garbage(rng, da, dead, how):
  """Replaces masked-out points of da by garbage. dead: bool DataArray."""
  dead = dead.broadcast_like(da).transpose(*da.dims).values
  v = da.values.copy()
  n = int(dead.sum())
  if how == 'nan':
    g = np.full(n, np.nan)
  elif how == 'inf':
    g = rng.choice([np.inf, -np.inf, np.nan, 0.0], size=n)
  elif how == 'binary':
    g = rng.integers(0, 2, size=n).astype(float)
  else:
    g = 50 * rng.normal(size=n)
  v[dead] = g
  return da.copy(data=v)


def _mask(rng, w, e=None):
  md = gen.subset(rng, list(BASE), 0.6) or ['longitude']
  if e is not None and e.name in ('fss', 'rel_intensity'):  # needs both
    md = sorted(set(md) | {'latitude', 'longitude'})
  md = gen.shuffled(rng, md)
  mv = rng.random([len(w.coords[d]) for d in md]) < rng.choice([.4, .7, .9])
  return xr.DataArray(mv, dims=md, coords={d: w.coords[d] for d in md})


SPATIAL_MASK_ONLY = ('rel_intensity',)


def masked_no_influence(rng, obs):
  e = catalog.ENTRIES[int(rng.integers(len(catalog.ENTRIES)))]
  if e.name == 'seeps':
    e = catalog.BY_NAME['mse']   # SEEPS brings its own mask (see seeps_mask)
  w = catalog.world(rng, e.kind, dict(latitude=int(rng.integers(3, 6))))
  m = e.make(w, rng)
  mask = _mask(rng, w, e)
  if not mask.values.any() or mask.values.all():
    mask.values.flat[0] = not mask.values.flat[0]
    if not mask.values.any() or mask.values.all():
      return
  hows = ['random', 'nan', 'inf']
  if e.kind in ('bin', 'ensbin', 'prob'):
    hows = ['nan', 'binary']
  how = str(rng.choice(hows))
  if how == 'inf' and e.name in ('wasserstein',):
    how = 'nan'
  t0 = {k: v.assign_coords(mask=mask) for k, v in w.targets.items()}
  sides = str(rng.choice(['targets', 'both', 'predictions'], p=[.5, .25, .25]))
  p0 = dict(w.predictions)
  if sides != 'targets':
    p0 = {k: v.assign_coords(mask=mask) for k, v in p0.items()}
  if sides == 'predictions':
    t0 = dict(w.targets)
  p1 = {k: _garbage(rng, v, ~mask, how) for k, v in p0.items()}
  t1 = {k: _garbage(rng, v, ~mask, how) for k, v in t0.items()}
  keep = gen.subset(rng, ['init_time', 'lead_time', 'latitude'], 0.25)
  red = [d for d in BASE if d not in keep]
  if e.name in SPATIAL_MASK_ONLY:
    red = [d for d in red if d in ('init_time', 'lead_time')] or ['init_time']
  kw = {}
  if 'latitude' in red and rng.random() < .5:
    kw['weigh_by'] = [weighting.GridAreaWeighting()]
  if 'latitude' in red and rng.random() < .3:
    kw['bin_by'] = [binning.Regions(
        {'a': ((-90, 90), (0, 360)), 'b': ((-90, 5), (0, 360))})]
  agg = aggregation.Aggregator(reduce_dims=red, masked=True, **kw)
  what = (f'{e.name}: {how} under mask {mask.dims} of {sides} (reduce {red}, '
          f'{sorted(kw)})')
  res = []
  for p, t in ((p0, t0), (p1, t1)):
    stats = _stats(m, p, t)
    st = agg.aggregate_statistics(stats)
    res.append((stats, st, aggregation.compute_metric_values_for_single_chunk(
        {'m': m}, agg, p, t)))
  a, b = res[0][1], res[1][1]
  n = 0
  for k in a.sum_weights:
    for v in a.sum_weights[k]:
      for nm, x, y in (('sum', a.sum_weighted_statistics, b.sum_weighted_statistics),
                       ('weights', a.sum_weights, b.sum_weights)):
        # Summation order is the same, hence equality up to rounding only.
        check(close(x[k][v].values, y[k][v].values, 1e-9, 1e-12),
              lambda: f'{what}: {nm} of {k}.{v} changes from '
              f'{x[k][v].values.ravel()[:5]} to {y[k][v].values.ravel()[:5]}',
              f'masked_counts.{e.name}')
        n += 1
  for v in res[0][2].data_vars:
    check(close(res[0][2][v].values, res[1][2][v].values, 1e-8, 1e-12),
          f'{what}: value {v} changes', f'masked_value.{e.name}')
  # The weights are those of the unmasked points only.
  if e.name not in SPATIAL_MASK_ONLY + ('fss',) and not kw:
    cnt = mask.broadcast_like(
        xr.DataArray(np.zeros([len(w.coords[d]) for d in BASE]), dims=BASE,
                     coords={d: w.coords[d] for d in BASE})).transpose(*BASE)
    cnt = cnt.astype(float).sum(red)
    for k in a.sum_weights:
      for v, got in a.sum_weights[k].items():
        if e.name == 'subset_mae' and v != catalog.VARS[1]:
          continue
        g = got
        for d in [d for d in g.dims if d not in cnt.dims]:
          g = g.isel({d: 0})
        expect_close(g.transpose(*cnt.dims), cnt,
                     f'{what}: weight of {k}.{v}', f'mask_weight.{e.name}')
        obs.ev('mask_weights_checked')
  obs.ev('masked_compared', n)
  obs.ev('mmetric_' + e.name)
  obs.ev('masked_' + sides)
  obs.mark('mask', e.name, how, tuple(mask.dims), tuple(red), sides)


def masked_nan_elsewhere(rng, obs):
  """A mask does not hide a NaN at an unmasked point."""
  es = [e for e in catalog.ENTRIES if e.name not in
        ('fss', 'rel_intensity', 'seeps', 'subset_mae')]
  e = es[int(rng.integers(len(es)))]
  w = catalog.world(rng, e.kind)
  m = e.make(w, rng)
  mask = _mask(rng, w)
  mask.values.flat[0] = True
  side = str(rng.choice([s for s in 'pt' if _uses(e, s)]))
  full = mask.broadcast_like(
      xr.DataArray(np.zeros([len(w.coords[d]) for d in BASE]), dims=BASE,
                   coords={d: w.coords[d] for d in BASE})).transpose(*BASE)
  alive = np.argwhere(full.values)
  pt = dict(zip(BASE, map(int, alive[rng.integers(len(alive))])))
  v = str(rng.choice(catalog.VARS))
  src = dict(w.predictions if side == 'p' else w.targets)
  da = src[v].copy(deep=True)
  idx = tuple(pt.get(d, int(rng.integers(da.sizes[d]))) for d in da.dims)
  da.values[idx] = np.nan
  src[v] = da
  p, t = (src, w.targets) if side == 'p' else (w.predictions, src)
  t = {k: x.assign_coords(mask=mask) for k, x in t.items()}
  agg = aggregation.Aggregator(reduce_dims=list(BASE), masked=True)
  ds = aggregation.compute_metric_values_for_single_chunk(
      {'m': m}, agg, dict(p), t)
  for n in (f'm.{v}', 'm.wind'):
    if n in ds:
      check(bool(np.isnan(ds[n].values).all()),
            f'{e.name}: NaN at unmasked {pt} ({side}) but masked value {n} is '
            f'{ds[n].values.ravel()[:5]}', f'masked_hides.{e.name}')
      obs.ev('unmasked_nan_surfaced')
  obs.mark('unmasked', e.name, side, tuple(mask.dims))


def seeps_mask(rng, obs):
  """SEEPS: points outside the dry-fraction limits do not count, NaN inside
  them does."""
  w = catalog.world(rng, 'cont', dict(latitude=5, longitude=5))
  v = catalog.VARS[1]
  m = catalog.BY_NAME['seeps'].make(w, rng)
  agg = aggregation.Aggregator(reduce_dims=list(BASE), masked=True)
  p1 = w.seeps[f'{v}_seeps_dry_fraction'].mean(('hour', 'dayofyear'))
  dead = (p1 < 0.1) | (p1 > 0.85)
  dead = dead.assign_coords(latitude=w.coords['latitude'],
                            longitude=w.coords['longitude'])
  base = aggregation.compute_metric_values_for_single_chunk(
      {'m': m}, agg, w.predictions, w.targets)
  if dead.values.any() and not dead.values.all():
    how = str(rng.choice(['nan', 'random']))
    p = {k: _garbage(rng, x, dead, how) for k, x in w.predictions.items()}
    t = {k: _garbage(rng, x, dead, how) for k, x in w.targets.items()}
    ds = aggregation.compute_metric_values_for_single_chunk(
        {'m': m}, agg, p, t)
    expect_close(ds[f'm.{v}'], base[f'm.{v}'],
                 'SEEPS changes with values outside its limits', 'seeps_mask')
    obs.ev('seeps_masked')
  if not dead.values.all():
    alive = np.argwhere(~dead.values)
    a = alive[rng.integers(len(alive))]
    at = {'latitude': int(a[dead.dims.index('latitude')]),
          'longitude': int(a[dead.dims.index('longitude')])}
    p, t = dict(w.predictions), dict(w.targets)
    tgt = p if rng.random() < .5 else t
    da = tgt[v].copy(deep=True)
    da.values[tuple(at.get(d, 0) for d in da.dims)] = np.nan
    tgt[v] = da
    ds = aggregation.compute_metric_values_for_single_chunk(
        {'m': m}, agg, p, t)
    check(bool(np.isnan(ds[f'm.{v}'].values)),
          f'SEEPS = {ds[f"m.{v}"].values} hides a NaN', 'seeps_nan')
    obs.ev('seeps_nan')
  obs.mark('seeps', int(dead.values.sum()))


SCENARIOS = {
    'nan_surface': (nan_surface, 900, 12000),
    'masked_no_influence': (masked_no_influence, 700, 9000),
    'masked_nan_elsewhere': (masked_nan_elsewhere, 300, 4000),
    'seeps_mask': (seeps_mask, 40, 400),
}
MIN = {'surfaced': 500, 'aggregates_nan': 300, 'masked_compared': 1000,
       'mask_weights_checked': 100, 'unmasked_nan_surfaced': 100,
       'seeps_nan': 20}
