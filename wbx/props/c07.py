"""C07: every datum is counted in exactly the bins it belongs to."""

import datetime
import math

import numpy as np
import xarray as xr
from wbx import gen
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import aggregation
from weatherbenchX import binning

RULE = ('each binning class on random dense grids and sparse observation '
        'vectors (both longitude conventions, values exactly on limits, wrapped '
        'regions, leap days, empty bins, empty input, 2-d time coordinates), '
        'membership decided per element in plain Python; the aggregated sums '
        'and counts per bin are compared too; fingerprint = (class, layout, '
        'options, number of bins, membership pattern)')
ASSUMPTIONS = [
    'band binnings are exercised with steps that divide the range and are '
    'exactly representable; a value exactly on the shared edge of two bands '
    'belongs to both (closed bands, as the regions)',
    'region limits are not degenerate (zero width)']


def _space(rng, n=5):
  """lat/lon values, many of them exactly on multiples of 15 degrees."""
  def pick(lo, hi, k):
    if rng.random() < 0.6:
      v = rng.choice(np.arange(lo, hi + 1, 15.0), size=k, replace=False)
    else:
      v = rng.choice(np.arange(lo * 4, hi * 4 + 1), size=k, replace=False) / 4
    return v
  lat = np.sort(pick(-90, 90, n))
  if rng.random() < 0.5:
    lat = lat[::-1].copy()
  if rng.random() < 0.5:
    lon = np.sort(pick(0, 345, n))
  else:
    lon = np.sort(pick(-180, 165, n))
  return lat, lon


def _grid_stat(rng):
  lat, lon = _space(rng, int(rng.integers(1, 6)))
  c = {'latitude': lat, 'longitude': lon}
  if rng.random() < 0.6:
    c['init_time'] = gen.init_times(rng, int(rng.integers(1, 5)))
  if rng.random() < 0.5:
    c['lead_time'] = gen.lead_times(rng, int(rng.integers(1, 4)))
  return gen.array(rng, c, gen.shuffled(rng, c), 'ints')


def _obs_stat(rng):
  """Sparse observations: one dimension, everything else a coordinate."""
  n = int(rng.integers(0, 25)) if rng.random() < .9 else 0
  lat = rng.integers(-6, 7, n) * 15.0 + (rng.random(n) < .3) * 0.25
  lat = np.clip(lat, -90, 90)
  lon = rng.integers(0, 24, n) * 15.0 - (180 if rng.random() < .5 else 0)
  init = np.datetime64('2020-02-27T00', 'ns') + rng.integers(
      0, 24 * 60 * 40, n).astype('timedelta64[m]')
  lead = (rng.integers(0, 12, n) * 6).astype('timedelta64[h]').astype(
      'timedelta64[ns]')
  stn = np.array(['KA', 'KB', 'KC', 'EDDM'], dtype='<U4')[
      rng.integers(0, 4, n)]
  lev = rng.choice([500, 700, 850], n).astype(int)
  return xr.DataArray(
      rng.integers(-5, 6, n).astype(float), dims=['index'],
      coords={'latitude': ('index', lat), 'longitude': ('index', lon),
              'init_time': ('index', init), 'lead_time': ('index', lead),
              'valid_time': ('index', init + lead),
              'stationName': ('index', stn), 'level': ('index', lev),
              'elevation': ('index', np.round(rng.uniform(-50, 3000, n), 1)),
              'index': np.arange(n)})


def _values(stat, name):
  """Full-shape array of the coordinate `name` in the order of stat.dims."""
  c = stat[name]
  return gen.expand(c.values, list(c.dims), list(stat.dims), dict(stat.sizes))


def _lab(x):
  if isinstance(x, np.ndarray):
    x = x[()]
  if isinstance(x, (np.datetime64, np.timedelta64)):
    return str(x.astype('int64') if isinstance(x, np.timedelta64) and False
               else x)
  if isinstance(x, (float, np.floating, int, np.integer)) and not isinstance(
      x, bool):
    return float(x)
  return str(x)


def verify(rng, obs, b, dim, stat, members, what, distinct_labels=True):
  """members: {label: full-shape bool array}."""
  before = stat.copy(deep=True)
  mask = b.create_bin_mask(stat)
  check(b.bin_dim_name == dim, f'{what}: bin dimension {b.bin_dim_name}',
        'name')
  check(dim in mask.dims, f'{what}: mask has no dimension {dim}', 'name')
  got = {}
  for i, l in enumerate(mask[dim].values):
    check(_lab(l) not in got, f'{what}: duplicated bin {l}', 'dup_bin')
    m = mask.isel({dim: i})
    extra = set(m.dims) - set(stat.dims)
    check(not extra, f'{what}: unexpected dims {extra}', 'dims')
    for d in m.dims:
      check(np.array_equal(m[d].values, stat[d].values),
            f'{what}: labels of {d} changed', 'dims')
    got[_lab(l)] = gen.expand(np.asarray(m.values).astype(float),
                              list(m.dims), list(stat.dims), dict(stat.sizes))
  want = {_lab(k): v for k, v in members.items()}
  check(set(got) == set(want), f'{what}: bins {sorted(map(str, got))} expected '
        f'{sorted(map(str, want))}', 'bins')
  for k, w in want.items():
    expect_close(got[k], w.astype(float), f'{what}: membership of bin {k}',
                 'member')
    obs.ev('memberships_checked', w.size)
  check(stat.identical(before), f'{what}: input modified', 'mutated')
  # What a user sees: the per-bin sums and counts.
  dims_needed = {d for d in mask.dims if d != dim}
  red = [d for d in stat.dims if d in dims_needed or rng.random() < .5]
  state = aggregation.Aggregator(
      reduce_dims=gen.shuffled(rng, red), bin_by=[b]).aggregate_statistics(
          {'s': {'v': stat}})
  S = state.sum_weighted_statistics['s']['v']
  W = state.sum_weights['s']['v']
  axes = tuple(stat.dims.index(d) for d in red)
  keep = [d for d in stat.dims if d not in red]
  labels = [_lab(l) for l in S[dim].values]
  check(sorted(map(str, labels)) == sorted(map(str, want)),
        f'{what}: output bins {labels}', 'bins')
  for k, w in want.items():
    i = labels.index(k)
    expect_close(S.isel({dim: i}).transpose(*keep).values,
                 np.sum(stat.values * w, axis=axes),
                 f'{what}: sum in bin {k}', 'agg')
    expect_close(W.isel({dim: i}).transpose(*keep).values,
                 np.sum(w.astype(float), axis=axes),
                 f'{what}: count in bin {k}', 'agg')
    obs.ev('bins_aggregated')
  obs.ev('cases.' + type(b).__name__)
  obs.mark(type(b).__name__, what, len(want), [int(w.sum()) for w in
                                               want.values()])
  obs.sample(what=what, bins={str(k): int(w.sum()) for k, w in want.items()})


def in_region(lat, lon, lims):
  (a, b), (c, d) = lims
  if not a <= lat <= b:
    return False
  if d - c == 360:
    return True
  width = (d - c) % 360
  if width == 0:
    return True
  return ((lon - c) % 360) <= width


def regions(rng, obs):
  stat = _grid_stat(rng) if rng.random() < 0.6 else _obs_stat(rng)
  regs = {}
  for i in range(int(rng.integers(1, 5))):
    a, b = sorted(rng.choice(np.arange(-90, 91, 15), 2, replace=False).tolist())
    r = rng.random()
    if r < 0.15:
      lon = (0, 360)
    elif r < 0.3:
      lon = (-180, 180)
    else:
      # Any width below a full circle, either end in any convention.
      c = int(rng.integers(-12, 24)) * 15
      d = c + int(rng.integers(1, 24)) * 15
      d -= 360 if d > 360 or rng.random() < .3 else 0
      lon = (c, d)
    regs[f'r{i}'] = ((a, b), lon)
  lat, lon = _values(stat, 'latitude'), _values(stat, 'longitude')
  fn = np.vectorize(lambda x, y, l: in_region(x, y, l), otypes=[bool],
                    excluded={2})
  # -180..180 style widths: (c, d) with c > d wraps through d + 360.
  members = {}
  for k, (la, (c, d)) in regs.items():
    full = (c, d) in ((0, 360), (-180, 180))
    lims = (la, (c, c + 360)) if full else (la, (c, d))
    members[k] = fn(lat, lon, lims) if lat.size else np.zeros(lat.shape, bool)
  land = None
  what = f'regions {regs} on {stat.dims}'
  if 'latitude' in stat.dims and rng.random() < 0.5:
    l = rng.random((stat.sizes['latitude'], stat.sizes['longitude'])) < 0.5
    land = xr.DataArray(l, dims=['latitude', 'longitude'],
                        coords={d: stat[d] for d in ('latitude', 'longitude')})
    full = gen.expand(l, ['latitude', 'longitude'], list(stat.dims),
                      dict(stat.sizes))
    members |= {f'{k}_land': v & full for k, v in members.items()}
    if rng.random() < 0.4:   # the land mask may be stored in the other order
      land = land.isel(latitude=slice(None, None, -1))
    if rng.random() < 0.4:
      land = land.transpose('longitude', 'latitude')
    if rng.random() < .3:
      land = land.astype(int)
    what = 'land ' + what
  name = str(rng.choice(['region', 'area']))
  verify(rng, obs, binning.Regions(regs, name, land_sea_mask=land), name, stat,
         members, what)
  lo = float(rng.integers(-80, 80))
  expect_raises(lambda: binning.Regions({'x': ((lo, lo - 5), (0, 90))})
                .create_bin_mask(stat), 'inverted latitude limits', 'reject',
                ValueError)


def land_sea(rng, obs):
  stat = _grid_stat(rng)
  lat, lon = stat.latitude.values, stat.longitude.values
  f = rng.choice([0.0, 0.2, 0.3, 0.5, 0.75, 1.0], (lat.size, lon.size))
  thr = float(rng.choice([0.5, 0.3, 0.75, 1.0]))
  frac = xr.DataArray(f, dims=['latitude', 'longitude'],
                      coords={'latitude': lat, 'longitude': lon})
  full = gen.expand(f, ['latitude', 'longitude'], list(stat.dims),
                    dict(stat.sizes))
  members = {'land': full >= thr, 'sea': ~(full >= thr)}
  glob = bool(rng.random() < .5)
  if glob:
    members['global'] = np.ones(full.shape, bool)
  kw = {} if thr == 0.5 and rng.random() < .5 else {'land_sea_threshold': thr}
  verify(rng, obs, binning.LandSea(frac, include_global_mask=glob, **kw),
         'land_sea', stat, members, f'land/sea thr={thr} global={glob}')


def bands(rng, obs):
  stat = _grid_stat(rng) if rng.random() < 0.6 else _obs_stat(rng)
  if not stat.size:
    return
  if rng.random() < 0.5:
    rg = [(-90, 90), (0, 90), (-60, 60), (-45, 45)][int(rng.integers(4))]
    span = rg[1] - rg[0]
    deg = float(rng.choice([d for d in (7.5, 10, 15, 22.5, 30, 45, 60, 90)
                            if span % d == 0]))
    v = _values(stat, 'latitude')
    members = {}
    for k in range(int(span / deg)):
      a = rg[0] + k * deg
      members[a] = (v >= a) & (v <= a + deg)
    kw = {} if rg == (-90, 90) else {'lat_range': rg}
    b, dim = binning.LatitudeBins(deg, **kw), 'latitude_bins'
  else:
    rg = [(0, 360), (-180, 180), (0, 180), (300, 60), (-90, 90), (270, 90)][
        int(rng.integers(6))]
    span = rg[1] - rg[0] if rg[1] > rg[0] else rg[1] + 360 - rg[0]
    deg = float(rng.choice([d for d in (7.5, 15, 30, 45, 60, 90, 120)
                            if span % d == 0]))
    v = _values(stat, 'longitude')
    members = {}
    for k in range(int(span / deg)):
      a = rg[0] + k * deg
      members[a % 360] = ((v - a) % 360) <= deg
    kw = {} if rg == (0, 360) else {'lon_range': rg}
    b, dim = binning.LongitudeBins(deg, **kw), 'longitude_bins'
  verify(rng, obs, b, dim, stat, members, f'{dim} {deg} {rg} {stat.dims}')


TD = {'second': 1, 'minute': 60, 'hour': 3600, 'day': 86400, 'week': 604800,
      'year': 365 * 86400}


def unit_of(x, unit):
  """Calendar unit of a datetime64/timedelta64 in plain Python."""
  if isinstance(x, np.timedelta64):
    ns = int(x.astype('timedelta64[ns]').astype('int64'))
    return ns // (TD[unit] * 10**9)
  t = datetime.datetime(1970, 1, 1) + datetime.timedelta(
      seconds=int(x.astype('datetime64[s]').astype('int64')))
  if unit == 'dayofyear':
    return t.timetuple().tm_yday
  if unit == 'dayofweek':
    return t.weekday()
  if unit == 'quarter':
    return (t.month + 2) // 3
  return getattr(t, unit)


DT_UNITS = ['hour', 'day', 'month', 'year', 'dayofyear', 'dayofweek',
            'quarter', 'minute']


def _time_stat(rng):
  r = rng.random()
  if r < 0.35:
    return _obs_stat(rng), str(rng.choice(['init_time', 'lead_time',
                                           'valid_time']))
  c = {'init_time': gen.init_times(rng, int(rng.integers(1, 6)),
                                   base=str(rng.choice(
                                       ['2020-02-28T18', '2019-12-31T03',
                                        '2021-05-30T12']))),
       'lead_time': gen.lead_times(rng, int(rng.integers(1, 6))),
       'latitude': np.array([10.0, 20.0])}
  stat = gen.array(rng, c, gen.shuffled(rng, c), 'ints')
  which = str(rng.choice(['init_time', 'lead_time', 'valid_time']))
  if which == 'valid_time':
    vt = (stat.init_time + stat.lead_time)
    if rng.random() < .5:
      vt = vt.transpose('lead_time', 'init_time')
    stat = stat.assign_coords(valid_time=vt)
  return stat, which


def _units(rng, stat, which):
  vals = _values(stat, which)
  td = vals.dtype.kind == 'm'
  unit = str(rng.choice(list(TD) if td else DT_UNITS))
  u = np.array([unit_of(x, unit) for x in vals.ravel()],
               dtype=int).reshape(vals.shape)
  return unit, u


def time_unit(rng, obs):
  stat, which = _time_stat(rng)
  if not stat.size:
    return
  unit, u = _units(rng, stat, which)
  glob = bool(rng.random() < .4)
  dim = f'{which}_{unit}'
  if rng.random() < 0.55:
    b = binning.ByTimeUnit(unit, which, add_global_bin=glob)
    members = {int(x): u == x for x in np.unique(u)}
    if glob:
      td = stat[which].dtype.kind == 'm'
      members = {str(float(k)) if td else str(k): v
                 for k, v in members.items()}
      members['global'] = np.ones(u.shape, bool)
    what = f'ByTimeUnit {unit} {which} global={glob} {stat.dims}'
  else:
    vals = np.unique(u).tolist() + [int(rng.integers(0, 24))]
    sets = {}
    for i in range(int(rng.integers(1, 4))):
      k = int(rng.integers(1, len(vals) + 1))
      s = [vals[j] for j in rng.choice(len(vals), k, replace=False)]
      sets[f's{i}'] = s if len(s) > 1 or rng.random() < .5 else s[0]
      if isinstance(sets[f's{i}'], list) and rng.random() < .3:
        sets[f's{i}'] = tuple(s)
    sname = None if rng.random() < .5 else 'group'
    b = binning.ByTimeUnitSets(sets, unit, which, sname, add_global_bin=glob)
    dim = sname or f'{which}_{unit}_sets'
    members = {k: np.isin(u, np.atleast_1d(v)) for k, v in sets.items()}
    if glob:
      members['global'] = np.ones(u.shape, bool)
    what = f'ByTimeUnitSets {unit} {which} {sets} global={glob}'
  verify(rng, obs, b, dim, stat, members, what)
  if stat[which].dtype.kind == 'm':
    expect_raises(lambda: binning.ByTimeUnit('month', which).create_bin_mask(
        stat), 'calendar unit of a duration', 'reject', ValueError)


def from_seconds(rng, obs):
  n = int(rng.integers(1, 7))
  unit = str(rng.choice(['second', 'minute', 'hour']))
  div = TD[unit]
  if rng.random() < .5:
    bins = None
    hi = 24 * 3600 if unit == 'hour' else 60 * div
    secs = rng.choice(np.arange(0, hi, max(1, div // 4)), n, replace=False)
    used = list(range(24 if unit == 'hour' else 60))
  else:
    secs = rng.choice(200 * div, n, replace=False)
    bins = sorted(set((secs // div).tolist()) | {3, 500})
    if rng.random() < .3:
      bins = bins[1:]
    used = bins
  other = int(rng.integers(1, 4))
  stat = xr.DataArray(
      rng.integers(-5, 6, (n, other)).astype(float), dims=['lead_time', 'x'],
      coords={'lead_time': secs})
  if rng.random() < .5:
    stat = stat.transpose('x', 'lead_time')
  u = _values(stat, 'lead_time') // div
  verify(rng, obs, binning.ByTimeUnitFromSeconds(unit, 'lead_time', bins),
         f'lead_time_{unit}', stat, {int(k): u == k for k in used},
         f'from seconds {unit} default={bins is None}')
  expect_raises(lambda: binning.ByTimeUnitFromSeconds('day', 'lead_time')
                .create_bin_mask(stat), 'unsupported unit', 'reject',
                ValueError)


def exact_coord(rng, obs):
  stat = _obs_stat(rng)
  which = str(rng.choice(['lead_time', 'stationName', 'level', 'init_time']))
  glob = bool(rng.random() < .35)
  vals = stat[which].values
  members = {k: vals == k for k in np.unique(vals)}
  if glob:
    if which in ('lead_time', 'init_time'):
      glob = False
    else:
      members = {str(k): v for k, v in members.items()}
      members['global'] = np.ones(vals.shape, bool)
  verify(rng, obs, binning.ByExactCoord(which, add_global_bin=glob), which,
         stat, members, f'exact {which} global={glob}')
  expect_raises(lambda: binning.ByExactCoord('index').create_bin_mask(stat),
                'exact binning on a dimension', 'reject', AssertionError)


def coord_bins(rng, obs):
  stat = _obs_stat(rng)
  which = str(rng.choice(['latitude', 'elevation', 'level', 'lead_time']))
  vals = stat[which].values
  glob = bool(rng.random() < .4)
  k = int(rng.integers(1, 6))
  if which == 'lead_time':
    e = np.sort(rng.choice(np.arange(0, 73, 6), k + 1, replace=False)).astype(
        'timedelta64[h]').astype('timedelta64[ns]')
    glob = False
  elif which == 'level':
    e = np.sort(rng.choice([0, 500, 600, 700, 850, 900, 1000], min(k, 6) + 1,
                           replace=False))
  elif which == 'latitude':
    e = np.sort(rng.choice(np.arange(-90, 106, 15.0), k + 1, replace=False))
  else:
    e = np.sort(np.concatenate([
        rng.uniform(-100, 3100, k + 1)[: k + 1]])).round(1)
    if vals.size:
      e[int(rng.integers(k + 1))] = vals[int(rng.integers(vals.size))]
      e = np.unique(e)
      if e.size < 2:
        return
  members = {}
  for a, b in zip(e[:-1], e[1:]):
    members[str(a) if glob else a] = (vals >= a) & (vals < b)
  if glob:
    members['global'] = np.ones(vals.shape, bool)
  verify(rng, obs, binning.ByCoordBins(which, e, add_global_bin=glob), which,
         stat, members, f'coord bins {which} {e} global={glob}')


def sets(rng, obs):
  if rng.random() < .6:
    stat = _obs_stat(rng)
    which = str(rng.choice(['stationName', 'level']))
  else:
    stat = _grid_stat(rng)
    which = str(rng.choice(['latitude', 'longitude']))
  vals = _values(stat, which)
  pool = np.unique(vals).tolist() + (
      ['KZ'] if which == 'stationName' else [1])
  ss = {}
  for i in range(int(rng.integers(1, 4))):
    k = int(rng.integers(1, len(pool) + 1))
    v = [pool[j] for j in rng.choice(len(pool), k, replace=False)]
    r = rng.random()
    ss[f's{i}'] = (v[0] if len(v) == 1 and r < .6 else tuple(v) if r < .3
                   else np.array(v) if r < .4 else v)
  comp, glob = bool(rng.random() < .5), bool(rng.random() < .5)
  members = {}
  for k, v in ss.items():
    one = np.array([x in np.atleast_1d(v).tolist() for x in vals.ravel()],
                   dtype=bool).reshape(vals.shape)
    members[k] = one
    if comp:
      members[f'not_in_{k}'] = ~one
  if glob:
    members['global'] = np.ones(vals.shape, bool)
  verify(rng, obs, binning.BySets(ss, which, 'grp', add_set_complements=comp,
                                  add_global_bin=glob), 'grp', stat, members,
         f'sets on {which} complements={comp} global={glob}')
  for bad in (None, which):
    expect_raises(lambda b=bad: binning.BySets(ss, which, b),
                  'ambiguous bin dimension', 'reject', ValueError)


def product(rng, obs):
  """Several binnings at once: a datum counts in the product of its bins."""
  stat = _grid_stat(rng)
  lat, lon = _values(stat, 'latitude'), _values(stat, 'longitude')
  f = rng.choice([0.0, 1.0], (stat.sizes['latitude'], stat.sizes['longitude']))
  frac = xr.DataArray(f, dims=['latitude', 'longitude'],
                      coords={d: stat[d] for d in ('latitude', 'longitude')})
  full = gen.expand(f, ['latitude', 'longitude'], list(stat.dims),
                    dict(stat.sizes))
  bs = [binning.LandSea(frac),
        binning.Regions({'n': ((0, 90), (0, 360)), 's': ((-90, 0), (0, 360))}),
        binning.BySets({'w': sorted(set(lon.ravel().tolist()))[:2]},
                       'longitude', 'lonset', add_set_complements=True)]
  mem = [{'land': full >= .5, 'sea': full < .5},
         {'n': lat >= 0, 's': lat <= 0},
         {'w': np.isin(lon, sorted(set(lon.ravel().tolist()))[:2]),
          'not_in_w': ~np.isin(lon, sorted(set(lon.ravel().tolist()))[:2])}]
  names = ['land_sea', 'region', 'lonset']
  k = int(rng.integers(2, 4))
  idx = [int(i) for i in rng.choice(3, k, replace=False)]
  state = aggregation.Aggregator(
      reduce_dims=list(stat.dims), bin_by=[bs[i] for i in idx]
  ).aggregate_statistics({'s': {'v': stat}})
  S = state.sum_weighted_statistics['s']['v']
  W = state.sum_weights['s']['v']
  check(set(S.dims) == {names[i] for i in idx}, f'dims {S.dims}', 'product')
  for cell in np.ndindex(*[2] * k):
    labs = {names[i]: list(mem[i])[c] for i, c in zip(idx, cell)}
    m = np.ones(stat.shape, bool)
    for i, c in zip(idx, cell):
      m &= list(mem[i].values())[c]
    expect_close(S.sel(labs).values, (stat.values * m).sum(),
                 f'product bin {labs} sum', 'product')
    expect_close(W.sel(labs).values, m.sum(), f'product bin {labs} count',
                 'product')
    obs.ev('product_cells')
  expect_raises(lambda: aggregation.Aggregator(
      reduce_dims=list(stat.dims), bin_by=[bs[0], bs[0]]).aggregate_statistics(
          {'s': {'v': stat}}), 'two binnings with one name', 'reject',
                ValueError)
  obs.mark('product', idx, stat.dims, stat.shape)


SCENARIOS = {
    'regions': (regions, 1000, 20000), 'land_sea': (land_sea, 300, 6000),
    'bands': (bands, 300, 5000), 'time_unit': (time_unit, 1000, 20000),
    'from_seconds': (from_seconds, 200, 4000),
    'exact_coord': (exact_coord, 400, 8000),
    'coord_bins': (coord_bins, 500, 10000), 'sets': (sets, 500, 10000),
    'product': (product, 300, 6000)}
MIN = {'memberships_checked': 100000, 'bins_aggregated': 5000,
       'product_cells': 500, 'cases.Regions': 300, 'cases.LandSea': 100,
       'cases.LatitudeBins': 40, 'cases.LongitudeBins': 40,
       'cases.ByTimeUnit': 200, 'cases.ByTimeUnitSets': 150,
       'cases.ByTimeUnitFromSeconds': 80, 'cases.ByExactCoord': 150,
       'cases.ByCoordBins': 150, 'cases.BySets': 200}
