"""C15: climatologies are looked up at the valid time of each forecast."""

import datetime

import numpy as np
import xarray as xr
from wbx import gen
from wbx import mo
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import aggregation
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import categorical as C
from weatherbenchX.metrics import deterministic as D

RULE = ('climatologies which encode day, hour/time and place in every value '
        '(three time layouts, dimension orders, shuffled day/hour/place '
        'labels, supersets of places, dask chunks) scored against forecasts '
        'around year ends and leap days with leads of minutes to 400 days, in '
        'grid, valid-time and station layouts, whole and in chunks; oracle = '
        'calendar lookup (datetime); fingerprint = (metric, layout, time '
        'layout, times)')
ASSUMPTIONS = [
    'climatology hours are whole hours; minutes of a valid time belong to the '
    'hour they fall in',
    'forecast places are among the places of the climatology']

BASE = mo.BASE
SP = ('latitude', 'longitude')
ANCHORS = ['2019-12-31T00', '2020-02-28T00', '2020-12-30T12', '2021-02-28T00',
           '2021-12-31T06', '2023-12-31T18', '2024-02-29T00', '2024-12-31T00',
           '2000-02-28T18', '1899-12-31T00', '2100-02-28T00', '2021-06-15T00']


def _when(rng, step_h=1):
  """Init and lead times around awkward calendar points."""
  base = np.datetime64(str(rng.choice(ANCHORS)), 'ns')
  if step_h > 1:
    base = base.astype('datetime64[D]').astype('datetime64[ns]')
  ni, nl = int(rng.integers(1, 5)), int(rng.integers(1, 5))
  k = 24 // step_h
  init = base + (np.sort(rng.choice(5 * k, ni, replace=False)) * step_h
                 ).astype('timedelta64[h]')
  span = max(5, int(rng.choice([2, 12, 60, 400])) * k)
  lead = (np.sort(rng.choice(span, nl, replace=False)) * step_h).astype(
      'timedelta64[h]')
  if rng.random() < .3:
    init = gen.shuffled(rng, init)
  return (np.array(init).astype('datetime64[ns]'),
          np.array(lead).astype('timedelta64[ns]'))


def _clim(rng, kind, coords, variables, valid, extra=None, days=None,
          superset=True):
  """Dataset with random values; labels may be shuffled, places a superset."""
  cc = {}
  if kind == 'time':
    t = np.unique(np.asarray(valid).ravel())
    more = t[0] + np.arange(-30, 30) * np.timedelta64(7, 'h')
    cc['time'] = np.unique(np.concatenate([t, more]))
  else:
    cc['dayofyear'] = np.arange(1, 367) if days is None else days
    if kind == 'hour':
      cc['hour'] = np.arange(24)
  for d, v in (extra or {}).items():
    cc[d] = v
  for d in coords:
    v = np.asarray(coords[d])
    if superset and rng.random() < .3 and v.dtype.kind == 'f':
      v = np.concatenate([v, [v.max() + .37, v.min() - .11]])
    cc[d] = v
  if rng.random() < .4:
    for d in cc:
      if d != 'quantile' and (superset or d not in coords):
        cc[d] = np.asarray(cc[d])[rng.permutation(len(cc[d]))]
  dims = gen.shuffled(rng, list(cc))
  ds = xr.Dataset({v: (dims, rng.normal(size=[len(cc[d]) for d in dims]))
                   for v in variables}, coords=cc)
  return ds


def _at(clim, dims, coords, valid, kind):
  c = clim.sel({d: coords[d] for d in coords if d in clim.dims})
  return mo.lookup(c, dims, valid, kind)


def _crossings(valid):
  """How many valid times lie on leap days, day 366, or in another year."""
  n = leap = 0
  ys = set()
  for x in np.asarray(valid).ravel():
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(
        seconds=int(x.astype('datetime64[s]').astype('int64')))
    leap += (d.month, d.day) == (2, 29) or d.timetuple().tm_yday == 366
    ys.add(d.year)
    n += 1
  return leap, len(ys) - 1


def anomalies(rng, obs):
  """ACC and activity statistics on grids, valid-time and station layouts."""
  kind = str(rng.choice(['hour', 'hour', 'dayofyear', 'time']))
  layout = str(rng.choice(['grid', 'grid', 'grid_vt', 'valid', 'station']))
  init, lead = _when(rng)
  if rng.random() < .2:
    lead = lead + np.timedelta64(int(rng.choice([30, 59])), 'm')
  names = ['x', 'y'][:int(rng.integers(1, 3))]
  if layout in ('grid', 'grid_vt'):
    coords = gen.grid(rng, BASE)
    coords['init_time'], coords['lead_time'] = init, lead
    valid = init[:, None] + lead[None, :]
    tdims = ('init_time', 'lead_time')
    place = {d: coords[d] for d in SP}
  elif layout == 'valid':
    coords = gen.grid(rng, SP)
    valid = np.unique(init[:, None] + lead[None, :])
    coords = dict(valid_time=valid, **coords)
    tdims = ('valid_time',)
    place = {d: coords[d] for d in SP}
  else:
    n = int(rng.integers(1, 9))
    i, l = rng.choice(init, n), rng.choice(lead, n)
    valid = i + l
    coords = {'index': np.arange(n)}
    tdims = ('index',)
    place = {}
  level = rng.random() < .3
  if level:
    coords['level'] = place['level'] = np.array([500., 850.])
  clim = _clim(rng, kind, place, names + ['unused'], valid)
  dims = tuple(coords)
  shape = [len(coords[d]) for d in dims]
  p, t = {}, {}
  for v in names:
    for d in (p, t):
      a = mo.dataarray(rng.normal(size=shape), dims, coords,
                       gen.shuffled(rng, dims), v)
      if layout == 'grid_vt':
        a = a.assign_coords(valid_time=(('init_time', 'lead_time'), valid))
      if layout == 'station':
        a = a.assign_coords(init_time=('index', i), lead_time=('index', l))
        if rng.random() < .3:
          a = a.assign_coords(valid_time=('index', valid))
      d[v] = a
  use = clim.chunk({d: int(rng.integers(1, 200)) for d in clim.dims}
                   ) if rng.random() < .25 else clim
  pdims = [d for d in dims if d not in tdims]
  full = list(tdims) + pdims
  stats = {}
  for metric in (D.ACC(use), D.PredictionActivity(use)):
    for s in metric.statistics.values():
      stats[s.unique_name] = s
  acc = D.ACC(use)
  got = {k: s.compute(p, t) for k, s in acc.statistics.items()}
  for v in names:
    c = _at(clim[v], pdims, {d: coords[d] for d in pdims}, valid, kind)
    pa = mo.canon(p[v], full) - c
    ta = mo.canon(t[v], full) - c
    for k, want in (('SquaredPredictionAnomaly', pa**2),
                    ('SquaredTargetAnomaly', ta**2),
                    ('AnomalyCovariance', pa * ta)):
      g = got[k][v]
      for d in full:
        check(np.array_equal(np.sort(g[d].values), np.sort(coords[d])),
              f'{k} {layout}: labels of {d} changed', 'anomaly_labels')
      g = g.sel({d: coords[d] for d in full})
      expect_close(mo.canon(g, full), want,
                   f'{k} of {v} kind={kind} layout={layout} '
                   f'climatology dims={clim[v].dims}', 'anomaly')
    a = D.PredictionActivity(use)
    (s,) = a.statistics.values()
    g = s.compute(p, t)[v].sel({d: coords[d] for d in full})
    expect_close(mo.canon(g, full), pa**2, 'activity', 'anomaly')
    obs.ev('anomaly_points', pa.size)
  # A forecast's value depends on its own times alone: evaluate one chunk.
  if layout in ('grid', 'grid_vt'):
    ii, ll = int(rng.integers(len(init))), int(rng.integers(len(lead)))
    f = lambda d: {v: x.sel(init_time=init[[ii]], lead_time=lead[[ll]])
                   for v, x in d.items()}
    if len(np.unique(init)) == len(init):
      for k, s in acc.statistics.items():
        one = s.compute(f(p), f(t))
        for v in names:
          full_v = got[k][v].sel(init_time=init[[ii]], lead_time=lead[[ll]])
          expect_close(one[v].transpose(*full_v.dims), full_v,
                       'chunk of an anomaly statistic', 'anomaly_chunk')
      obs.ev('anomaly_chunks')
    agg = mo.Agg(rng, coords, keep_p=.4, dims=tuple(full), weights=False)
    ds = mo.evaluate(acc, agg, p, t)
    for v in names:
      c = _at(clim[v], pdims, {d: coords[d] for d in pdims}, valid, kind)
      pa = mo.canon(p[v], full) - c
      ta = mo.canon(t[v], full) - c
      with np.errstate(all='ignore'):
        want = agg.mean(pa * ta) / np.sqrt(agg.mean(pa**2) * agg.mean(ta**2))
      g = ds[f'm.{v}'].sel({d: coords[d] for d in agg.keep})
      expect_close(g.transpose(*agg.keep), want, f'ACC {kind} {agg.desc()}',
                   'acc')
      obs.ev('acc_values', want.size)
  leap, years = _crossings(valid)
  obs.ev('leap_points', leap)
  obs.ev('year_crossings', years)
  obs.ev(f'kind_{kind}')
  obs.ev(f'layout_{layout}')
  obs.mark('anomalies', kind, layout, valid.tolist(), clim[names[0]].dims)


def missing_day(rng, obs):
  """A valid time the climatology does not have is an error."""
  kind = str(rng.choice(['hour', 'dayofyear', 'time']))
  coords = gen.grid(rng, BASE)
  init = np.array([np.datetime64('2020-12-30T00', 'ns')]) + np.arange(
      int(rng.integers(1, 4))) * np.timedelta64(1, 'D')
  lead = np.array([0, 24, 48]).astype('timedelta64[h]').astype(
      'timedelta64[ns]')
  coords['init_time'], coords['lead_time'] = init, lead
  valid = init[:, None] + lead[None, :]
  place = {d: coords[d] for d in SP}
  how = 'day'
  clim = _clim(rng, kind, place, ['x'], valid)
  if kind == 'time':
    drop = rng.choice(valid.ravel())
    clim = clim.sel(time=clim.time.values[clim.time.values != drop])
  elif kind == 'hour' and rng.random() < .5:
    how = 'hour'
    clim = clim.sel(hour=[6, 12, 18])
  else:
    clim = clim.sel(dayofyear=clim.dayofyear.values[
        clim.dayofyear.values != 366])
  mk = lambda: {'x': mo.dataarray(
      rng.normal(size=[len(coords[d]) for d in BASE]), BASE, coords,
      gen.shuffled(rng, list(BASE)), 'x')}
  p, t = mk(), mk()
  name, s = list(D.ACC(clim).statistics.items())[int(rng.integers(3))]
  expect_raises(lambda: {k: v.compute() for k, v in s.compute(p, t).items()},
                f'{name}: valid time missing from the climatology ({how})',
                'missing_time', KeyError)
  if kind != 'time':
    ldr = xarray_loaders.ClimatologyFromXarray(
        ds=clim, climatology_time_coords=(
            ['dayofyear', 'hour'] if kind == 'hour' else ['dayofyear']))
    expect_raises(lambda: ldr.load_chunk(init, lead),
                  'loader: valid time missing from the climatology',
                  'missing_time', KeyError)
  obs.ev('missing_rejected')
  obs.mark('missing', kind, how)


def intervals(rng, obs):
  """Confidence and interval distance against quantile climatologies."""
  kind = str(rng.choice(['hour', 'dayofyear', 'time']))
  coords = gen.grid(rng, BASE, hi=4)
  init, lead = _when(rng)
  coords['init_time'], coords['lead_time'] = init, lead
  valid = init[:, None] + lead[None, :]
  place = {d: coords[d] for d in SP}
  q = np.array([0.1, 0.25, 0.5, 0.75, 0.9])
  lo, hi = [(0.1, 0.9), (0.25, 0.75), (0.1, 0.75)][int(rng.integers(3))]
  clim = _clim(rng, kind, place, ['x', 'y'], valid, {'quantile': q})
  spread = np.array([-2, -1, 0, 1, 2.]) * 1.0
  for v in clim:  # ordered in the quantile: centre + spread * positive width
    dims = clim[v].dims
    ax = dims.index('quantile')
    a = clim[v].values
    c = np.take(a, [0], ax)
    w = np.exp(np.take(a, [1], ax))
    sh = [1] * a.ndim
    sh[ax] = 5
    clim[v] = (dims, c + spread.reshape(sh) * w)
  m = int(rng.integers(1, 6))
  dims = BASE + ('number',)
  cc = dict(coords, number=np.arange(m))
  p, t = {}, {}
  for v in ('x', 'y'):
    cl = _at(clim[v].sel(quantile=0.5), SP, place, valid, kind)
    x = cl[..., None] + rng.normal(
        size=[len(cc[d]) for d in dims]) * np.exp(rng.normal(
            size=[len(coords[d]) for d in BASE]))[..., None]
    p[v] = mo.dataarray(x, dims, cc, gen.shuffled(rng, dims), v)
    t[v] = mo.dataarray(rng.normal(size=x.shape[:-1]), BASE, coords,
                        gen.shuffled(rng, list(BASE)), v)
  ct = float(rng.choice([.3, .7, 1.5]))
  jt = float(rng.choice([.2, .5, .75]))
  conf = C.Confident('number', clim, (lo, hi), ct)
  jac = C.JaccardDistant('number', clim, jt, (lo, hi))
  gc, gj = conf.compute(p, t), jac.compute(p, t)
  for v in ('x', 'y'):
    c_lo = _at(clim[v].sel(quantile=lo), SP, place, valid, kind)
    c_hi = _at(clim[v].sel(quantile=hi), SP, place, valid, kind)
    x = mo.canon(p[v], dims)
    p_lo, p_hi = np.quantile(x, lo, axis=-1), np.quantile(x, hi, axis=-1)
    margin = (p_hi - p_lo) - ct * (c_hi - c_lo)
    sure = np.abs(margin) > 1e-9
    sel = {d: coords[d] for d in BASE}
    got = mo.canon(gc[v].sel(sel), BASE)
    expect_close(got[sure], (margin < 0)[sure].astype(float),
                 f'confidence vs climatology {kind} q=({lo},{hi}) thr={ct}',
                 'confident')
    inter = np.maximum(0, np.minimum(p_hi, c_hi) - np.maximum(p_lo, c_lo))
    union = (p_hi - p_lo) + (c_hi - c_lo) - inter
    dist = 1 - inter / union
    sure = np.abs(dist - jt) > 1e-9
    got = mo.canon(gj[v].sel(sel), BASE)
    expect_close(got[sure], (dist > jt)[sure].astype(float),
                 f'interval distance vs climatology {kind} q=({lo},{hi})',
                 'jaccard')
    obs.ev('interval_points', got.size)
    obs.ev('confident_true', int((margin < 0).sum()))
    obs.ev('distant_true', int((dist > jt).sum()))
  leap, years = _crossings(valid)
  obs.ev('leap_points', leap)
  obs.ev('year_crossings', years)
  obs.mark('intervals', kind, m, valid.tolist())


def seeps(rng, obs):
  """Wet thresholds alternate between days/hours, so a wrong one shows."""
  coords = gen.grid(rng, BASE, hi=4)
  init, lead = _when(rng)
  coords['init_time'], coords['lead_time'] = init, lead
  valid = init[:, None] + lead[None, :]
  place = {d: coords[d] for d in SP}
  cc = {'dayofyear': np.arange(1, 367), 'hour': np.arange(24), **place}
  cd = gen.shuffled(rng, list(cc))
  thr = 1.0 + rng.random([len(cc[d]) for d in cd])
  p1 = rng.uniform(.2, .8, [len(place[d]) for d in SP])
  frac = xr.DataArray(p1, dims=SP).expand_dims(
      {'dayofyear': 366, 'hour': 24}).transpose(*cd)
  clim = xr.Dataset({'rain_seeps_threshold': (cd, thr),
                     'rain_seeps_dry_fraction': (cd, frac.values)}, coords=cc)
  wet = _at(clim['rain_seeps_threshold'], SP, place, valid, 'hour')
  out, cats = [], []
  for _ in range(2):
    heavy = rng.random(wet.shape) < .5
    x = np.where(heavy, wet + 1e-6, wet - 1e-6)
    dry = rng.random(wet.shape) < .2
    x = np.where(dry, 0.0, x)
    cats.append(np.where(dry, 0, np.where(heavy, 2, 1)))
    out.append({'rain': mo.dataarray(x, BASE, coords,
                                     gen.shuffled(rng, list(BASE)), 'rain')})
  m = C.SEEPS(['rain'], clim, dry_threshold_mm=250.0, min_p1=0, max_p1=1)
  (s,) = m.statistics.values()
  got = s.compute(*out)['rain']
  p = np.broadcast_to(p1, wet.shape)
  z = np.zeros_like(p)
  # Rows: forecast category, columns: observed category.
  mat = 0.5 * np.array([[z, 1 / (1 - p), 4 / (1 - p)],
                        [1 / p, z, 3 / (1 - p)],
                        [1 / p + 3 / (2 + p), 3 / (2 + p), z]])
  want = np.zeros(wet.shape)
  for i in np.ndindex(wet.shape):
    want[i] = mat[(cats[0][i], cats[1][i]) + i]
  expect_close(mo.canon(got.sel({d: coords[d] for d in BASE}), BASE), want,
               'SEEPS categories at the valid time', 'seeps')
  obs.ev('seeps_points', want.size)
  leap, years = _crossings(valid)
  obs.ev('leap_points', leap)
  obs.ev('year_crossings', years)
  obs.mark('seeps', valid.tolist())


def climatology_forecast(rng, obs):
  """A climatology served as forecast, whole and in chunks."""
  kind = str(rng.choice(['hour', 'dayofyear']))
  init, lead = _when(rng)
  valid = init[:, None] + lead[None, :]
  place = gen.grid(rng, SP)
  clim = _clim(rng, kind, place, ['x', 'y'], valid, superset=False)
  tc = ['dayofyear', 'hour'] if kind == 'hour' else ['dayofyear']
  if rng.random() < .5:
    tc = tc[::-1]
  if rng.random() < .5:
    tc = tuple(tc)
  ldr = xarray_loaders.ClimatologyFromXarray(
      ds=clim.chunk() if rng.random() < .3 else clim,
      climatology_time_coords=tc)
  c = ldr.load_chunk(init, lead)
  for v in ('x', 'y'):
    want = _at(clim[v], SP, place, valid, kind)
    got = c[v].transpose('init_time', 'lead_time', *SP)
    check(np.array_equal(got.init_time, init)
          and np.array_equal(got.lead_time, lead), 'climatology labels',
          'forecast_labels')
    for d in SP:
      check(np.array_equal(got[d], clim[d]), 'climatology places',
            'forecast_labels')
    expect_close(got.sel(place), want, f'climatology forecast {kind}',
                 'forecast')
    obs.ev('forecast_points', want.size)
  for i in range(len(init)):
    for l in range(len(lead)):
      one = ldr.load_chunk(init[[i]], lead[[l]])
      for v in ('x', 'y'):
        expect_close(
            one[v].transpose('init_time', 'lead_time', *SP).sel(place),
            _at(clim[v], SP, place, valid[i:i + 1, l:l + 1], kind),
            'climatology chunk', 'forecast_chunk')
      obs.ev('forecast_chunks')
  c = ldr.load_chunk(init)
  for v in ('x', 'y'):
    expect_close(c[v].transpose('init_time', *SP).sel(place),
                 _at(clim[v], SP, place, init, kind),
                 'climatology without lead times', 'forecast_nolead')
  expect_raises(lambda: ldr.load_chunk(init, slice(lead.min(), lead.max())),
                'lead interval of a climatology', 'forecast_slice', ValueError)
  # Scoring the climatology against itself as forecast has no anomaly.
  ev = aggregation.compute_metric_values_for_single_chunk(
      {'m': D.PredictionActivity(clim)},
      aggregation.Aggregator(reduce_dims=['init_time', 'lead_time', *SP]),
      ldr.load_chunk(init, lead), ldr.load_chunk(init, lead))
  for v in ('x', 'y'):
    expect_close(ev[f'm.{v}'], 0.0, 'activity of the climatology', 'zero')
  leap, years = _crossings(valid)
  obs.ev('leap_points', leap)
  obs.ev('year_crossings', years)
  obs.mark('forecast', kind, valid.tolist())


def members(rng, obs):
  """Each year of the archive at the same day and hour is one member."""
  y0 = int(rng.choice([1999, 2000, 2018, 2019, 2020]))
  y1 = y0 + int(rng.integers(0, 4))
  step = int(rng.choice([6, 12, 24]))
  init, lead = _when(rng, step)
  place = gen.grid(rng, ('latitude',), hi=4)
  t = np.arange(np.datetime64(f'{y0}-01-01T00', 'h'),
                np.datetime64(f'{y1 + 1}-01-02T00', 'h'),
                np.timedelta64(step, 'h')).astype('datetime64[ns]')
  dims = gen.shuffled(rng, ['time', 'latitude'])
  cc = {'time': t, **place}
  src = xr.Dataset({'x': (dims, rng.normal(size=[len(cc[d]) for d in dims]))},
                   coords=cc)
  dim = str(rng.choice(['number', 'member']))
  ldr = xarray_loaders.ProbabilisticClimatologyFromXarray(
      start_year=y0, end_year=y1, ensemble_dim=dim, ds=src)
  valid = init[:, None] + lead[None, :]
  full = ldr.load_chunk(init, lead)['x']
  check(set(full.dims) == {'init_time', 'lead_time', dim, 'latitude'},
        f'dims {full.dims}', 'member_dims')
  check(full.sizes[dim] == y1 - y0 + 1, 'number of members', 'member_count')
  a = src.x.transpose('time', 'latitude').values
  where = {int(x): i for i, x in enumerate(t.astype('int64'))}
  want = np.empty(valid.shape + (y1 - y0 + 1, len(place['latitude'])))
  for i in np.ndindex(valid.shape):
    doy, hr = mo.pyday(valid[i])
    for k in range(y1 - y0 + 1):
      tt = (datetime.datetime(y0 + k, 1, 1) + datetime.timedelta(
          days=doy - 1, hours=hr))
      want[i][k] = a[where[int(np.datetime64(tt, 'ns').astype('int64'))]]
  got = full.transpose('init_time', 'lead_time', dim, 'latitude')
  check(np.array_equal(got.init_time, init)
        and np.array_equal(got.lead_time, lead), 'labels', 'member_labels')
  expect_close(got, want, f'years {y0}..{y1} as members', 'member')
  i, l = int(rng.integers(len(init))), int(rng.integers(len(lead)))
  one = ldr.load_chunk(init[[i]], lead[[l]])['x'].transpose(
      'init_time', 'lead_time', dim, 'latitude')
  expect_close(one, want[i:i + 1, l:l + 1], 'chunk of members', 'member_chunk')
  obs.ev('member_points', want.size)
  leap, years = _crossings(valid)
  obs.ev('leap_points', leap)
  obs.ev('year_crossings', years)
  obs.mark('members', y0, y1, valid.tolist())


SCENARIOS = {
    'anomalies': (anomalies, 200, 4000),
    'missing_day': (missing_day, 20, 300),
    'intervals': (intervals, 60, 1200),
    'seeps': (seeps, 40, 800),
    'climatology_forecast': (climatology_forecast, 60, 1200),
    'members': (members, 60, 1200),
}
MIN = dict(anomaly_points=2000, acc_values=100, anomaly_chunks=30,
           interval_points=1000, confident_true=100, distant_true=100,
           seeps_points=500, forecast_points=1000, forecast_chunks=100,
           member_points=500, leap_points=10, year_crossings=15,
           missing_rejected=15, kind_hour=20, kind_dayofyear=10, kind_time=10,
           layout_grid=20, layout_grid_vt=10, layout_valid=10,
           layout_station=10)
