"""C19: interpolation delivers the reference layout with correct values."""

import itertools

import numpy as np
import xarray as xr
from wbx import gen
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import interpolations as I
from weatherbenchX.data_loaders import xarray_loaders as X

RULE = ('fields with random dimension orders, ascending/descending latitudes, '
        'both longitude conventions, single and several initialization/lead '
        'times, levels, dask; to fixed axes, fixed stations, reference grids, '
        'station references (with and without time dimensions, empty, '
        'different per variable), inside and outside the domain, wrapped '
        'longitudes, clipping, altitude adjustment, crops, strides, chains, '
        'neighbourhood probabilities; each value against a scalar '
        'interpolation of the source array; fingerprint = (kind, method, '
        'options, dimension order)')
ASSUMPTIONS = [
    'wrapped longitudes are ascending and cover the globe, and the reference '
    'uses the same convention',
    'targets are not exactly half way between nodes for the nearest method',
    'crops: points exactly on the longitude limits are not compared (the '
    'documentation excludes them, the code and its tests include them)']

SP = ('latitude', 'longitude')
TIMES = ('init_time', 'lead_time')


def nodes(src, x, method, extrap, wrap=False):
  """[(index, weight)] of the source nodes for one target, None if outside."""
  src = np.asarray(src, float)
  order = np.argsort(src)
  s = src[order]
  if wrap:
    s = np.concatenate([[s[-1] - 360], s, [s[0] + 360]])
    order = np.concatenate([[order[-1]], order, [order[0]]])
  if (x < s[0] or x > s[-1]) and not extrap:
    return None
  if method == 'nearest':
    return [(int(order[np.argmin(np.abs(s - x))]), 1.0)]
  k = int(np.clip(np.searchsorted(s, x, side='right') - 1, 0, len(s) - 2))
  w = (x - s[k]) / (s[k + 1] - s[k])
  return [(int(order[k]), 1 - w), (int(order[k + 1]), w)]


def no_ties(rng, src, x, wrap):
  """Moves targets away from the middle between nodes and from nodes."""
  s = np.sort(np.asarray(src, float))
  if wrap:
    s = np.concatenate([[s[-1] - 360], s, [s[0] + 360]])
  mid = (s[1:] + s[:-1]) / 2
  out = np.array(x, float)
  for i in np.ndindex(out.shape):
    if np.min(np.abs(mid - out[i])) < 1e-3:
      out[i] += 2.7e-3
  return out


def targets(rng, src, n, method, wrap, outside=True):
  """Target positions: on nodes, between nodes, outside the domain."""
  lo, hi = float(np.min(src)), float(np.max(src))
  span = max(hi - lo, 1.0)
  if wrap:
    x = lo + 360 * rng.random(n)
  else:
    m = 0.3 * span if outside else 0.0
    x = rng.uniform(lo - m, hi + m, n)
  on = rng.random(n) < .3
  x = np.where(on, rng.choice(np.asarray(src, float), n), np.round(x, 3))
  if wrap:
    x = np.where(x >= lo + 360, lo, x)
  elif not outside:
    x = np.clip(x, lo, hi)
  return no_ties(rng, src, x, wrap) if method == 'nearest' else x


def source(rng, extra=True, times=True, wrap=False, dims=None):
  """A field of two variables; returns (Dataset of numpy, coords, orders)."""
  c = {}
  if times:
    c['init_time'] = gen.init_times(rng, int(rng.choice([1, 1, 2, 3])))
    c['lead_time'] = gen.lead_times(rng, int(rng.choice([1, 1, 2, 3])))
  c['latitude'] = gen.latitudes(rng, int(rng.integers(2, 7)))
  n = int(rng.integers(2, 8))
  if wrap:
    lon = np.arange(n) * (360.0 / n) if rng.random() < .5 else np.sort(
        rng.choice(3599, n, replace=False)) / 10.
    if rng.random() < .4:
      lon = np.sort(np.where(lon >= 180, lon - 360, lon))
    c['longitude'] = lon
  else:
    c['longitude'] = gen.longitudes(rng, n)
    if rng.random() < .2:
      c['longitude'] = c['longitude'][::-1].copy()
  if extra and rng.random() < .4:
    c['level'] = np.array([500, 850, 1000])[:int(rng.integers(2, 4))]
  if extra and rng.random() < .3:
    c['number'] = np.arange(int(rng.integers(1, 4)))
  order = gen.shuffled(rng, list(c))
  dt = str(rng.choice(['f8', 'f8', 'f4']))
  ds = xr.Dataset({v: (order, rng.normal(size=[len(c[d]) for d in order]
                                         ).astype(dt)) for v in ('a', 'b')},
                  coords=c)
  return ds, c, (1e-4 if dt == 'f4' else 1e-8)


def lazy(rng, ds):
  return ds.chunk({d: 1 for d in ds.dims if rng.random() < .5}
                  ) if rng.random() < .2 else ds


def orthogonal(a, dims, coords, to, method, extrap, wrap):
  """Interpolates numpy a along the dims in `to`, one at a time."""
  a = np.asarray(a, float)
  for d, x in to.items():
    ax = dims.index(d)
    b = np.moveaxis(a, ax, 0)
    out = np.empty((len(x),) + b.shape[1:])
    for i, t in enumerate(x):
      nd = nodes(coords[d], t, method, extrap, wrap and d == 'longitude')
      out[i] = np.nan if nd is None else sum(w * b[k] for k, w in nd)
    a = np.moveaxis(out, 0, ax)
  return a


def pointwise(a, dims, coords, pts, method, extrap, wrap):
  """Interpolates at points: pts = {dim: (n,)}; result (n, other dims...).

  Time dimensions are matched exactly.
  """
  rest = [d for d in dims if d not in pts]
  b = np.transpose(np.asarray(a, float), [dims.index(d) for d in
                                          list(pts) + rest])
  n = len(next(iter(pts.values())))
  out = np.full((n,) + b.shape[len(pts):], np.nan)
  for i in range(n):
    per = []
    for d, x in pts.items():
      if d in TIMES:
        per.append([(int(np.flatnonzero(coords[d] == x[i])[0]), 1.0)])
      else:
        per.append(nodes(coords[d], x[i], method, extrap,
                         wrap and d == 'longitude'))
    if any(p is None for p in per):
      continue
    out[i] = sum(np.prod([w for _, w in combo]) * b[tuple(
        k for k, _ in combo)] for combo in itertools.product(*per))
  return rest, out


def _opts(rng):
  method = str(rng.choice(['linear', 'linear', 'nearest']))
  return method, bool(rng.random() < .6), bool(rng.random() < .4)


def fixed_axes(rng, obs):
  method, extrap, wrap = _opts(rng)
  ds, c, tol = source(rng, wrap=wrap)
  cand = [d for d in ('latitude', 'longitude', 'level') if d in c]
  ds_t = gen.shuffled(rng, cand)[:int(rng.integers(1, len(cand) + 1))]
  if wrap and 'longitude' not in ds_t:
    ds_t.append('longitude')
  to = {}
  for d in ds_t:
    to[d] = np.unique(targets(rng, c[d], int(rng.integers(1, 6)), method,
                              wrap and d == 'longitude'))
    if rng.random() < .3:
      to[d] = to[d][::-1].copy()
    if rng.random() < .15:
      to[d] = np.asarray(c[d], float)        # already there
  arg = {d: (xr.DataArray(x, dims=[d], coords={d: x})
             if rng.random() < .3 else x) for d, x in to.items()}
  it = I.InterpolateToFixedCoords(method, arg, wrap_longitude=wrap,
                                  extrapolate_out_of_bounds=extrap)
  out = it.interpolate(lazy(rng, ds))
  what = (f'fixed {method} extrapolate={extrap} wrap={wrap} to={to} from '
          f'{ {d: c[d] for d in to} }')
  for v in ('a', 'b'):
    got = out[v]
    check(set(got.dims) == set(c), f'{what}: dims {got.dims}', 'dims')
    for d in c:
      check(np.array_equal(got[d].values, to.get(d, c[d])),
            f'{what}: labels of {d}: {got[d].values}', 'labels')
    dims = list(ds[v].dims)
    want = orthogonal(ds[v].values, dims, c, to, method, extrap, wrap)
    expect_close(got.transpose(*dims).values, want, what, 'fixed', tol, tol)
    obs.ev('values', want.size)
    obs.ev('missing_outside', int(np.isnan(want).sum()))
  if extrap:
    obs.ev('extrapolated', sum(int(np.sum((x < np.min(c[d])) | (
        x > np.max(c[d])))) for d, x in to.items()
                               if not (wrap and d == 'longitude')))
  obs.ev('wrapped', int(wrap))
  obs.ev('several_dims', len(to) > 1)
  obs.mark('fixed', method, extrap, wrap, list(ds.a.dims), sorted(to))


def fixed_points(rng, obs):
  """Fixed stations given as arrays along a station dimension."""
  method, extrap, wrap = _opts(rng)
  ds, c, tol = source(rng, wrap=wrap)
  n = int(rng.integers(1, 6))
  pts = {d: targets(rng, c[d], n, method, wrap and d == 'longitude')
         for d in gen.shuffled(rng, SP)}
  names = np.array([f's{i}' for i in range(n)])
  arg = {d: xr.DataArray(x, dims=['station'], coords={'station': names})
         for d, x in pts.items()}
  out = I.InterpolateToFixedCoords(
      method, arg, wrap_longitude=wrap,
      extrapolate_out_of_bounds=extrap).interpolate(lazy(rng, ds))
  for v in ('a', 'b'):
    rest, want = pointwise(ds[v].values, list(ds[v].dims), c, pts, method,
                           extrap, wrap)
    got = out[v]
    check(set(got.dims) == set(rest) | {'station'}, f'dims {got.dims}', 'dims')
    for d in rest:
      check(np.array_equal(got[d].values, c[d]), f'labels of {d}', 'labels')
    check(np.array_equal(got.station.values, names), 'stations', 'labels')
    expect_close(got.transpose('station', *rest).values, want,
                 f'stations {method} extrapolate={extrap} wrap={wrap} {pts} '
                 f'from { {d: c[d] for d in SP} }', 'points', tol, tol)
    obs.ev('values', want.size)
    obs.ev('missing_outside', int(np.isnan(want).sum()))
  obs.mark('points', method, extrap, wrap, list(ds.a.dims))


def reference_grid(rng, obs):
  """Targets on another grid; the reference decides the coordinates."""
  method, extrap, wrap = _opts(rng)
  ds, c, tol = source(rng, wrap=wrap)
  to = {d: np.unique(targets(rng, c[d], int(rng.integers(1, 6)), method,
                             wrap and d == 'longitude')) for d in SP}
  for d in SP:
    if rng.random() < .3:
      to[d] = to[d][::-1].copy()
    if rng.random() < .15:
      to[d] = c[d].copy()
  clip = None
  if rng.random() < .3:
    clip = gen.subset(rng, list(SP), .7) or ['latitude']
  rc = dict(to, init_time=c['init_time'], lead_time=c['lead_time'])
  explicit = None
  if rng.random() < .4:
    explicit = gen.shuffled(rng, SP)
    if rng.random() < .5:
      # Times of the reference are not looked at.
      rc['init_time'] = c['init_time'][:1] + np.timedelta64(1, 'D')
      rc['lead_time'] = c['lead_time'][:1]
  ro = gen.shuffled(rng, list(rc))
  ref = xr.Dataset({v: (ro, rng.normal(size=[len(rc[d]) for d in ro]))
                    for v in ('a', 'b')}, coords=rc)
  it = I.InterpolateToReferenceCoords(
      method, dims=explicit, wrap_longitude=wrap, clip_reference_coords=clip,
      extrapolate_out_of_bounds=extrap)
  inputs = lazy(rng, ds), ref if rng.random() < .5 else {
      v: ref[v] for v in ref}
  if clip:
    for d in clip:
      s = np.asarray(c[d], float)
      lo, hi = s.min(), s.max()
      if wrap and d == 'longitude':
        lo, hi = s.max() - 360, s.min() + 360
      to[d] = to[d][(to[d] >= lo) & (to[d] <= hi)]
    obs.ev('clipped')
    obs.ev('clipped_descending', sum(len(to[d]) > 1 and to[d][0] > to[d][-1]
                                     for d in clip))
  what = (f'reference grid {method} extrapolate={extrap} wrap={wrap} '
          f'clip={clip} dims={explicit} to={to} from '
          f'{ {d: c[d] for d in c} }')
  empty = any(len(x) == 0 for x in to.values())
  if empty and explicit:
    # Nothing is left and the reference has times of its own: not supported
    # (refused at the time of writing), so nothing to compare.
    obs.ev('empty')
    obs.mark('grid', 'empty', clip)
    return
  out = it.interpolate(*inputs)
  for v in ('a', 'b'):
    got = out[v]
    check(set(got.dims) == set(c), f'{what}: dims {got.dims}', 'dims')
    if empty:
      check(got.size == 0, f'{what}: values for an empty reference', 'empty')
      obs.ev('empty')
      continue
    for d in c:
      check(np.array_equal(got[d].values, to.get(d, c[d])),
            f'{what}: labels of {d}: {got[d].values}', 'labels')
    dims = list(ds[v].dims)
    want = orthogonal(ds[v].values, dims, c, to, method, extrap, wrap)
    expect_close(got.transpose(*dims).values, want, what, 'reference_grid',
                 tol, tol)
    obs.ev('values', want.size)
    obs.ev('missing_outside', int(np.isnan(want).sum()))
  obs.ev('single_times', (len(c['init_time']) == 1) + (
      len(c['lead_time']) == 1))
  obs.mark('grid', method, extrap, wrap, clip, explicit, list(ds.a.dims), ro)


def _stations(rng, c, n, method, wrap, with_times, outside=True):
  pts = {d: targets(rng, c[d], n, method, wrap and d == 'longitude', outside)
         for d in SP}
  if with_times:
    pts['init_time'] = rng.choice(c['init_time'], n)
    pts['lead_time'] = rng.choice(c['lead_time'], n)
  return pts


def reference_sparse(rng, obs):
  """Observations as reference, other points for each variable."""
  method, extrap, wrap = _opts(rng)
  ds, c, tol = source(rng, wrap=wrap)
  layout = str(rng.choice(['index', 'index', 'timed']))
  split = rng.random() < .6
  ref, pts, clip = {}, {}, None
  if rng.random() < .2 and layout == 'index':
    clip = ['latitude']
  for v in ('a', 'b'):
    if not split and v == 'b':
      ref['b'], pts['b'] = ref['a'].rename('b'), pts['a']
      break
    n = int(rng.choice([0, 1, 2, 5, 9]))
    p = _stations(rng, c, n, method, wrap, layout == 'index')
    coords = {d: ('index', x) for d, x in p.items()}
    coords['index'] = np.arange(n) + int(rng.integers(0, 50))
    coords['elevation'] = ('index', rng.random(n))
    dims = ['index']
    shape = [n]
    if layout == 'timed':
      dims = gen.shuffled(rng, ['index', *TIMES])
      coords.update({d: c[d] for d in TIMES})
      shape = [n if d == 'index' else len(c[d]) for d in dims]
    ref[v] = xr.DataArray(rng.normal(size=shape), dims=dims, coords=coords,
                          name=v)
    pts[v] = p
  it = I.InterpolateToReferenceCoords(
      method, wrap_longitude=wrap, extrapolate_out_of_bounds=extrap,
      clip_reference_coords=clip)
  out = it.interpolate(lazy(rng, ds), ref)
  for v in ('a', 'b'):
    p, r = pts[v], ref[v]
    if clip:
      s = np.asarray(c['latitude'], float)
      keep = (p['latitude'] >= s.min()) & (p['latitude'] <= s.max())
      p = {d: x[keep] for d, x in p.items()}
      r = r.isel(index=np.flatnonzero(keep))
      obs.ev('clipped')
    what = (f'station reference {layout} {method} extrapolate={extrap} '
            f'wrap={wrap} {p} from { {d: c[d] for d in c} }')
    rest, want = pointwise(ds[v].values, list(ds[v].dims), c, p, method,
                           extrap, wrap)
    got = out[v]
    check(set(got.dims) == set(rest) | {'index'}, f'{what}: dims {got.dims}, '
          f'expected {rest}', 'dims')
    check(np.array_equal(got['index'].values, r['index'].values),
          f'{what}: index labels', 'labels')
    for d in list(p) + ['elevation']:
      check(np.array_equal(got[d].values, r[d].values), f'{what}: {d} of the '
            'points', 'labels')
    for d in rest:
      check(np.array_equal(got[d].values, c[d]), f'{what}: labels of {d}',
            'labels')
    expect_close(got.transpose('index', *rest).values, want, what, 'sparse',
                 tol, tol)
    obs.ev('values', want.size)
    obs.ev('missing_outside', int(np.isnan(want).sum()))
    obs.ev('empty', len(r['index']) == 0)
  obs.ev(f'sparse_{layout}')
  obs.mark('sparse', layout, method, extrap, wrap, split, list(ds.a.dims),
           [len(p['latitude']) for p in pts.values()])


def altitude(rng, obs):
  method, extrap, wrap = _opts(rng)
  ds, c, tol = source(rng, wrap=wrap)
  names = {'a': '2m_temperature', 'b': '10m_wind_speed'}
  ds['c'] = ds['a'] * 2
  ds = ds.rename(dict(names, c='2m_dewpoint'))
  elev = rng.uniform(-50, 1500, [len(c[d]) for d in SP])
  eo = gen.shuffled(rng, SP)
  grid = xr.DataArray(elev, dims=SP, coords={d: c[d] for d in SP}
                      ).transpose(*eo)
  n = int(rng.choice([0, 1, 3, 8]))
  pts = _stations(rng, c, n, method, wrap, True)
  kw = {}
  limit = 1500.0
  if rng.random() < .3:
    limit = kw['max_alititude_diff_in_m'] = float(rng.choice([300, 2000]))
  _, ge = pointwise(elev, list(SP), c, {d: pts[d] for d in SP}, method, extrap,
                    wrap)
  # Differences in every regime, away from its ends.
  diff = rng.choice([-900., -50., 50., 99., 101., 600., 1099., 1101., 1499.,
                     1700., 5000., -1700., -250.], n)
  station = np.where(np.isnan(ge), 10.0, ge) + diff
  station = np.where(rng.random(n) < .1, np.nan, station)
  coords = {d: ('index', x) for d, x in pts.items()}
  coords['elevation'] = ('index', station)
  ref = xr.Dataset({v: ('index', rng.normal(size=n)) for v in ds},
                   coords=dict(coords, index=np.arange(n)))
  before = ds.copy(deep=True)
  out = I.GridToSparseWithAltitudeAdjustment(
      method, grid, wrap_longitude=wrap, extrapolate_out_of_bounds=extrap,
      **kw).interpolate(lazy(rng, ds), ref)
  higher = station - ge
  higher = np.where(np.abs(higher) < limit, higher, 0.0)
  for v in ds:
    rest, want = pointwise(before[v].values, list(before[v].dims), c, pts,
                           method, extrap, wrap)
    h = higher.reshape((n,) + (1,) * len(rest))
    if v == '2m_temperature':
      want = want - 0.0065 * h
    elif v == '10m_wind_speed':
      want = want * np.where(h < 100, 1.0, np.where(
          h < 1100, 1 + 0.002 * (h - 100), 3.0))
    got = out[v]
    check(set(got.dims) == set(rest) | {'index'}, f'dims {got.dims}', 'dims')
    expect_close(got.transpose('index', *rest).values, want,
                 f'altitude {v} {method} station={station} grid={ge} '
                 f'limit={limit}', 'altitude', tol, tol * 10)
    obs.ev('values', want.size)
  for lo, hi in ((-9e9, 0), (0, 100), (100, 1100), (1100, 9e9)):
    obs.ev(f'regime_{int(max(lo, -1))}', int(np.sum(
        (higher > lo) & (higher < hi))))
  obs.ev('unrealistic', int(np.sum(np.abs(station - ge) >= limit)))
  obs.ev('empty', n == 0)
  obs.mark('altitude', method, extrap, wrap, n, limit)


def crop_stride_chain(rng, obs):
  ds, c, _ = source(rng)
  kind = str(rng.choice(['crop', 'stride', 'chain', 'refused']))
  lat, lon = np.asarray(c['latitude']), np.asarray(c['longitude'])
  if kind in ('crop', 'chain'):
    la = np.sort(rng.uniform(-90, 90, 2))
    wide = kind == 'chain' and rng.random() < .8
    if wide:
      la = np.sort(rng.choice(lat, 2, replace=False)) + [-1e-3, 1e-3]
    elif rng.random() < .3:
      la = np.sort(rng.choice(lat, 2))          # inclusive limits
    lo = np.sort(np.round(rng.uniform(lon.min() - 5, lon.max() + 5, 2), 3)
                 ) + 1e-4
    if wide:
      lo = np.sort(rng.choice(lon, 2, replace=False)) + [-1e-3, 1e-3]
    crop = I.CropToBox(la[0], la[1], lo[0], lo[1])
    wi = {'latitude': np.sort(lat[(lat >= la[0]) & (lat <= la[1])]),
          'longitude': np.sort(lon[(lon > lo[0]) & (lon < lo[1])])}
  if kind == 'crop':
    out = crop.interpolate(lazy(rng, ds), None if rng.random() < .5 else ds)
    for v in ('a', 'b'):
      for d in SP:
        check(np.array_equal(out[v][d].values, wi[d]),
              f'crop {la} {lo}: {d} {out[v][d].values} of {c[d]}', 'crop')
      expect_close(out[v].transpose(*ds[v].dims).values, ds[v].sel(wi).values,
                   'cropped values', 'crop', 0, 0)
      obs.ev('values', out[v].size)
  elif kind == 'stride':
    st = int(rng.integers(1, 5))
    dims = gen.subset(rng, list(c) + ['absent'], .5) or ['latitude']
    out = I.Subsample(dims, st).interpolate(lazy(rng, ds))
    want = ds
    for d in dims:
      if d in c:
        want = want.sel({d: c[d][np.arange(0, len(c[d]), st)]})
    for v in ('a', 'b'):
      check(out[v].dims == ds[v].dims, 'dims', 'stride')
      for d in c:
        check(np.array_equal(out[v][d].values, want[d].values),
              f'stride {st} {dims}: {d}', 'stride')
      expect_close(out[v].values, want[v].values, f'stride {st} {dims}',
                   'stride', 0, 0)
      obs.ev('values', out[v].size)
    expect_raises(lambda: I.Subsample(['latitude'], 0), 'stride 0', 'stride',
                  ValueError)
  elif kind == 'chain':
    # Applied in the given order: crop first, then nearest in what is left.
    if min(len(x) for x in wi.values()) < 2:
      obs.ev('chain_small')
      obs.mark('chain', 'small')
      return
    to = {'latitude': no_ties(rng, wi['latitude'], rng.uniform(
        -90, 90, 3), False)}
    it = I.InterpolateToFixedCoords('nearest', to)
    out = I.MultipleInterpolation([crop, it, I.Subsample(
        ['longitude'], 2)]).interpolate(ds, None if rng.random() < .5 else ds)
    for v in ('a', 'b'):
      lab = wi['longitude'][::2]
      check(np.array_equal(out[v].longitude.values, lab), 'chain: longitudes',
            'chain')
      dims = list(ds[v].dims)
      sub = ds[v].sel(latitude=wi['latitude'], longitude=lab)
      want = orthogonal(sub.values, dims, wi, to, 'nearest', True, False)
      expect_close(out[v].transpose(*dims).values, want, f'chain {wi} {to}',
                   'chain', 1e-6, 1e-6)
      obs.ev('values', want.size)
  else:
    expect_raises(lambda: I.CropToBox(10, 5, 0, 1), 'latitudes inverted',
                  'crop', ValueError)
    expect_raises(lambda: I.CropToBox(5, 10, 1, 0), 'longitudes inverted',
                  'crop', ValueError)
  obs.ev(f'kind_{kind}')
  obs.mark(kind, list(ds.a.dims), c['latitude'].tolist())


def probabilities(rng, obs):
  """Fraction of the neighbourhood above each threshold."""
  ds, c, _ = source(rng)
  wrap = bool(rng.random() < .5)
  nl, no = len(c['latitude']), len(c['longitude'])
  sizes = [n for n in (1, 3, 5) if n <= min(nl, no)] or [1]
  sizes = gen.shuffled(rng, sizes)[:int(rng.integers(1, len(sizes) + 1))]
  thr = sorted(float(x) for x in np.round(rng.normal(size=int(
      rng.integers(1, 4))), 3))
  kw = {}
  dim = 'threshold_value'
  if rng.random() < .5:
    dim = kw['threshold_dim'] = 'thr'
  out = I.NeighborhoodThresholdProbabilities(
      sizes, thr, wrap_longitude=wrap, **kw).interpolate(ds)
  for v in ('a', 'b'):
    rest = [d for d in ds[v].dims if d not in SP]
    a = ds[v].transpose(*rest, *SP).values
    got = out[v].transpose('smoothing_neighborhood', dim, *rest, *SP)
    check(np.array_equal(got.smoothing_neighborhood.values, sizes)
          and np.array_equal(got[dim].values, thr), 'labels', 'prob_labels')
    for i, n in enumerate(sizes):
      for j, t in enumerate(thr):
        b = (a > t).astype(float)
        h = n // 2
        want = np.full(b.shape, np.nan)
        for la in range(nl):
          for lo in range(no):
            ok = h <= la < nl - h and (wrap or h <= lo < no - h)
            if ok:
              cols = [(lo + k) % no for k in range(-h, h + 1)]
              want[..., la, lo] = b[..., la - h:la + h + 1, :][
                  ..., cols].mean(axis=(-1, -2))
        g = got.values[i, j]
        live = ~np.isnan(want)
        expect_close(g[live], want[live], f'neighbourhood {n} threshold {t} '
                     f'wrap={wrap}', 'probability', 1e-5, 1e-5)
        obs.ev('probabilities', int(live.sum()))
  obs.mark('prob', sizes, thr, wrap, list(ds.a.dims))


def through_loader(rng, obs):
  """Interpolating in the loader, chunk by chunk, equals all at once."""
  ds, c, tol = source(rng)
  to = {d: np.unique(targets(rng, c[d], int(rng.integers(1, 5)), 'linear',
                             False)) for d in SP}
  rc = dict(to, init_time=c['init_time'], lead_time=c['lead_time'])
  ref = xr.Dataset({v: (list(rc), rng.normal(size=[len(x) for x in
                                                   rc.values()]))
                    for v in ('a', 'b')}, coords=rc)
  ldr = X.PredictionsFromXarray(
      ds=ds, rename_dimensions=None,
      interpolation=I.InterpolateToReferenceCoords('linear'))
  for i in range(len(c['init_time'])):
    for l in range(len(c['lead_time'])):
      it, lt = c['init_time'][[i]], c['lead_time'][[l]]
      chunk = ldr.load_chunk(it, lt, ref.sel(init_time=it, lead_time=lt))
      for v in ('a', 'b'):
        dims = list(ds[v].dims)
        want = orthogonal(ds[v].sel(init_time=it, lead_time=lt).values, dims,
                          c, to, 'linear', True, False)
        expect_close(chunk[v].transpose(*dims).values, want,
                     'interpolated chunk', 'loader_chunk', tol, tol)
        obs.ev('loader_values', want.size)
  obs.mark('loader', list(ds.a.dims), len(c['init_time']))


SCENARIOS = {
    'fixed_axes': (fixed_axes, 120, 3000),
    'fixed_points': (fixed_points, 60, 1500),
    'reference_grid': (reference_grid, 100, 3000),
    'reference_sparse': (reference_sparse, 100, 3000),
    'altitude': (altitude, 60, 1500),
    'crop_stride_chain': (crop_stride_chain, 60, 1000),
    'probabilities': (probabilities, 40, 600),
    'through_loader': (through_loader, 30, 600),
}
MIN = dict(values=20000, missing_outside=1000, extrapolated=25, wrapped=20,
           several_dims=40, clipped=20, clipped_descending=3, empty=20,
           single_times=60, sparse_index=30, sparse_timed=15,
           probabilities=1000, loader_values=500, unrealistic=10,
           regime_0=8, regime_100=4, kind_crop=5, kind_stride=5,
           kind_chain=3)
