"""C29: loading is repeatable, splittable, and changes nothing it was given."""

import os
import pickle

import numpy as np
import xarray as xr
from wbx import gen
from wbx.core import check
from wbx.props import c17
from wbx.props.c26 import Frozen
from wbx.props.c26 import arrays_equal
from wbx.props.c26 import digest
from weatherbenchX import interpolations as I
from weatherbenchX.data_loaders import base
from weatherbenchX.data_loaders import latency_wrappers as L
from weatherbenchX.data_loaders import sparse_parquet as S
from weatherbenchX.data_loaders import xarray_loaders as X

RULE = ('loaders (gridded forecast, target, climatology, persistence, '
        'probabilistic climatology, parquet observations, user loaders that '
        'serve arrays from memory, latency wrappers around them) x stores (in '
        'memory, dask, zarr, parquet) x interpolations (fixed, reference grid '
        'or stations, altitude adjustment, crop, stride, neighbourhoods, '
        'sequences) x options (masks, values as coordinates, hooks, lazy); '
        'histories of requests with repetitions, permutations, splits, '
        'failing requests and pickling in between; every chunk compared bit '
        'for bit with the one a fresh loader on a pristine copy of the data '
        'gives, splits compared with the whole, and fingerprints of all data '
        'handed over compared before and after; fingerprint = (loader, '
        'interpolation, options)')
ASSUMPTIONS = ['a loader is used by one thread at a time',
               'stored data do not change while they are being evaluated']

NS, TD = 'datetime64[ns]', 'timedelta64[ns]'
H = np.timedelta64(1, 'h')
SP = ('latitude', 'longitude')
NAMES = ('2m_temperature', '10m_wind_speed', 'x')


def _grid_world(rng):
  """Forecast, analysis and climatology stores on one grid."""
  c = gen.grid(rng, SP, sizes={'latitude': int(rng.integers(3, 6)),
                               'longitude': int(rng.integers(3, 7))})
  start = np.datetime64(str(rng.choice(
      ['2020-02-27', '2019-12-30', '2021-06-30'])), 'h')
  init = (start + np.arange(4) * 6 * H).astype(NS)
  lead = (np.arange(8) * 6 * H).astype(TD)
  valid = (start + np.arange(16) * 6 * H).astype(NS)
  dt = str(rng.choice(['f4', 'f8']))

  def ds(coords):
    dims = gen.shuffled(rng, list(coords))
    return xr.Dataset(
        {v: (dims, gen.holes(rng, 280 + rng.normal(
            size=[len(coords[d]) for d in dims]), .05).astype(dt))
         for v in NAMES}, coords=coords, attrs={'source': 'made up'})

  w = {'pred': ds(dict(c, init_time=init, lead_time=lead)),
       'target': ds(dict(c, valid_time=valid)),
       'clim': ds(dict(c, dayofyear=np.arange(1, 367),
                       hour=np.array([0, 6, 12, 18])))}
  return w, c, init, lead


def _elevations(rng, c):
  return xr.DataArray(rng.uniform(0, 900, [len(c[d]) for d in SP]), dims=SP,
                      coords={d: c[d] for d in SP})


def _inner(rng, c, n=5):
  """Points within the grid."""
  return {d: np.round(rng.uniform(min(c[d]), max(c[d]), n), 3) for d in SP}


def _reference(rng, c, interp):
  """A reference chunk as a target loader would give it."""
  # The altitude adjustment is for stations.
  kind = 'stations' if interp == 'altitude' else str(rng.choice(
      ['stations', 'grid', 'same']))
  if kind == 'stations':
    n = int(rng.integers(1, 6))
    pts = _inner(rng, c, n)
    coords = {d: ('index', x) for d, x in pts.items()}
    coords['elevation'] = ('index', rng.uniform(0, 1500, n))
    coords['index'] = np.arange(n)
    ref = xr.Dataset({v: ('index', rng.normal(size=n)) for v in
                      NAMES + ('derived',)}, coords=coords)
  else:
    to = {d: np.sort(x) for d, x in _inner(rng, c, 4).items()}
    if kind == 'same':
      to = {d: c[d] for d in SP}
    ref = xr.Dataset({v: (SP, rng.normal(size=[len(to[d]) for d in SP]))
                      for v in NAMES + ('derived',)}, coords=to)
    ref = ref.assign_coords(elevation=(SP, rng.uniform(
        0, 1500, [len(to[d]) for d in SP])))
  return dict(ref) if rng.random() < .5 else ref


INTERPS = ('none', 'none', 'fixed', 'reference', 'altitude', 'altitude',
           'crop', 'stride', 'neighbourhood', 'chain')


def _interpolation(rng, name, c, given):
  """An interpolation, with what it was given registered in `given`."""
  if name == 'none':
    return None
  if name == 'fixed':
    to = {d: np.sort(x) for d, x in _inner(rng, c, 3).items()}
    if rng.random() < .5:
      to = {d: xr.DataArray(x, dims=['p']) for d, x in to.items()}
    elif rng.random() < .3:
      to['latitude'] = c['latitude'].copy()
    given['coords'] = to
    return I.InterpolateToFixedCoords('linear', to)
  if name == 'reference':
    return I.InterpolateToReferenceCoords(
        str(rng.choice(['linear', 'nearest'])), dims=list(SP),
        clip_reference_coords=list(SP) if rng.random() < .3 else None)
  if name == 'altitude':
    given['elevations'] = e = _elevations(rng, c)
    return I.GridToSparseWithAltitudeAdjustment('linear', e, dims=list(SP))
  if name == 'crop':
    lo, hi = sorted(rng.uniform(-90, 90, 2))
    return I.CropToBox(lo, hi, -180, 360)
  if name == 'stride':
    return I.Subsample(gen.shuffled(rng, SP)[:int(rng.integers(1, 3))], 2)
  if name == 'neighbourhood':
    given['sizes'] = sizes = [1, 3]
    given['thresholds'] = thr = [279.5, 280.5]
    return I.NeighborhoodThresholdProbabilities(sizes, thr)
  parts = [_interpolation(rng, n, c, given)
           for n in gen.shuffled(rng, ['stride', 'fixed', 'stride'])[:2]]
  given['parts'] = parts
  return I.MultipleInterpolation(parts)


class Memory(base.DataLoader):
  """A user's loader that serves arrays it keeps in memory."""

  def __init__(self, store, **kw):
    self.store = store
    super().__init__(**kw)

  def _load_chunk_from_source(self, init_times, lead_times=None):
    key = (digest([str(t) for t in init_times]),
           digest([str(t) for t in lead_times]))
    if key not in self.store:
      ds = self.store['all'].sel(init_time=init_times, lead_time=lead_times)
      self.store[key] = {v: ds[v] for v in ds}
    return self.store[key]


def _plus(chunk):
  out = {v: chunk[v] for v in chunk}
  out['derived'] = next(iter(out.values())) * 2
  return out


def _options(rng):
  kw = {}
  if rng.random() < .35:
    kw['add_nan_mask'] = True
  if rng.random() < .3:
    kw['add_values_to_coords'] = True
  if rng.random() < .3:
    kw['process_chunk_fn'] = _plus
  if rng.random() < .25:
    kw['compute'] = False
  return kw


def _factory(rng, kind, w, c, init, lead, given, tmp, interp, obs):
  """Function that makes a loader from a dict of what it is given."""
  kw = _options(rng)
  src = {'pred': 'pred', 'memory': 'pred', 'latency': 'pred',
         'multi': 'pred', 'target': 'target', 'persist': 'target',
         'clim': 'clim'}[kind]
  store = 'ds'
  if kind != 'memory':
    store = str(rng.choice(['ds', 'ds', 'dict', 'dask', 'zarr']))
  ds = w[src]
  given['ds'] = ds
  if kind == 'memory':
    given['store'] = {'all': ds}
  if store == 'dask':
    given['ds'] = ds.chunk({d: 2 for d in SP})
  if store == 'zarr':
    ds.to_zarr(os.path.join(tmp, 's.zarr'))
  if kind == 'clim' and rng.random() < .5:
    kw['variables'] = given['variables'] = list(NAMES[:2])
  elif rng.random() < .3 and kind != 'memory':
    kw['variables'] = given['variables'] = list(NAMES[::2])
  pre = kind != 'memory' and rng.random() < .3
  lat = np.timedelta64(int(rng.choice([0, 3, 6])), 'h')
  if kind == 'multi':
    given['late'] = ds.isel(init_time=slice(1, None, 2))
    given['early'] = ds.isel(init_time=slice(0, None, 2))
  obs.ev(f'kind_{kind}')
  obs.ev(f'store_{store}')
  obs.ev(f'interp_{interp}')
  for k in kw:
    obs.ev(f'opt_{k}')

  def make(g):
    k = dict(kw)
    if 'variables' in k:
      k['variables'] = g['variables']
    k['interpolation'] = g['interp']
    if kind == 'memory':
      return Memory(g['store'], **k)
    if pre:
      k['preprocessing_fn'] = _double
    if kind == 'multi':
      return L.MultipleConstantLatencyWrapper([
          L.XarrayConstantLatencyWrapper(X.PredictionsFromXarray(
              ds=g[s], rename_dimensions=None, **k), lat)
          for s in ('late', 'early')])
    where = ({'path': os.path.join(tmp, 's.zarr')} if store == 'zarr'
             else {'ds': g['ds']})
    cls = {'pred': X.PredictionsFromXarray, 'latency': X.PredictionsFromXarray,
           'target': X.TargetsFromXarray, 'persist': X.PersistenceFromXarray,
           'clim': X.ClimatologyFromXarray}[kind]
    ldr = cls(rename_dimensions=None, **where, **k)
    if kind == 'latency':
      ldr = L.XarrayConstantLatencyWrapper(ldr, lat)
    return ldr

  return make, dict(kw, store=store, pre=pre)


def _double(ds):
  return ds * 2


def _deep(x):
  """Independent copy of data handed over."""
  if isinstance(x, (xr.Dataset, xr.DataArray)):
    return x.copy(deep=True)
  if isinstance(x, dict):
    return {k: _deep(v) for k, v in x.items()}
  if isinstance(x, I.Interpolation):
    return pickle.loads(pickle.dumps(x))
  if isinstance(x, list):
    return [_deep(v) for v in x]
  return x.copy() if isinstance(x, np.ndarray) else x


def _same_chunk(a, b, what, key):
  check(list(a) == list(b), f'{what}: variables {list(a)} and {list(b)}', key)
  for v in a:
    arrays_equal(a[v].compute(), b[v].compute(), f'{what}: {v}', key)


def _data(given):
  return {k: v for k, v in given.items()
          if k not in ('interp', 'parts', 'store')}


def gridded(rng, obs):
  w, c, init, lead = _grid_world(rng)
  kind = str(rng.choice(['pred', 'pred', 'memory', 'memory', 'target',
                         'persist', 'clim', 'latency', 'multi']))
  name = str(rng.choice(INTERPS))
  given = {}
  given['interp'] = _interpolation(rng, name, c, given)
  ref = None
  if name in ('reference', 'altitude'):
    ref = given['reference'] = _reference(rng, c, name)
  make, opts = _factory(rng, kind, w, c, init, lead, given, obs.tmp, name, obs)
  pristine = _deep(given)
  froz = Frozen(**_data(given))
  what = f'{kind} {name} {opts}'
  ldr = make(given)
  seen = []
  last_lead = 4
  for step in range(int(rng.integers(3, 7))):
    act = str(rng.choice(['new', 'new', 'again', 'split', 'pickle', 'fail'],
                         p=[.25, .1, .25, .2, .1, .1]))
    if act == 'again' and seen:
      it, lt, before = seen[int(rng.integers(len(seen)))]
    elif act == 'fail':
      try:
        ldr.load_chunk(np.array(['1890-01-01'], NS), lead[:1], ref)
      except (KeyError, ValueError):
        obs.ev('failed_requests')
      froz.verify(f'{what} after a failing request', obs)
      continue
    else:
      i = np.sort(rng.permutation(len(init))[:int(rng.integers(1, 4))])
      l = np.sort(rng.permutation(last_lead)[:int(rng.integers(1, 4))])
      if rng.random() < .3:
        i, l = rng.permutation(i), rng.permutation(l)
      it, lt, before = init[i], lead[l], None
      if kind in ('latency', 'multi'):
        it = init[-1:] if rng.random() < .3 else np.sort(it)[-2:]
        it = it + np.timedelta64(int(rng.choice([6, 7, 8])), 'h')
        lt = np.sort(lt)
        off = {int(x) for x in ((it - init[0]) / H).astype(int)}
        if any(x % 6 for x in off):
          it = it - np.array([(x % 6) for x in (
              (it - init[0]) / H).astype(int)]) * H
    it, lt = it.copy(), lt.copy()
    if act == 'pickle' and kind != 'memory':
      ldr = pickle.loads(pickle.dumps(ldr))
      obs.ev('pickled')
    req = Frozen(init_times=it, lead_times=lt)
    chunk = ldr.load_chunk(it, lt, ref)
    req.verify(f'{what} request {it} {lt}', obs)
    froz.verify(f'{what} after {act} {it} {lt}', obs)
    if kind == 'memory':
      for k, v in given['store'].items():
        if k == 'all':
          continue
        for n, da in v.items():
          want = given['store']['all'][n]
          check(set(da.coords) == set(want.coords),
                f'{what}: the arrays of the source got the coordinates '
                f'{set(da.coords) ^ set(want.coords)}', 'source_coords')
          sub = want.sel(init_time=da.init_time, lead_time=da.lead_time)
          check(da.identical(sub), f'{what}: the arrays of the source were '
                'modified', 'source_values')
          obs.ev('source_arrays')
    fresh = make(_deep(pristine)).load_chunk(
        it, lt, None if ref is None else _deep(pristine['reference']))
    _same_chunk(chunk, fresh, f'{what} step {step} {act} {it} {lt}: not what a '
                'fresh loader gives', 'history')
    obs.ev('chunks')
    obs.ev('values', sum(int(chunk[v].size) for v in chunk))
    if before is not None:
      obs.ev('repeated')
    seen.append((it, lt, True))
    if act == 'split' and len(it) > 1 or act == 'split' and len(lt) > 1:
      _split(rng, ldr, it, lt, ref, chunk, what, obs)
  obs.mark('gridded', kind, name, sorted(map(str, opts.items())))


def _split(rng, ldr, it, lt, ref, whole, what, obs):
  """The parts of a chunk, loaded one by one in any order."""
  cells = [(i, l) for i in range(len(it)) for l in range(len(lt))]
  for i, l in gen.shuffled(rng, cells)[:4]:
    part = ldr.load_chunk(it[[i]], lt[[l]], ref)
    check(set(part) == set(whole), f'{what}: variables of a part', 'split')
    for v in part:
      a, b = whole[v].compute(), part[v].compute()
      want = a.isel({d: [k] for d, k in (('init_time', i), ('lead_time', l))
                     if d in a.dims})
      check(set(want.dims) == set(b.dims), f'{what}: dims of a part {b.dims}',
            'split')
      b = b.transpose(*want.dims)
      ok = want.shape == b.shape and np.array_equal(
          want.values, b.values, equal_nan=True)
      if not ok and want.shape == b.shape:
        # The arithmetic of an interpolation may depend on the layout.
        ok = np.allclose(want.values, b.values, rtol=1e-5, atol=1e-4,
                         equal_nan=True)
      check(ok, f'{what}: the part {it[i]} {lt[l]} of {v} differs from the '
            f'whole: {b.values.ravel()[:4]} and {want.values.ravel()[:4]}',
            'split')
      for d in ('init_time', 'lead_time', 'valid_time', 'mask'):
        if d in want.coords and d in b.coords:
          x = want.coords[d]
          y = b.coords[d].transpose(*x.dims)
          check(np.array_equal(x.values, y.values),
                f'{what}: {d} of a part', 'split')
    obs.ev('parts')


def sparse(rng, obs):
  """Parquet observations, alone and as reference of gridded forecasts."""
  mode = str(rng.choice(['exact', 'exact', 'tolerance', 'interval']))
  opts = c17._options(rng, mode)
  part = str(rng.choice(['hour', 'day', 'month']))
  hours = int(rng.integers(6, 16))
  start, df = c17.records(rng, hours, True)
  c17.write(df, obs.tmp, part, start - 12 * H, start + (hours + 48) * H)
  kw = c17._kwargs(rng, opts)
  if opts['dedupe']:
    kw['observation_dim'] = 'stationName'
  more = {k: v for k, v in _options(rng).items()
          if k in ('add_nan_mask', 'add_values_to_coords')}
  variables = ['temperature', 'windSpeed']
  coords = ['stationName', 'latitude', 'longitude', 'elevation']
  given = {'variables': variables, 'coordinates': coords}
  froz = Frozen(**given)

  def make():
    return S.SparseObservationsFromParquet(
        path=obs.tmp, partitioned_by=part, variables=variables,
        coordinate_variables=coords, **kw, **more)

  ldr = make()
  init = (start + np.arange(0, 6, 2) * H).astype(NS)
  lead = (np.arange(4) * H).astype(TD)
  files = _tree(obs.tmp)
  what = f'parquet {mode} {part} {opts} {sorted(more)}'
  for step in range(int(rng.integers(2, 5))):
    it = init[np.sort(rng.permutation(3)[:int(rng.integers(1, 4))])]
    if mode == 'interval':
      a, b = np.sort(rng.permutation(5)[:2])
      lt = slice(a * H, b * H)
    else:
      lt = lead[np.sort(rng.permutation(4)[:int(rng.integers(1, 4))])]
    if rng.random() < .2:
      ldr = pickle.loads(pickle.dumps(ldr))
      obs.ev('pickled')
    chunk = ldr.load_chunk(it, lt)
    froz.verify(what, obs)
    check(_tree(obs.tmp) == files, f'{what}: files changed', 'files')
    _same_chunk(chunk, make().load_chunk(it, lt),
                f'{what} step {step}: not what a fresh loader gives', 'history')
    obs.ev('chunks')
    obs.ev('observations', sum(int(chunk[v].size) for v in chunk))
    # Split along initializations: the rows of the parts, in order.
    parts = [ldr.load_chunk(np.array([i]), lt) for i in it]
    for v in chunk:
      whole = chunk[v]
      for cname in ('', 'init_time', 'lead_time', 'stationName', 'valid_time'):
        get = (lambda x: x.values) if not cname else (
            lambda x, cname=cname: x.coords[cname].values)
        got = np.concatenate([get(p[v]) for p in parts])
        want = get(whole)
        same = (len(got) == len(want) and all(
            a == b or (a != a and b != b) for a, b in zip(got, want)))
        check(same, f'{what}: {cname or "values"} of the parts of {v}: '
              f'{got[:5]} and {want[:5]}', 'split')
    obs.ev('parts', len(parts))
  obs.mark('sparse', mode, part, sorted(map(str, opts.items())), sorted(more))


def _tree(root):
  out = []
  for d, _, files in sorted(os.walk(root)):
    for f in sorted(files):
      p = os.path.join(d, f)
      out.append((p, os.path.getsize(p), os.stat(p).st_mtime_ns))
  return out


def direct(rng, obs):
  """Interpolations and masks called directly on a user's data."""
  w, c, _, _ = _grid_world(rng)
  data = w['pred'].isel(init_time=slice(2), lead_time=slice(2))
  form = str(rng.choice(['dataset', 'dict']))
  data = dict(data) if form == 'dict' else data
  name = str(rng.choice([n for n in INTERPS if n != 'none'] + ['mask'] * 3))
  given = {'data': data}
  if name == 'mask':
    subset = [None, [NAMES[0]], list(NAMES)][int(rng.integers(3))]
    run = lambda d, g: base.add_nan_mask_to_data(d, subset)
    interp = None
  else:
    interp = _interpolation(rng, name, c, given)
    if name in ('reference', 'altitude'):
      given['reference'] = _reference(rng, c, name)
    run = lambda d, g: interp.interpolate(d, g.get('reference'))
  froz = Frozen(**{k: v for k, v in given.items() if k != 'parts'})
  pristine = _deep({k: v for k, v in given.items() if k != 'parts'})
  first = run(data, given)
  froz.verify(f'{name} of a {form}', obs)
  keep = digest({v: first[v].compute() for v in first})
  for _ in range(2):
    again = run(data, given)
    froz.verify(f'{name} of a {form}, repeated', obs)
    _same_chunk(again, first, f'{name} of a {form}, repeated', 'history')
  fresh = run(pristine['data'], pristine)
  _same_chunk(fresh, first, f'{name} of a copy of the {form}', 'history')
  check(digest({v: first[v].compute() for v in first}) == keep,
        f'{name}: the first result changed afterwards', 'result_changed')
  obs.ev('direct')
  obs.ev(f'direct_{name}')
  obs.mark('direct', name, form)


SCENARIOS = {
    'gridded': (gridded, 220, 4000),
    'sparse': (sparse, 30, 500),
    'direct': (direct, 100, 1500),
}
MIN = {'chunks': (500, 8000), 'values': (30000, 500000),
       'repeated': (60, 1000), 'parts': (150, 2500), 'pickled': (15, 300),
       'failed_requests': (30, 500), 'inputs_verified': (1200, 20000),
       'observations': (400, 8000), 'direct': (80, 1200),
       'source_arrays': (100, 1500),
       **{f'kind_{k}': (6, 120) for k in (
           'pred', 'memory', 'target', 'persist', 'clim', 'latency', 'multi')},
       **{f'interp_{k}': (6, 120) for k in set(INTERPS)}}
