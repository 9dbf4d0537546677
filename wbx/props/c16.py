"""C16: gridded loaders deliver exactly the requested times and variables."""

import datetime
import os
import pickle

import numpy as np
import xarray as xr
from wbx import gen
from wbx import mo
from wbx.core import check, expect_close, expect_raises
from weatherbenchX.data_loaders import base
from weatherbenchX.data_loaders import xarray_loaders as X

RULE = ('stores (in memory, dask, zarr, netCDF; dimension names, orders, extra '
        'dimensions, dtypes, NaN) x options (variables, renames, selections, '
        'preprocessing, chunk processing, masks, values as coordinates, lazy) '
        'x histories of chunk requests (subsets, permutations, repetitions, '
        'intervals, all leads, time units, pickling in between) for the five '
        'gridded loaders; each chunk against numpy indexing of the stored '
        'arrays; fingerprint = (loader, options, request)')
ASSUMPTIONS = [
    'times in a store are unique and, where lead time intervals are requested, '
    'sorted']

SP = ('latitude', 'longitude')


class Store:
  """Canonical arrays, the dataset as stored, and the loader options."""

  def __init__(self, rng, kind, obs):
    self.kind = kind
    tdims = {'pred': ['init_time', 'lead_time'], 'target': ['valid_time'],
             'persist': ['valid_time'], 'prob': ['valid_time'],
             'clim': ['dayofyear', 'hour']}[kind]
    c = {}
    if kind == 'pred':
      c['init_time'] = gen.init_times(rng, int(rng.integers(2, 7)))
      c['lead_time'] = gen.lead_times(rng, int(rng.integers(1, 6)))
    elif kind == 'clim':
      c['dayofyear'] = np.arange(1, 367)
      c['hour'] = np.arange(0, 24, 6)
    else:
      self.step = np.timedelta64(int(rng.choice([3, 6, 12])), 'h')
      y = int(rng.choice([2019, 2020, 2021]))
      if kind == 'prob':
        self.step = np.timedelta64(12, 'h')
        a, b = f'{y}-01-01', f'{y + 2}-01-02'
        self.years = (y, y + 1)
      else:
        a, b = f'{y}-02-27', f'{y}-03-08'
      c['valid_time'] = np.arange(np.datetime64(a, 'h'), np.datetime64(b, 'h'),
                                  self.step).astype('datetime64[ns]')
    c.update(gen.grid(rng, SP, lo=2, hi=4))
    if rng.random() < .4:
      c['level'] = np.array([500, 850, 1000])
    if rng.random() < .3 and kind != 'prob':
      c['number'] = np.arange(2)
    self.coords = c
    self.vars = {}
    for v in ['a', 'b', 'c'][:int(rng.integers(1, 4))]:
      dims = tdims + list(SP) + [d for d in ('level', 'number')
                                 if d in c and rng.random() < .7]
      dims = gen.shuffled(rng, dims)
      x = rng.normal(size=[len(c[d]) for d in dims])
      dt = str(rng.choice(['f4', 'f8', 'f8', 'i4']))
      if dt == 'i4':
        x = np.round(100 * x)
      elif rng.random() < .5:
        x = gen.holes(rng, x, .1)
      self.vars[v] = (dims, x.astype(dt))
    self.kw = {}
    self.want = {v: v for v in self.vars}        # canonical -> returned name
    self.log = []
    self._stored(rng, obs)

  def _stored(self, rng, obs):
    kw, c = self.kw, self.coords
    used = {d for dims, _ in self.vars.values() for d in dims}
    ds = xr.Dataset({v: (d, a.copy()) for v, (d, a) in self.vars.items()},
                    coords={d: c[d] for d in c if d in used})
    self.coords = c = {d: c[d] for d in c if d in used}
    # Names of dimensions.
    style = str(rng.choice(['ecmwf', 'ecmwf', 'dict', 'none']))
    if self.kind == 'clim':
      style = str(rng.choice(['dict', 'none', 'default']))
    ren = {}
    if style == 'ecmwf':
      ren = ({'init_time': 'time', 'lead_time': 'prediction_timedelta'}
             if self.kind == 'pred' else {'valid_time': 'time'})
      if rng.random() < .5:
        kw['rename_dimensions'] = 'ecmwf'
    elif style == 'dict':
      tv = [d for d in c if d not in SP and d not in ('level', 'number')]
      ren = {d: f'my_{d}' for d in tv}
      if 'level' in c and rng.random() < .5:
        ren['level'] = 'plev'
      kw['rename_dimensions'] = {b: a for a, b in ren.items()}
    elif style == 'none':
      kw['rename_dimensions'] = None
    if rng.random() < .4:
      ren.update(latitude='lat', longitude='lon')
    ds = ds.rename(ren)
    # Names of variables: one is stored under another name.
    if rng.random() < .4:
      v = str(rng.choice(list(self.vars)))
      ds = ds.rename({v: f'stored_{v}'})
      kw['rename_variables'] = {f'stored_{v}': v}
      obs.ev('opt_rename_variables')
    # Preprocessing sees the stored names, once.
    log = self.log
    if rng.random() < .3:
      known = set(ds.data_vars)

      def pre(d, known=known):
        log.append('pre')
        assert set(d.data_vars) == known
        return d * 2

      kw['preprocessing_fn'] = pre
      self.vars = {v: (d, a * 2) for v, (d, a) in self.vars.items()}
      obs.ev('opt_preprocessing')
    if rng.random() < .4:
      self.want = {v: v for v in gen.shuffled(rng, list(self.vars))[
          :int(rng.integers(1, len(self.vars) + 1))]}
      names = list(self.want)
      kw['variables'] = [names, tuple(names), names][int(rng.integers(3))]
      obs.ev('opt_variables')
      # Dimensions that only other variables have are gone now.
      used = {d for v in self.want for d in self.vars[v][0]}
      self.coords = {d: x for d, x in self.coords.items() if d in used}
      self.vars = {v: self.vars[v] for v in self.want}
    self.sel = {}
    if rng.random() < .5:
      opts = [d for d in self.coords if d in SP + ('level', 'number')]
      d = str(rng.choice(opts))
      x = self.coords[d]
      how = str(rng.choice(['scalar', 'list', 'slice', 'nearest']))
      if how == 'scalar':
        i = int(rng.integers(len(x)))
        kw['sel_kwargs'] = {d: x[i].item()}
        self.sel[d] = i
      elif how == 'list':
        i = rng.permutation(len(x))[:int(rng.integers(1, len(x) + 1))]
        kw['sel_kwargs'] = {d: [x[k].item() for k in i]}
        self.sel[d] = i
      elif how == 'slice':
        i, j = np.sort(rng.integers(0, len(x), 2))
        kw['sel_kwargs'] = {d: slice(x[i].item(), x[j].item())}
        self.sel[d] = np.arange(i, j + 1)
      else:
        i = int(rng.integers(len(x)))
        kw['sel_kwargs'] = {d: [x[i].item() + 1e-3], 'method': 'nearest'}
        self.sel[d] = np.array([i])
      obs.ev(f'opt_sel_{how}')
    self.ds = ds
    self.dims_order = style

  def open(self, rng, obs, cls, **more):
    kw = dict(self.kw, **more)
    how = str(rng.choice(['ds', 'ds', 'dask', 'zarr', 'zarr/', 'nc']))
    if how in ('ds', 'dask'):
      d = self.ds
      if how == 'dask':
        d = d.chunk({k: int(rng.integers(1, 5)) for k in d.dims
                     if d.sizes[k] < 50} or {})
      kw['ds'] = d
      self.held = d
    else:
      path = os.path.join(obs.tmp, 'store' + (
          '.nc' if how == 'nc' else '.zarr'))
      if how == 'nc':
        self.ds.to_netcdf(path)
      else:
        self.ds.to_zarr(path)
      kw['path'] = path + ('/' if how == 'zarr/' else '')
      self.held = None
    obs.ev('store_' + how.rstrip('/'))
    return cls(**kw), how

  def pick(self, v, idx):
    """Stored values with the given index per dimension, selections applied."""
    dims, a = self.vars[v]
    out_dims = []
    idx = dict(self.sel, **idx)
    for d in dims[::-1]:
      ax = dims.index(d)
      if d in idx:
        a = np.take(a, idx[d], axis=ax)
    for d in dims:
      if not (d in idx and np.ndim(idx[d]) == 0):
        out_dims.append(d)
    return out_dims, a

  def labels(self, d):
    x = self.coords[d]
    return x[self.sel[d]] if d in self.sel else x


def _hooks(rng, obs, log):
  """Options of the base loader and what they do to the expected chunk."""
  kw, flags = {}, {}
  if rng.random() < .3:
    def fn(chunk):
      log.append('chunk')
      k = next(iter(chunk))
      return {**{v: chunk[v] for v in chunk}, 'derived': chunk[k] * 3.0}
    kw['process_chunk_fn'] = fn
    flags['derived'] = True
    obs.ev('opt_process_chunk')
  if rng.random() < .35:
    kw['add_nan_mask'] = flags['mask'] = True
    obs.ev('opt_nan_mask')
  if rng.random() < .35:
    kw['add_values_to_coords'] = flags['values'] = True
    obs.ev('opt_values')
  if rng.random() < .2:
    kw['compute'] = False
    flags['lazy'] = True
    obs.ev('opt_lazy')
  return kw, flags


def _compare(chunk, want, labels, flags, what, obs):
  """want: {var: (dims, array)}; labels: {dim: labels}."""
  names = set(want)
  if flags.get('derived'):
    want = dict(want, derived=None)
    names.add('derived')
    src = chunk['derived']
    # Derived from whichever variable came first in the chunk.
    ok = any(_same(src, d, a * 3.0) for d, a in
             (x for k, x in want.items() if x is not None))
    check(ok, f'{what}: derived variable', 'derived')
  check(set(chunk) == names, f'{what}: variables {sorted(map(str, chunk))}, '
        f'expected {sorted(names)}', 'variables')
  for v, x in want.items():
    if x is None:
      continue
    dims, a = x
    got = chunk[v]
    check(set(got.dims) == set(dims),
          f'{what}: {v} has dimensions {got.dims}, expected {dims}', 'dims')
    for d in dims:
      check(np.array_equal(got[d].values, np.asarray(labels[d])),
            f'{what}: labels of {d} are {got[d].values}, expected {labels[d]}',
            'labels')
    check(got.dtype == a.dtype, f'{what}: {v} has dtype {got.dtype}, stored as '
          f'{a.dtype}', 'dtype')
    g = got.transpose(*dims)
    expect_close(g.values, a, f'{what}: {v}', 'values', rtol=0, atol=0)
    if flags.get('mask'):
      check('mask' in got.coords, f'{what}: {v} lost its mask', 'mask')
      m = got.coords['mask']
      check(set(m.dims) == set(dims), f'{what}: dims of the mask', 'mask')
      expect_close(m.transpose(*dims).values, ~np.isnan(a), f'{what}: mask',
                   'mask')
      obs.ev('masked_points', int(np.isnan(a).sum()))
    else:
      check('mask' not in got.coords, f'{what}: unexpected mask', 'mask')
    if flags.get('values'):
      check('values_as_coord' in got.coords, f'{what}: {v} lost its values as '
            'coordinate', 'values_as_coord')
      w = got.coords['values_as_coord']
      check(set(w.dims) == set(dims), f'{what}: dims of the values as coord',
            'values_as_coord')
      expect_close(w.transpose(*dims).values, a, f'{what}: values as coord',
                   'values_as_coord')
    else:
      check('values_as_coord' not in got.coords, f'{what}: unexpected values',
            'values_as_coord')
    obs.ev('values_checked', a.size)


def _same(da, dims, a):
  return (set(da.dims) == set(dims) and np.array_equal(
      da.transpose(*dims).values, a, equal_nan=True))


def _unit(rng, x, kind):
  """The same times in another unit."""
  if rng.random() < .25:
    u = str(rng.choice(['s', 'ms', 'us']))
    return x.astype(f'{kind}64[{u}]')
  return x


def _history(rng, obs, kind, cls, more, request, expected):
  """Common driver: a history of requests on one loader."""
  s = Store(rng, kind, obs)
  log = s.log
  hooks, flags = _hooks(rng, obs, log)
  ldr, how = s.open(rng, obs, cls, **more(s), **hooks)
  before = s.ds.copy(deep=True)
  n_req = int(rng.integers(2, 5))
  for k in range(n_req):
    if rng.random() < .15 and not hooks.get('process_chunk_fn') and \
        'preprocessing_fn' not in s.kw:
      ldr = pickle.loads(pickle.dumps(ldr))
      obs.ev('pickled')
    args, idx, labels, extra = request(rng, s)
    try:
      chunk = ldr.load_chunk(*args)
    except Exception as e:
      e.add_note(f'{cls.__name__} {how} {s.kw} request {args}')
      raise
    want = {v: expected(s, v, idx) for v in s.want}
    labels = dict({d: s.labels(d) for d in s.coords if d not in labels},
                  **labels)
    if flags.get('lazy') is None:
      for v in want:
        check(not hasattr(chunk[v].variable._data, 'dask'), 'chunk is lazy',
              'lazy')
    what = f'{cls.__name__} {how} {s.kw} {flags} request {k}: {args}'
    _compare(chunk, want, labels, flags, what, obs)
    obs.ev('chunks')
    obs.ev(f'req_{extra}')
  check(log.count('pre') == int('preprocessing_fn' in s.kw),
        f'preprocessing ran {log.count("pre")} times', 'preprocess_once')
  check(log.count('chunk') == n_req * int('process_chunk_fn' in hooks),
        f'chunk processing ran {log.count("chunk")} times for {n_req} chunks',
        'process_once')
  check(s.ds.identical(before), 'stored data were modified', 'modified')
  obs.mark(kind, how, sorted(s.kw), sorted(hooks), s.dims_order,
           [list(d) for d, _ in s.vars.values()])
  return s, ldr


def _some(rng, n):
  """Indices of a request: subset, sometimes permuted."""
  i = np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])
  return i[rng.permutation(len(i))] if rng.random() < .25 else i


def predictions(rng, obs):
  def request(rng, s):
    it, lt = s.coords['init_time'], s.coords['lead_time']
    i = _some(rng, len(it))
    mode = str(rng.choice(['exact', 'exact', 'slice', 'all']))
    if mode == 'exact':
      l = _some(rng, len(lt))
      arg = _unit(rng, lt[l], 'timedelta')
    elif mode == 'slice':
      a, b = np.sort(rng.integers(0, len(lt), 2))
      lo, hi = lt[a] - np.timedelta64(int(rng.integers(0, 2)), 'm'), lt[b]
      l = np.flatnonzero((lt >= lo) & (lt <= hi))
      arg = slice(lo, hi)
      if rng.random() < .2:
        arg, l = slice(None, hi), np.flatnonzero(lt <= hi)
    else:
      l, arg = np.arange(len(lt)), None
    args = (_unit(rng, it[i], 'datetime'),)
    if arg is not None or rng.random() < .5:
      args += (arg,)
    return (args, {'init_time': i, 'lead_time': l},
            {'init_time': it[i], 'lead_time': lt[l]}, mode)

  s, ldr = _history(rng, obs, 'pred', X.PredictionsFromXarray,
                    lambda s: {}, request, lambda s, v, i: s.pick(v, i))
  it, lt = s.coords['init_time'], s.coords['lead_time']
  m = np.timedelta64(17, 'm')
  bad_i = np.concatenate([it[:1], [it[-1] + m]])
  expect_raises(lambda: ldr.load_chunk(bad_i, lt), 'initialization not stored',
                'missing_accepted', KeyError)
  bad_l = np.concatenate([lt[:1], [lt[-1] + m]])
  expect_raises(lambda: ldr.load_chunk(it, bad_l), 'lead time not stored',
                'missing_accepted', KeyError)
  obs.ev('missing_rejected', 2)


def _init_lead(rng, t, n=4):
  """Requests whose valid times are all in the regular times t."""
  k = int(rng.integers(1, n + 1))
  i = np.sort(rng.choice(len(t) // 2, k, replace=False))
  off = np.sort(rng.choice(len(t) // 2, int(rng.integers(1, n + 1)),
                           replace=False))
  if rng.random() < .25:
    i, off = rng.permutation(i), rng.permutation(off)
  return i, off


def targets(rng, obs):
  def request(rng, s):
    t = s.coords['valid_time']
    if rng.random() < .2:
      i = _some(rng, len(t))
      return ((_unit(rng, t[i], 'datetime'),), {'valid_time': i},
              {'valid_time': t[i]}, 'nolead')
    i, off = _init_lead(rng, t)
    lead = (off * s.step).astype('timedelta64[ns]')
    # Initializations need not be stored times themselves.
    sh = np.timedelta64(int(rng.choice([0, 0, 1])), 'h')
    init, lead = t[i] - sh, lead + sh
    return ((_unit(rng, init, 'datetime'), _unit(rng, lead, 'timedelta')),
            {'valid_time': i[:, None] + off[None, :]},
            {'init_time': init, 'lead_time': lead}, 'exact')

  def expected(s, v, idx):
    j = idx['valid_time']
    if j.ndim == 1:
      return s.pick(v, idx)
    dims, a = s.pick(v, {'valid_time': j.ravel()})
    ax = dims.index('valid_time')
    a = a.reshape(a.shape[:ax] + j.shape + a.shape[ax + 1:])
    return dims[:ax] + ['init_time', 'lead_time'] + dims[ax + 1:], a

  s, ldr = _history(rng, obs, 'target', X.TargetsFromXarray, lambda s: {},
                    request, expected)
  t = s.coords['valid_time']
  step = s.step.astype('timedelta64[ns]')
  c = ldr.load_chunk(t[:2], np.array([0, 1]) * step)
  for v in s.want:
    vt = c[v].coords['valid_time'].transpose('init_time', 'lead_time')
    expect_close(vt.values, t[:2, None] + (np.array([0, 1]) * step)[None, :],
                 'valid time coordinate', 'valid_time')
  expect_raises(lambda: ldr.load_chunk(t[-1:], np.array([0, 1]) * step),
                'valid time after the end', 'missing_accepted', KeyError)
  expect_raises(lambda: ldr.load_chunk(t[:1], np.array([17]).astype(
      'timedelta64[m]').astype('timedelta64[ns]')),
                'valid time between stored times', 'missing_accepted',
                KeyError)
  expect_raises(lambda: ldr.load_chunk(t[:1], slice(0 * step, step)),
                'lead interval of targets', 'slice_accepted', ValueError)
  obs.ev('missing_rejected', 2)


def persistence(rng, obs):
  def request(rng, s):
    t = s.coords['valid_time']
    i = _some(rng, len(t))
    lead = gen.lead_times(rng, int(rng.integers(1, 5)))
    if rng.random() < .2:
      lead = lead[rng.permutation(len(lead))]
    return ((_unit(rng, t[i], 'datetime'), _unit(rng, lead, 'timedelta')),
            {'valid_time': i, '_lead': len(lead)},
            {'init_time': t[i], 'lead_time': lead}, 'exact')

  def expected(s, v, idx):
    dims, a = s.pick(v, {'valid_time': idx['valid_time']})
    dims = ['init_time' if d == 'valid_time' else d for d in dims]
    a = np.broadcast_to(a[..., None], a.shape + (idx['_lead'],))
    return dims + ['lead_time'], a

  s, ldr = _history(rng, obs, 'persist', X.PersistenceFromXarray, lambda s: {},
                    request, expected)
  t = s.coords['valid_time']
  h = np.timedelta64(1, 'h')
  expect_raises(lambda: ldr.load_chunk(t[:1] + h, np.array([h])),
                'initialization not stored', 'missing_accepted', KeyError)
  expect_raises(lambda: ldr.load_chunk(t[:1]), 'persistence without lead times',
                'slice_accepted', ValueError)
  expect_raises(lambda: ldr.load_chunk(t[:1], slice(0 * h, h)),
                'lead interval of persistence', 'slice_accepted', ValueError)
  obs.ev('missing_rejected')


def _lookup_expected(s, v, index, tdims):
  """Values at (init, lead) given an index array per stored time dimension."""
  dims, a = s.pick(v, {})
  rest = [d for d in dims if d not in tdims]
  a = np.transpose(a, [dims.index(d) for d in list(tdims) + rest])
  return rest, a[tuple(index[d] for d in tdims)]


def climatology(rng, obs):
  def request(rng, s):
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    init = np.datetime64('2020-12-29T00', 'ns') + np.sort(rng.choice(
        40, n, replace=False)) * np.timedelta64(6, 'h')
    if rng.random() < .25:
      lead, valid = None, init
    else:
      lead = (np.sort(rng.choice(40, m, replace=False)) * np.timedelta64(
          6, 'h')).astype('timedelta64[ns]')
      valid = init[:, None] + lead[None, :]
    cal = [mo.pyday(x) for x in valid.ravel()]
    idx = {'dayofyear': np.array([c[0] - 1 for c in cal]).reshape(valid.shape),
           'hour': np.array([c[1] // 6 for c in cal]).reshape(valid.shape)}
    lab = {'init_time': init}
    if lead is not None:
      lab['lead_time'] = lead
    args = (init,) if lead is None else (init, lead)
    return args, idx, lab, 'exact' if lead is not None else 'nolead'

  def expected(s, v, idx):
    rest, a = _lookup_expected(s, v, idx, ('dayofyear', 'hour'))
    t = ['init_time', 'lead_time'][:idx['hour'].ndim]
    return t + rest, a

  _history(rng, obs, 'clim', X.ClimatologyFromXarray, lambda s: {}, request,
           expected)


def probabilistic(rng, obs):
  dim = str(rng.choice(['number', 'year']))

  def request(rng, s):
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    init = np.datetime64('2023-12-29T00', 'ns') + np.sort(rng.choice(
        300, n, replace=False)) * np.timedelta64(12, 'h')
    lead = (np.sort(rng.choice(40, m, replace=False)) * np.timedelta64(
        12, 'h')).astype('timedelta64[ns]')
    valid = init[:, None] + lead[None, :]
    where = {int(x): k for k, x in enumerate(
        s.coords['valid_time'].astype('int64'))}
    y0, y1 = s.years
    idx = np.empty(valid.shape + (y1 - y0 + 1,), int)
    for i in np.ndindex(valid.shape):
      doy, hr = mo.pyday(valid[i])
      for k in range(y1 - y0 + 1):
        t = datetime.datetime(y0 + k, 1, 1) + datetime.timedelta(
            days=doy - 1, hours=hr)
        idx[i][k] = where[int(np.datetime64(t, 'ns').astype('int64'))]
    return ((init, lead), {'valid_time': idx},
            {'init_time': init, 'lead_time': lead,
             dim: np.arange(y1 - y0 + 1)}, 'exact')

  def expected(s, v, idx):
    rest, a = _lookup_expected(s, v, idx, ('valid_time',))
    return ['init_time', 'lead_time', dim] + rest, a

  s, ldr = _history(
      rng, obs, 'prob', X.ProbabilisticClimatologyFromXarray,
      lambda s: dict(start_year=s.years[0], end_year=s.years[1],
                     ensemble_dim=dim), request, expected)
  h = np.timedelta64(3, 'h')
  t = s.coords['valid_time'][:1]
  expect_raises(lambda: ldr.load_chunk(t, np.array([h])), 'hour not stored',
                'missing_accepted', KeyError)
  for bad in (None, slice(0 * h, h)):
    expect_raises(lambda: ldr.load_chunk(t, bad), 'lead times needed',
                  'slice_accepted', ValueError)
  obs.ev('missing_rejected')


class _Fixed(base.DataLoader):

  def __init__(self, chunk, **kw):
    super().__init__(**kw)
    self._chunk = chunk

  def _load_chunk_from_source(self, init_times, lead_times=None):
    return self._chunk


def options(rng, obs):
  """Invalid constructor options; masks on chosen variables only."""
  t = np.array(['2020-01-01', '2020-01-02'], 'datetime64[ns]')
  ds = xr.Dataset({'a': (('time', 'latitude'), np.array([[1., np.nan],
                                                         [3., 4.]])),
                   'b': (('time',), np.array([np.nan, 2.]))},
                  coords={'time': t, 'latitude': [0., 1.]})
  cls = [X.PredictionsFromXarray, X.TargetsFromXarray, X.PersistenceFromXarray,
         X.ClimatologyFromXarray][int(rng.integers(4))]
  expect_raises(lambda: cls(path='/x.zarr', ds=ds), 'path and ds', 'both',
                ValueError)
  expect_raises(lambda: cls(), 'neither path nor ds', 'neither', ValueError)
  expect_raises(lambda: cls(ds=ds, rename_dimensions='era5').load_chunk(t),
                'unknown dimension standard', 'rename', ValueError)
  expect_raises(lambda: X.TargetsFromXarray(
      ds=ds, variables=['a', 'nope']).load_chunk(t), 'unknown variable',
                'variables', KeyError)
  subset = [None, ['a'], ['b'], ['a', 'b'], []][int(rng.integers(5))]
  data = {v: ds[v].copy() for v in ds}
  out = base.add_nan_mask_to_data(data, subset)
  check(set(out) == {'a', 'b'}, 'variables of masked data', 'mask')
  for v in ('a', 'b'):
    has = subset is None or v in subset
    check(('mask' in out[v].coords) == has, f'mask of {v}, subset {subset}',
          'mask')
    expect_close(out[v].values, ds[v].values, 'masked values', 'mask')
    if has:
      expect_close(out[v].mask.values, ~np.isnan(ds[v].values), 'mask', 'mask')
  # latitude/longitude are only converted when asked.
  d2 = ds.rename(latitude='lat').assign_coords(lon=('lat', [0., 1.]))
  got = X.TargetsFromXarray(
      ds=d2, automatically_convert_lat_lon_to_latitude_longitude=False
      ).load_chunk(t)
  check('lat' in got['a'].coords and 'latitude' not in got['a'].coords,
        'lat/lon converted although switched off', 'latlon')
  got = X.TargetsFromXarray(ds=d2).load_chunk(t)
  check('latitude' in got['a'].coords and 'longitude' in got['a'].coords,
        'lat/lon not converted', 'latlon')
  # A user's own loader: hooks in the documented order, times forwarded.
  seen = []
  src = {'a': xr.DataArray(np.array([1., np.nan]), dims='x')}

  class L(_Fixed):

    def _load_chunk_from_source(self, init_times, lead_times=None):
      seen.append((init_times, lead_times))
      return self._chunk

  def fn(c):
    return {'a': c['a'].fillna(5.0), 'b': c['a']}
  got = L(src, process_chunk_fn=fn, add_nan_mask=True,
          add_values_to_coords=True).load_chunk(t, None)
  expect_close(got['a'].values, [1., 5.], 'processed', 'hook_order')
  expect_close(got['a'].mask.values, [True, True], 'mask after processing',
               'hook_order')
  expect_close(got['b'].mask.values, [True, False], 'mask of derived',
               'hook_order')
  check(len(seen) == 1 and seen[0][0] is t and seen[0][1] is None,
        'times forwarded', 'forwarded')
  obs.ev('options')
  obs.mark('options', cls.__name__, subset)


SCENARIOS = {
    'predictions': (predictions, 100, 2500),
    'targets': (targets, 80, 2000),
    'persistence': (persistence, 50, 1000),
    'climatology': (climatology, 40, 600),
    'probabilistic': (probabilistic, 40, 600),
    'options': (options, 20, 100),
}
MIN = dict(chunks=500, values_checked=20000, missing_rejected=200,
           masked_points=100, opt_rename_variables=60, opt_preprocessing=40,
           opt_variables=60, opt_process_chunk=50, opt_nan_mask=50,
           opt_values=50, opt_lazy=20, opt_sel_scalar=10, opt_sel_list=10,
           opt_sel_slice=10, opt_sel_nearest=10, store_ds=50, store_dask=20,
           store_zarr=40, store_nc=15, pickled=20, req_exact=200, req_slice=30,
           req_all=30, req_nolead=30, options=15)
