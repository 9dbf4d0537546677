"""C18: latency wrappers serve the newest forecast available in time."""

import pickle

import numpy as np
import xarray as xr
from wbx import gen
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base
from weatherbenchX.data_loaders import latency_wrappers as L
from weatherbenchX.data_loaders import xarray_loaders as X

RULE = ('archives with regular/irregular/unsorted nominal runs, latencies of '
        'minutes to days (also exactly hitting issue times), queries between, '
        'at, one minute before and after issue times and before the first '
        'run, grid/station/persistence sources, single and several sources '
        'with ties and unavailable members, loader hooks; a recording source '
        'logs every run requested; oracle = scan over all runs; fingerprint = '
        '(source kind, runs, latencies, queries)')
ASSUMPTIONS = ['lead times are exact; intervals are not supported by design',
               'latencies are not negative']

H = np.timedelta64(1, 'h')
M = np.timedelta64(1, 'm')
NS = 'datetime64[ns]'
TD = 'timedelta64[ns]'
T0 = np.datetime64('2020-02-27T00', 'ns')


class Recorder:
  """Mixin: logs each request that reaches the wrapped source."""

  def _load_chunk_from_source(self, init_times, lead_times=None):
    self.requests.append((np.array(init_times), np.array(lead_times)))
    return super()._load_chunk_from_source(init_times, lead_times)


class Pred(Recorder, X.PredictionsFromXarray):
  pass


class Persist(Recorder, X.PersistenceFromXarray):
  pass


class _Sparse(base.DataLoader):
  """Stations reporting a random subset, times as coordinates of 'index'."""

  def __init__(self, data, seed, **kw):
    super().__init__(**kw)
    self._data, self._seed = data, seed

  def rows(self, init, lead):
    """(station, value) pairs of one forecast, the same on every call."""
    r = np.random.default_rng([self._seed, int(init.astype('int64') // 10**9),
                               int(lead.astype('int64') // 10**9)])
    n = int(r.integers(0, 4))
    return [(int(s), float(r.normal())) for s in r.permutation(5)[:n]]

  def _load_chunk_from_source(self, init_times, lead_times=None):
    out = []
    for i in np.asarray(init_times).astype(NS):
      for l in np.asarray(lead_times).astype(TD):
        check(i in self._data, f'run {i} requested but it does not exist',
              'unknown_run')
        out += [(i, l, s, v) for s, v in self.rows(i, l)]
    n = len(out)
    c = dict(init_time=('index', np.array([o[0] for o in out], NS)),
             lead_time=('index', np.array([o[1] for o in out], TD)),
             station=('index', np.array([o[2] for o in out], int)))
    return {'x': xr.DataArray(np.array([o[3] for o in out], float),
                              dims=['index'], coords=c, name='x'),
            'y': xr.DataArray(np.array([-o[3] for o in out], float),
                              dims=['index'], coords=c, name='y')}


class Sparse(Recorder, _Sparse):
  pass


def _runs(rng, n=None, step=None):
  n = n or int(rng.integers(1, 7))
  if rng.random() < .6:
    t = T0 + np.arange(n) * int(step or rng.choice([1, 6, 12, 24])) * H
    t = t + int(rng.choice([0, 6])) * H
  else:
    t = T0 + np.sort(rng.choice(72, n, replace=False)) * H
  return t.astype(NS)


def _latency(rng):
  m = int(rng.choice([0, 60, 300, 360, 720, 1440, int(
      rng.integers(0, 2000)), 30]))
  return [np.timedelta64(m, 'm'), np.timedelta64(m * 60, 's'),
          np.timedelta64(m, 'm').astype(TD)][int(rng.integers(3))]


def available(runs, latency, query):
  """The newest run whose issue time is not after the query, or None."""
  best = None
  lat = int(np.timedelta64(latency, 'ns').astype('int64'))
  q = int(np.datetime64(query, 'ns').astype('int64'))
  for r in runs:
    k = int(np.datetime64(r, 'ns').astype('int64'))
    if k + lat <= q and (best is None or k > best):
      best = k
  return None if best is None else np.datetime64(best, 'ns')


def _queries(rng, runs, latencies, n):
  """Query times around issue times, all served by some run (if possible)."""
  out = []
  issue = [r + np.timedelta64(l, 'ns') for r, l in zip(runs, latencies)]
  for _ in range(n):
    k = int(rng.integers(len(issue)))
    off = int(rng.choice([0, 0, -1, 1, 60, 30, 600, int(
        rng.integers(0, 1500))]))
    q = issue[k] + off * M
    if any(available([r], l, q) is not None for r, l in zip(runs, latencies)):
      out.append(q.astype(NS))
  return np.array(out or [max(issue)]).astype(NS)


def _leads(rng):
  k = int(rng.integers(1, 4))
  return (np.sort(rng.choice(9, k, replace=False)) * int(
      rng.choice([1, 3, 6])) * H).astype(TD)


def _grid_store(rng, runs, need, lat):
  """Forecasts of every run at the lead times the queries need, and more."""
  leads = np.unique(np.concatenate([np.array(sorted(need)).astype(TD),
                                    (np.arange(0, 30, 6) * H).astype(TD)]))
  dims = gen.shuffled(rng, ['init_time', 'lead_time', 'latitude'])
  cc = {'init_time': runs, 'lead_time': leads, 'latitude': lat}
  shape = [len(cc[d]) for d in dims]
  return xr.Dataset({v: (dims, gen.holes(rng, rng.normal(size=shape), .05))
                     for v in ('x', 'y')}, coords=cc)


def _hooks(rng, lat):
  kw, kind = {}, []
  if rng.random() < .3:
    kw['process_chunk_fn'] = lambda c: {v: c[v] * 2 + 1 for v in c}
    kind.append('process')
  if rng.random() < .3:
    kw['add_nan_mask'] = True
    kind.append('mask')
  if rng.random() < .3:
    kw['add_values_to_coords'] = True
    kind.append('values')
  if rng.random() < .2 and lat is not None:
    kw['interpolation'] = interpolations.InterpolateToFixedCoords(
        'nearest', {'latitude': lat[::2]})
    kind.append('interp')
  return kw, kind


def _check_grid(chunk, want, queries, leads, lat, kind, what, obs):
  """want: {var: array over (query, lead, lat)} before hooks."""
  sel = np.arange(len(lat))[::2] if 'interp' in kind else np.arange(len(lat))
  for v, a in want.items():
    a = a[:, :, sel]
    if 'process' in kind:
      a = a * 2 + 1
    got = chunk[v]
    check(set(got.dims) == {'init_time', 'lead_time', 'latitude'},
          f'{what}: dims {got.dims}', 'dims')
    check(np.array_equal(got.init_time.values, queries),
          f'{what}: initializations {got.init_time.values} are not the '
          f'queried {queries}', 'labels')
    check(np.array_equal(got.lead_time.values, leads),
          f'{what}: lead times {got.lead_time.values} are not {leads}',
          'labels')
    got = got.transpose('init_time', 'lead_time', 'latitude')
    expect_close(got.values, a, f'{what}: {v}', 'values', rtol=0, atol=0)
    if 'mask' in kind:
      check('mask' in got.coords, f'{what}: no mask', 'mask')
      expect_close(got.mask.broadcast_like(got).transpose(*got.dims).values,
                   ~np.isnan(a), f'{what}: mask', 'mask')
    check(('values_as_coord' in got.coords) == ('values' in kind),
          f'{what}: values as coordinate', 'values_as_coord')
    if 'values' in kind:
      expect_close(got.values_as_coord.transpose(*got.dims).values, a,
                   f'{what}: values as coordinate', 'values_as_coord')
    obs.ev('values', a.size)


def single(rng, obs):
  src = str(rng.choice(['pred', 'pred', 'xarray', 'xarray', 'persist']))
  runs = _runs(rng)
  lat = gen.latitudes(rng, int(rng.integers(2, 5)))
  latency = _latency(rng)
  queries = _queries(rng, runs, [latency] * len(runs), int(rng.integers(1, 5)))
  if rng.random() < .5:
    queries = np.sort(queries)
  leads = _leads(rng)
  best = [available(runs, latency, q) for q in queries]
  need = {int((q + l - b).astype(TD).astype('int64'))
          for q, b in zip(queries, best) for l in leads}
  if rng.random() < .3:
    runs_arg = runs[rng.permutation(len(runs))]
  else:
    runs_arg = runs
  hooks, kind = _hooks(rng, lat)
  if src == 'persist':
    dims = gen.shuffled(rng, ['time', 'latitude'])
    cc = {'time': runs_arg, 'latitude': lat}
    ds = xr.Dataset({v: (dims, rng.normal(size=[len(cc[d]) for d in dims]))
                     for v in ('x', 'y')}, coords=cc)
    inner = Persist(ds=ds, **hooks)
    want = {v: np.stack([np.broadcast_to(
        ds[v].sel(time=b).values, (len(leads), len(lat))) for b in best])
            for v in ds}
  else:
    ds = _grid_store(rng, runs_arg, need, lat)
    inner = Pred(ds=ds, rename_dimensions=None, **hooks)
    want = {}
    for v in ds:
      a = ds[v].transpose('init_time', 'lead_time', 'latitude').values
      ii = {int(x): k for k, x in enumerate(
          ds.init_time.values.astype(NS).astype('int64'))}
      ll = {int(x): k for k, x in enumerate(
          ds.lead_time.values.astype(TD).astype('int64'))}
      want[v] = np.stack([[a[ii[int(b.astype('int64'))],
                             ll[int((q + l - b).astype(TD).astype('int64'))]]
                           for l in leads] for q, b in zip(queries, best)])
  inner.requests = []
  if src == 'pred':
    w = L.ConstantLatencyWrapper(inner, latency, runs_arg)
  elif src == 'xarray':
    w = L.XarrayConstantLatencyWrapper(inner, latency)
  else:
    w = L.XarrayConstantLatencyWrapper(inner, latency,
                                       init_time_dim='valid_time')
  if rng.random() < .2 and 'process' not in kind:
    w = pickle.loads(pickle.dumps(w))
    inner = w.data_loader
  what = (f'{src} latency={latency} runs={runs_arg} queries={queries} '
          f'leads={leads} hooks={kind}')
  for q, b in zip(queries, best):
    got = w.get_available_init_time(q)
    check(np.datetime64(got, 'ns') == b, f'{what}: available at {q} is {got}, '
          f'expected {b}', 'available')
  n = int(rng.integers(1, 3))
  for _ in range(n):
    chunk = w.load_chunk(queries, leads)
  # Only the newest run issued by the time of some query reaches the source.
  for it, _ in inner.requests:
    for r in it:
      check(np.datetime64(r, 'ns') in best, f'{what}: run {r} requested, '
            f'available are {best}', 'run_used')
      obs.ev('requests')
  for q, b in zip(queries, best):
    obs.ev('shifted', int(q != b))
    obs.ev('older_than_newest', int(b < max(r for r in runs if r <= q)))
  _check_grid(chunk, want, queries, leads, lat, kind, what, obs)
  issue = runs + np.timedelta64(latency, 'ns')
  early = min(issue) - M
  expect_raises(lambda: w.load_chunk(np.array([early]), leads),
                f'{what}: query before the first issue time', 'early_accepted',
                ValueError)
  expect_raises(lambda: w.load_chunk(np.array([queries[0], early]), leads),
                f'{what}: one query before the first issue time',
                'early_accepted', ValueError)
  expect_raises(lambda: w.load_chunk(queries, None), 'no lead times',
                'nolead_accepted', ValueError)
  if src == 'pred':
    # A nominal run whose data do not exist is an error, not a substitute.
    ghost = max(issue) + H - np.timedelta64(latency, 'ns')
    w2 = L.ConstantLatencyWrapper(inner, latency, np.append(runs_arg, ghost))
    expect_raises(lambda: w2.load_chunk(np.array([max(issue) + 2 * H]), leads),
                  'data of the newest run missing', 'substitute', KeyError)
    obs.ev('ghost_runs')
  obs.ev('exact_issue', sum(int(np.any(issue == q)) for q in queries))
  obs.ev('refused', 3)
  obs.ev(f'src_{src}')
  for k in kind:
    obs.ev(f'hook_{k}')
  obs.mark('single', src, runs.tolist(), str(latency), queries.tolist(), kind)


def sparse(rng, obs):
  """Station data: times are coordinates, concatenated along the index."""
  runs = _runs(rng)
  latency = _latency(rng)
  queries = np.unique(_queries(rng, runs, [latency] * len(runs),
                               int(rng.integers(1, 4))))
  leads = _leads(rng)
  inner = Sparse(set(runs), int(rng.integers(1000)))
  inner.requests = []
  w = L.ConstantLatencyWrapper(inner, latency, runs, concat_dim='index')
  if rng.random() < .3:
    w = L.MultipleConstantLatencyWrapper([w], concat_dim='index')
    obs.ev('sparse_multiple')
  chunk = w.load_chunk(queries, leads)
  want = []
  for q in queries:
    b = available(runs, latency, q)
    for l in leads:
      for s, v in inner.rows(b, (q + l - b).astype(TD)):
        want.append((int(q.astype('int64')), int(l.astype('int64')), s, v))
  for name, sign in (('x', 1), ('y', -1)):
    da = chunk[name]
    got = [(int(i), int(l), int(s), sign * float(v)) for i, l, s, v in zip(
        da.init_time.values.astype(NS).astype('int64'),
        da.lead_time.values.astype(TD).astype('int64'), da.station.values,
        da.values)]
    check(sorted(got) == sorted(want), f'rows {sorted(got)[:4]} but expected '
          f'{sorted(want)[:4]} ({len(got)} of {len(want)})', 'sparse_rows')
  obs.ev('sparse_rows', len(want))
  obs.mark('sparse', runs.tolist(), str(latency), queries.tolist())


def multiple(rng, obs):
  n = int(rng.integers(2, 5))
  lat = gen.latitudes(rng, int(rng.integers(2, 5)))
  sources = []
  for _ in range(n):
    r = _runs(rng, step=rng.choice([6, 12, 24]))
    if sources and rng.random() < .5:
      r = sources[int(rng.integers(len(sources)))][0]       # the same runs
    if rng.random() < .2:
      r = r + np.timedelta64(5, 'D')                        # starts late
    sources.append((r, _latency(rng)))
  if rng.random() < .5:
    # Latencies must differ to break ties in the documented way.
    sources = [(r, np.timedelta64(60 * k + int(l / M), 'm'))
               for k, (r, l) in enumerate(sources)]
  allr = [(r, l) for rs, l in sources for r in rs]
  queries = np.unique(_queries(rng, [r for r, _ in allr],
                               [l for _, l in allr], int(rng.integers(1, 6))))
  if rng.random() < .3:
    queries = queries[rng.permutation(len(queries))]
  leads = _leads(rng)
  picks = []
  for q in queries:
    c = [(available(r, l, q), np.timedelta64(l, 'ns'), k)
         for k, (r, l) in enumerate(sources)]
    c = [x for x in c if x[0] is not None]
    newest = max(x[0] for x in c)
    c = [x for x in c if x[0] == newest]
    lmax = max(x[1] for x in c)
    obs.ev('ties', len(c) > 1)
    obs.ev('unavailable_sources', n - sum(
        available(r, l, q) is not None for r, l in sources))
    picks.append((newest, [x[2] for x in c if x[1] == lmax]))
  wrappers, stores = [], []
  hooks, kind = _hooks(rng, lat)
  # The same store layout for all sources: they are concatenated.
  for k, (r, l) in enumerate(sources):
    need = {int((q + x - b).astype(TD).astype('int64'))
            for q, (b, _) in zip(queries, picks) for x in leads}
    ds = _grid_store(rng, r, need, lat)
    stores.append(ds)
    inner = Pred(ds=ds, rename_dimensions=None, **hooks)
    inner.requests = []
    wrappers.append(
        L.XarrayConstantLatencyWrapper(inner, l) if rng.random() < .5
        else L.ConstantLatencyWrapper(inner, l, r))
  w = L.MultipleConstantLatencyWrapper(wrappers)
  what = (f'{n} sources {[(str(l), r.tolist()) for r, l in sources]} queries='
          f'{queries} leads={leads} hooks={kind}')
  chunk = w.load_chunk(queries, leads)
  used = {k: [] for k in range(n)}
  for k, x in enumerate(wrappers):
    for it, lt in x.data_loader.requests:
      used[k].append(np.datetime64(it[0], 'ns'))
  for k in range(n):
    for b in used[k]:
      check(any(b == p and k in ks for p, ks in picks),
            f'{what}: source {k} run {b} used, expected {picks}', 'source')
      obs.ev('requests')
  # Equal latency and run in two sources: any of them may be used.
  alts = [[]]
  for _, ks in picks:
    alts = [a + [k] for a in alts for k in ks][:64]
  def values(alt):
    out = {}
    for v in ('x', 'y'):
      out[v] = np.stack([np.stack([stores[k][v].sel(
          init_time=b, lead_time=(q + l - b).astype(TD)).values
                                   for l in leads])
                         for k, (b, _), q in zip(alt, picks, queries)])
    return out
  if len(alts) == 1:
    _check_grid(chunk, values(alts[0]), queries, leads, lat, kind, what, obs)
  else:
    obs.ev('ambiguous')
  issue = [r + np.timedelta64(l, 'ns') for r, l in allr]
  early = np.array([min(issue) - M])
  expect_raises(lambda: w.load_chunk(early, leads), f'{what}: no source '
                'available', 'early_accepted', ValueError)
  obs.ev('refused')
  obs.mark('multiple', n, [str(l) for _, l in sources], queries.tolist(), kind)


SCENARIOS = {
    'single': (single, 150, 4000),
    'sparse': (sparse, 60, 1500),
    'multiple': (multiple, 100, 2500),
}
MIN = dict(requests=200, values=4000, refused=300, shifted=200, exact_issue=50,
           older_than_newest=30, ghost_runs=20, sparse_rows=150,
           sparse_multiple=10, ties=20, unavailable_sources=20, src_pred=20,
           src_xarray=20, src_persist=10, hook_process=20, hook_mask=20,
           hook_values=20, hook_interp=10)
