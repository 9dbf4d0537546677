"""C03: the distributed pipeline gives the in-memory result."""

import collections
import os

import numpy as np
import xarray as xr
from wbx import gen
from wbx import pipe
from wbx.core import check, expect_close, expect_raises
from wbx.props import c04
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import binning
from weatherbenchX import time_chunks
from weatherbenchX import weighting
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import categorical as C
from weatherbenchX.metrics import deterministic as D
from weatherbenchX.metrics import probabilistic as P
from weatherbenchX.metrics import wrappers as W

RULE = ('random worlds (irregular times, missing values, masks, variables on '
        'different levels), chunkings, metrics, bins (also bins whose labels '
        'differ between chunks), weights, kept or reduced time dimensions '
        'through the real Beam pipeline (single process and several worker '
        'threads with random delays); the written metric and state files are '
        'compared label by label with one in-memory aggregation of all data; '
        'an event log records each request of the loaders; fingerprint = '
        '(chunks, reduced dims, bins, metrics, mode, outputs)')
ASSUMPTIONS = ['initialization times and lead times are sorted (the result is '
               'concatenated along them by coordinate)',
               'DirectRunner only; retries of failed bundles are not '
               'exercised']
CASE_TIMEOUT = 240


def _metrics(rng, ens, point):
  m = {'rmse': D.RMSE(), 'bias': D.Bias(), 'mae': D.MAE()}
  if ens:
    m = {'crps': P.CRPSEnsemble(), 'crps_u': P.CRPSEnsemble(fair=False),
         'spread': P.EnsembleRootMeanVariance(),
         'emrmse': W.WrappedMetric(D.RMSE(), [W.EnsembleMean('predictions')])}
  else:
    m['csi'] = W.WrappedMetric(C.Accuracy(), [W.ContinuousToBinary(
        'both', [0.0, 0.5], 'threshold')])
    m['csi2'] = W.WrappedMetric(C.Accuracy(), [W.ContinuousToBinary(
        'both', [0.5, 1.5], 'threshold')])
    m['pavg'] = D.PredictionAverage()
    m['wind'] = D.WindVectorRMSE(['a'], ['b'], ['w'])
  names = gen.shuffled(rng, list(m))[:int(rng.integers(1, 4))]
  return {n: m[n] for n in names}


def _world(rng, tmp, interval=False):
  ni, nl = int(rng.integers(1, 7)), int(rng.integers(1, 5))
  inits, leads = pipe.times(rng, ni, nl)
  coords = {'init_time': inits, 'lead_time': leads,
            'latitude': gen.latitudes(rng, int(rng.integers(2, 4))),
            'longitude': gen.longitudes(rng, int(rng.integers(1, 4)))}
  ens = rng.random() < .25
  masked = rng.random() < .35
  nan = rng.random() < .3
  p, t = {}, {}
  for v in ('a', 'b'):
    c = dict(coords)
    if ens:
      cp = dict(c, number=np.arange(3))
    else:
      cp = c
    p[v] = gen.array(rng, cp, gen.shuffled(rng, list(cp)), name=v)
    t[v] = gen.array(rng, c, gen.shuffled(rng, list(c)), name=v)
    if nan:
      t[v] = t[v].where(rng.random(t[v].shape) > .03)
    if masked:
      m = rng.random(t[v].shape) < .75
      t[v] = t[v].where(m)
      t[v] = t[v].assign_coords(mask=(t[v].dims, m))
    t[v].attrs['units'] = 'K'
  return coords, p, t, ens, masked


def _bins(rng, coords, reduce_dims):
  out, tag = [], []
  if rng.random() < .3 and 'latitude' in reduce_dims:
    m = rng.random((2, len(coords['latitude']))) < .6
    out.append(c04.RandomBins('band', xr.DataArray(
        m, dims=['band', 'latitude'],
        coords={'band': ['x', 'y'], 'latitude': coords['latitude']})))
    tag.append('band')
  r = rng.random()
  if r < .2 and 'init_time' in reduce_dims:
    out.append(binning.ByTimeUnit(str(rng.choice(['hour', 'month', 'day'])),
                                  'init_time',
                                  add_global_bin=bool(rng.random() < .5)))
    tag.append('unit')
  elif r < .35 and 'lead_time' in reduce_dims:
    out.append(binning.ByTimeUnit('hour', 'init_time', add_global_bin=True)
               if 'init_time' in reduce_dims else
               binning.ByTimeUnitFromSeconds('hour', 'lead_time')
               if hasattr(binning, 'ByTimeUnitFromSeconds') else
               binning.ByExactCoord('lead_time'))
    tag.append('unit2')
  elif r < .5 and 'init_time' in reduce_dims:
    out.append(binning.ByTimeUnitSets({'00': [0, 12], '06': [6, 18]}, 'hour',
                                      'init_time'))
    tag.append('sets')
  return out, tag


def _cmp_labels(got, want, what, key, rtol):
  """want's values at its labels; anything else in got must be missing."""
  got = got.drop_vars([c for c in got.coords if c not in got.dims])
  check(set(got.dims) == set(want.dims),
        f'{what}: dims {got.dims} instead of {want.dims}', key)
  g = got
  for d in want.dims:
    if d not in want.coords:
      continue
    gl, wl = list(g[d].values), list(want[d].values)
    check(len(set(gl)) == len(gl), f'{what}: repeated labels {gl}', key)
    check(set(wl) <= set(gl), f'{what}: labels {gl} instead of {wl} on {d}',
          key)
    ix = [gl.index(x) for x in wl]
    rest = [i for i in range(len(gl)) if i not in ix]
    if rest:
      check(d not in ('init_time', 'lead_time') and
            bool(np.isnan(g.isel({d: rest}).values.astype(float)).all()),
            f'{what}: values at labels never asked for on {d}', key)
    g = g.isel({d: ix})
  g = g.transpose(*want.dims)
  w = want.values.astype(float)
  scale = np.nanmax(np.abs(w), initial=0.0) if w.size else 0.0
  expect_close(g.values.astype(float), w, what, key, rtol=rtol,
               atol=rtol * max(1.0, float(scale)) if np.isfinite(scale) else
               rtol)


def _pairs(evs, side):
  """Multiset of (init, lead) requested by one side."""
  c = collections.Counter()
  for s, i, l, *_ in evs:
    if s == side:
      for a in i.split(','):
        for b in l.split(','):
          c[int(a), b if b.startswith('slice') else int(b)] += 1
  return c


def _read(path):
  with xr.open_dataset(path, decode_timedelta=True) as ds:
    return ds.load()


def equivalence(rng, obs):
  """One random configuration: files == in-memory evaluation."""
  coords, p, t, ens, masked = _world(rng, obs.tmp)
  ni, nl = len(coords['init_time']), len(coords['lead_time'])
  ci = None if rng.random() < .1 else int(rng.integers(1, ni + 2))
  cl = None if rng.random() < .2 else int(rng.integers(1, nl + 2))
  interval = rng.random() < .12
  if interval:
    cl = None
    lead_arg = slice(coords['lead_time'][0], coords['lead_time'][-1])
  else:
    lead_arg = coords['lead_time']
  metrics = _metrics(rng, ens, False)
  reduce_dims = gen.subset(rng, ['init_time', 'lead_time'], .6) + gen.subset(
      rng, ['latitude', 'longitude'], .8)
  bins, tags = _bins(rng, coords, reduce_dims)
  weigh = [weighting.GridAreaWeighting()] if rng.random() < .4 else []
  skipna = bool(rng.random() < .25)
  kw = dict(reduce_dims=gen.shuffled(rng, reduce_dims), bin_by=bins or None,
            weigh_by=weigh or None, masked=bool(masked), skipna=skipna)
  times = time_chunks.TimeChunks(coords['init_time'], lead_arg, ci, cl)
  logp = os.path.join(obs.tmp, 'log')
  mode = 'threads' if rng.random() < .25 else 'in_memory'
  delay = .01 if mode == 'threads' else 0.0
  pl = pipe.RecordingLoader(p, logp, 'p', delay, seed=int(rng.integers(99)),
                            as_dict=bool(rng.random() < .7))
  tl = pipe.RecordingLoader(t, logp, 't', delay, seed=int(rng.integers(99)),
                            as_dict=masked or bool(rng.random() < .7))
  out = os.path.join(obs.tmp, 'out', 'metrics.nc')
  state_out = os.path.join(obs.tmp, 'out', 'state.nc')
  which = str(rng.choice(['both', 'both', 'metrics', 'state']))
  same_thr = not {'csi', 'csi2'} <= set(metrics)
  use_setup = rng.random() < .3
  setup_log = os.path.join(obs.tmp, 'setup')
  desc = (f'chunks={ci}x{cl} of {ni}x{nl} interval={interval} '
          f'metrics={list(metrics)} reduce={reduce_dims} bins={tags} '
          f'masked={masked} skipna={skipna} mode={mode} out={which}')
  obs.sample(desc=desc)
  before = {k: v.copy(deep=True) for k, v in list(p.items())}
  pipe.run(lambda root: beam_pipeline.define_pipeline(
      root, times, pl, tl, metrics, aggregation.Aggregator(**kw),
      out_path=out if which != 'state' else None,
      aggregation_state_out_path=state_out if which != 'metrics' else None,
      setup_fn=(lambda: pipe.log(setup_log, 's')) if use_setup else None),
      mode)
  for k in before:
    check(p[k].identical(before[k]), f'{desc}: input modified', 'input')
  if use_setup:
    check(len(pipe.events(setup_log)) >= 1, f'{desc}: setup_fn not called',
          'setup')
    obs.ev('setup')
  # Exactly once: the recorded requests cover every pair once per side.
  evs = pipe.events(logp)
  for side in 'pt':
    got = _pairs(evs, side)
    if interval:
      want = {(int(i), pipe.lead_key(lead_arg)): 1
              for i in coords['init_time'].astype('int64')}
    else:
      want = {(int(i), int(l)): 1
              for i in coords['init_time'].astype('int64')
              for l in coords['lead_time'].astype('int64')}
    check(dict(got) == want, f'{desc}: {side} requests {dict(got)}',
          'exactly_once')
    obs.ev('pairs_loaded', sum(got.values()))
  obs.ev('chunk_requests', len(evs))
  # Reference: one in-memory evaluation by the same public classes.
  ref_metrics = metrics
  stats = metrics_base.compute_unique_statistics_for_all_metrics(
      ref_metrics, p, t)
  ref = aggregation.Aggregator(**kw).aggregate_statistics(stats)
  rtol = 1e-6 if any(x in metrics for x in ('csi', 'csi2')) else 1e-10
  check(os.path.exists(out) == (which != 'state') and
        os.path.exists(state_out) == (which != 'metrics'),
        f'{desc}: files written {os.listdir(os.path.dirname(out))}', 'files')
  check(set(os.listdir(os.path.dirname(out))) <= {'metrics.nc', 'state.nc'},
        f'{desc}: stray files {os.listdir(os.path.dirname(out))}', 'stray')
  want = ref.metric_values(ref_metrics)
  if which != 'state':
    got = _read(out)
    check(set(got.data_vars) == set(want.data_vars),
          f'{desc}: variables {set(got.data_vars)} != {set(want.data_vars)}',
          'variables')
    for k in want.data_vars:
      # Metric values relative to single evaluation (roots of cancellation).
      single = want[k]
      for d in single.dims:
        if d == 'threshold':
          m, v = k.split('.', 1)
          single = aggregation.Aggregator(**kw).aggregate_statistics(
              metrics_base.compute_unique_statistics_for_all_metrics(
                  {m: metrics[m]}, p, t)).metric_values({m: metrics[m]})[k]
      _cmp_labels(got[k], single, f'{desc}: {k}', 'metrics',
                  max(rtol, 1e-7))
      obs.ev('metric_cells', got[k].size)
      check(not got[k].attrs, f'{desc}: attributes {got[k].attrs} leaked',
            'attrs')
  if which != 'metrics':
    st = aggregation.AggregationState.from_dataset(_read(state_out))
    check(set(st.sum_weights) == set(ref.sum_weights) and
          set(st.sum_weighted_statistics) == set(
              ref.sum_weighted_statistics), f'{desc}: statistics '
          f'{set(st.sum_weights)}', 'state.stats')
    for part in ('sum_weights', 'sum_weighted_statistics'):
      for s, vs in getattr(ref, part).items():
        g = getattr(st, part)[s]
        check(set(g) == set(vs), f'{desc}: variables of {s}', 'state.vars')
        for v, da in vs.items():
          _cmp_labels(g[v], da, f'{desc}: {part} {s} {v}', 'state', rtol)
          obs.ev('state_cells', da.size)
    if same_thr:
      again = st.metric_values(ref_metrics)
      for k in want.data_vars:
        _cmp_labels(again[k], want[k], f'{desc}: {k} from the state file',
                    'state.metrics', max(rtol, 1e-7))
      obs.ev('state_metrics')
  obs.ev('pipelines')
  obs.ev('mode.' + mode)
  if times and (ci or ni) < ni or (cl or nl) < nl:
    obs.ev('multi_chunk')
  obs.mark(ci, cl, ni, nl, sorted(reduce_dims), tags, sorted(metrics), mode,
           which, interval, masked, skipna)


class _SparseLoader(pipe.RecordingLoader):
  """Sparse observations of a chunk: a different number per chunk."""

  def _load_chunk_from_source(self, init_times, lead_times=None):
    pipe.log(self._path, self._side, ','.join(str(x) for x in np.asarray(
        init_times).astype('datetime64[ns]').astype('int64')), ','.join(
            str(x) for x in np.asarray(lead_times).astype(
                'timedelta64[ns]').astype('int64')), os.getpid())
    out = {}
    for k, v in self._data.items():
      keep = np.isin(v.init_time.values, init_times) & np.isin(
          v.lead_time.values, lead_times)
      out[k] = v.isel(index=np.nonzero(keep)[0])
    return out


def sparse(rng, obs):
  """Sparse chunks with different stations and numbers, binned by labels."""
  n = int(rng.integers(1, 50))
  ni, nl = int(rng.integers(1, 6)), int(rng.integers(1, 4))
  inits, leads = pipe.times(rng, ni, nl)
  ii, ll = rng.integers(0, ni, n), rng.integers(0, nl, n)
  stn = rng.choice(['KA', 'KB', 'KC', 'KD', 'KE'], n)
  mk = lambda: xr.DataArray(
      rng.normal(size=n), dims=['index'],
      coords={'init_time': ('index', inits[ii]),
              'lead_time': ('index', leads[ll]),
              'station': ('index', stn), 'index': np.arange(n)}, name='a')
  p, t = {'a': mk()}, {'a': mk()}
  by = [binning.ByExactCoord('lead_time')]
  if rng.random() < .7:
    by.append(binning.ByExactCoord('station',
                                   add_global_bin=bool(rng.random() < .4)))
  ci, cl = int(rng.integers(1, ni + 1)), int(rng.integers(1, nl + 1))
  times = time_chunks.TimeChunks(inits, leads, ci, cl)
  logp = os.path.join(obs.tmp, 'log')
  agg = lambda: aggregation.Aggregator(reduce_dims=['index'], bin_by=by)
  metrics = {'mae': D.MAE(), 'rmse': D.RMSE()}
  out = os.path.join(obs.tmp, 'm.nc')
  pipe.run(lambda root: beam_pipeline.define_pipeline(
      root, times, _SparseLoader(p, logp, 'p'), _SparseLoader(t, logp, 't'),
      metrics, agg(), out_path=out))
  got = _read(out)
  want = agg().aggregate_statistics(
      metrics_base.compute_unique_statistics_for_all_metrics(metrics, p, t)
      ).metric_values(metrics)
  desc = f'sparse n={n} chunks={ci}x{cl} of {ni}x{nl} bins={len(by)}'
  # Own brute force for one of them.
  err = np.abs(p['a'].values - t['a'].values)
  for k in want.data_vars:
    _cmp_labels(got[k], want[k], f'{desc}: {k}', 'sparse', 1e-9)
  for l in set(ll.tolist()):
    g = got['mae.a'].sel(lead_time=leads[l])
    if len(by) == 1:
      expect_close(float(g), err[ll == l].mean(), f'{desc}: mae at lead {l}',
                   'sparse.brute')
      obs.ev('sparse_brute')
      continue
    for s in set(stn.tolist()):
      sel = (ll == l) & (stn == s)
      expect_close(float(g.sel(station=s)),
                   err[sel].mean() if sel.any() else np.nan,
                   f'{desc}: mae at lead {l} station {s}', 'sparse.brute')
      obs.ev('sparse_brute')
  for side in 'pt':
    check(all(c == 1 for c in _pairs(pipe.events(logp), side).values()) and
          len(_pairs(pipe.events(logp), side)) == ni * nl,
          f'{desc}: chunk loaded repeatedly or not at all', 'exactly_once')
  obs.ev('sparse_pipelines')
  obs.mark('sparse', n, ci, cl, ni, nl, len(by))


def failure(rng, obs):
  """A failing chunk fails the run; nothing is written over old results."""
  coords, p, t, ens, masked = _world(rng, obs.tmp)
  ni, nl = len(coords['init_time']), len(coords['lead_time'])
  times = time_chunks.TimeChunks(
      coords['init_time'], coords['lead_time'], int(rng.integers(1, ni + 1)),
      int(rng.integers(1, nl + 1)))
  at = (coords['init_time'][int(rng.integers(ni))],
        coords['lead_time'][int(rng.integers(nl))])
  logp = os.path.join(obs.tmp, 'log')
  bad = rng.random() < .5
  pl = pipe.RecordingLoader(p, logp, 'p', fail_at=at if bad else None)
  tl = pipe.RecordingLoader(t, logp, 't', fail_at=None if bad else at)
  agg = aggregation.Aggregator(reduce_dims=['init_time', 'latitude',
                                            'longitude'])
  out = os.path.join(obs.tmp, 'm.nc')
  st = os.path.join(obs.tmp, 's.nc')
  old = rng.random() < .5
  if old:
    for f in (out, st):
      with open(f, 'wb') as h:
        h.write(b'previous')
  metrics = {'mae': D.MAE()}
  expect_raises(lambda: pipe.run(lambda root: beam_pipeline.define_pipeline(
      root, times, pl, tl, metrics, agg, out_path=out,
      aggregation_state_out_path=st)), 'failing chunk', 'fault.swallowed')
  left = set(os.listdir(obs.tmp)) - {'log'}
  check(left == ({'m.nc', 's.nc'} if old else set()),
        f'files after a failed run: {left}', 'fault.files')
  if old:
    for f in (out, st):
      with open(f, 'rb') as h:
        check(h.read() == b'previous', 'old result overwritten by a failed '
              'run', 'fault.overwrite')
  obs.ev('faults')
  obs.mark('failure', ni, nl, bad, old)
  if rng.random() < .3:
    expect_raises(lambda: pipe.run(lambda root: beam_pipeline.define_pipeline(
        root, times, pl, tl, metrics, agg)), 'no output requested',
                  'no_output', ValueError)
    obs.ev('no_output')


SCENARIOS = {'equivalence': (equivalence, 80, 1200),
             'sparse': (sparse, 25, 300),
             'failure': (failure, 16, 150)}
MIN = {'pipelines': (75, 1000), 'multi_chunk': (30, 400),
       'metric_cells': (300, 4000), 'state_cells': (500, 6000),
       'pairs_loaded': (800, 9000), 'sparse_brute': (100, 1000),
       'faults': (14, 140), 'mode.threads': (5, 100)}
