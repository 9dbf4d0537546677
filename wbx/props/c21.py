"""C21: the unaggregated pipeline writes every statistic exactly once."""

import os
import shutil

import numpy as np
import xarray as xr
import zarr
from wbx import gen
from wbx import pipe
from wbx.core import check, expect_close, expect_raises
from wbx.props.c03 import _pairs
from weatherbenchX import beam_pipeline
from weatherbenchX import time_chunks
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import deterministic as D
from weatherbenchX.metrics import probabilistic as P
from weatherbenchX.metrics import wrappers as W

RULE = ('random worlds (unsorted irregular times, interval lead times, several '
        'variables with different dimensions, missing values, ensembles, both '
        'precisions), chunkings of the times and of the store, metrics, worker '
        'threads with random delays; the written store is compared cell by '
        'cell and label by label with per-pair evaluations and with a scalar '
        'oracle; the loaders record every request; fingerprint = (chunks, '
        'store chunks, dims, metrics, mode)')
ASSUMPTIONS = [
    'statistics have compatible coordinates (documented requirement)',
    'DirectRunner only; retries of failed bundles are not exercised',
    'store chunks are taken along the dimensions of the statistics']
CASE_TIMEOUT = 240


def _world(rng):
  ni, nl = int(rng.integers(1, 8)), int(rng.integers(1, 6))
  inits, leads = pipe.times(rng, ni, nl)
  if rng.random() < .4:
    inits = np.array(gen.shuffled(rng, list(inits)))
  if rng.random() < .4:
    leads = np.array(gen.shuffled(rng, list(leads)))
  coords = {'init_time': inits, 'lead_time': leads}
  extra = gen.subset(rng, ['latitude', 'longitude', 'level'], .5)
  mk = {'latitude': lambda: gen.latitudes(rng, int(rng.integers(2, 4))),
        'longitude': lambda: gen.longitudes(rng, int(rng.integers(1, 4))),
        'level': lambda: np.array([500, 850])}
  for e in extra:
    coords[e] = mk[e]()
  dtype = np.float32 if rng.random() < .5 else np.float64
  ens = rng.random() < .25
  p, t = {}, {}
  for k, v in enumerate(('a', 'b', 'c')[:int(rng.integers(1, 4))]):
    c = dict(coords)
    if k == 1 and extra and rng.random() < .5:
      c.pop(extra[0])  # a variable lacking one dimension
    cp = dict(c, number=np.arange(3)) if ens else c
    p[v] = gen.array(rng, cp, gen.shuffled(rng, list(cp)), 'normal',
                     dtype=dtype, name=v)
    t[v] = gen.array(rng, c, gen.shuffled(rng, list(c)), 'normal',
                     dtype=dtype, name=v)
    if rng.random() < .3:
      t[v] = t[v].where(rng.random(t[v].shape) > .1)
    if rng.random() < .2:
      # Further coordinates of the kind the loaders attach.
      vt = xr.DataArray(inits[:, None] + leads[None, :],
                        dims=['init_time', 'lead_time'])
      p[v] = p[v].assign_coords(valid_time=vt)
      t[v] = t[v].assign_coords(valid_time=vt)
  return coords, p, t, ens


def _metrics(rng, ens, variables):
  if ens:
    m = {'crps': P.CRPSEnsemble(), 'crps_u': P.CRPSEnsemble(fair=False),
         'var': P.EnsembleRootMeanVariance(),
         'emse': W.WrappedMetric(D.MSE(), [W.EnsembleMean('predictions')])}
  else:
    m = {'mse': D.MSE(), 'rmse': D.RMSE(), 'bias': D.Bias(), 'mae': D.MAE(),
         'pavg': D.PredictionAverage(), 'tavg': D.TargetAverage(),
         'sub': W.SubselectVariables(D.MAE(), [variables[-1]])}
  names = gen.shuffled(rng, list(m))[:int(rng.integers(1, 4))]
  return {n: m[n] for n in names}


ORACLE = {  # statistic name -> scalar function
    'SquaredError': lambda p, t: (p - t) ** 2,
    'AbsoluteError': lambda p, t: abs(p - t),
    'Error': lambda p, t: p - t,
}


def _store_chunks(rng, sizes, ci, cl):
  if rng.random() < .4:
    return None
  out = {}
  for d, n in sizes.items():
    if rng.random() < .7:
      if d in ('init_time', 'lead_time'):
        out[d] = int(rng.integers(1, n + 2)) if rng.random() < .8 else -1
      else:
        out[d] = int(rng.integers(1, n + 2))
  return out


def store(rng, obs):
  """One random configuration: the store against per-pair evaluations."""
  coords, p, t, ens = _world(rng)
  inits, leads = coords['init_time'], coords['lead_time']
  ni, nl = len(inits), len(leads)
  ci = None if rng.random() < .1 else int(rng.integers(1, ni + 2))
  cl = None if rng.random() < .2 else int(rng.integers(1, nl + 2))
  interval = rng.random() < .12
  lead_arg = leads
  if interval:
    leads = np.sort(leads)
    p = {k: v.sortby('lead_time') for k, v in p.items()}
    t = {k: v.sortby('lead_time') for k, v in t.items()}
    cl, lead_arg = None, slice(leads[0], leads[-1])
  metrics = _metrics(rng, ens, list(p))
  stats = metrics_base.compute_unique_statistics_for_all_metrics(metrics, p, t)
  flat = {f'{s}.{v}': da for s, vs in stats.items() for v, da in vs.items()}
  sizes = {}
  for da in flat.values():
    sizes.update(da.sizes)
  zc = _store_chunks(rng, sizes, ci, cl)
  times = time_chunks.TimeChunks(inits, lead_arg, ci, cl)
  mode = 'threads' if rng.random() < .3 else 'in_memory'
  delay = .02 if mode == 'threads' else 0.0
  logp = os.path.join(obs.tmp, 'log')
  pl = pipe.RecordingLoader(p, logp, 'p', delay, seed=int(rng.integers(99)),
                            as_dict=bool(rng.random() < .7))
  tl = pipe.RecordingLoader(t, logp, 't', delay, seed=int(rng.integers(99)),
                            as_dict=bool(rng.random() < .7))
  out = os.path.join(obs.tmp, 'stats.zarr')
  setup = os.path.join(obs.tmp, 'setup')
  use_setup = rng.random() < .3
  desc = (f'chunks={ci}x{cl} of {ni}x{nl} interval={interval} store={zc} '
          f'metrics={list(metrics)} sizes={sizes} mode={mode}')
  obs.sample(desc=desc)
  kw = {} if zc is None else {'zarr_chunks': zc}
  if use_setup:
    kw['setup_fn'] = lambda: pipe.log(setup, 's')
  if rng.random() < .25:
    # An earlier run with other times and values left a store here.
    k = int(rng.integers(1, ni + 1))
    old = {v: x.isel(init_time=slice(0, k)) + 1000 for v, x in p.items()}
    oldt = {v: x.isel(init_time=slice(0, k)) for v, x in t.items()}
    pipe.run(lambda root: beam_pipeline.define_unaggregated_pipeline(
        root, time_chunks.TimeChunks(inits[:k], lead_arg, 1, None),
        pipe.RecordingLoader(old, logp + '0', 'p'),
        pipe.RecordingLoader(oldt, logp + '0', 't'), metrics, out))
    obs.ev('overwritten_stores')
  keep = {k: v.copy(deep=True) for k, v in p.items()}
  zc_before = None if zc is None else dict(zc)
  pipe.run(lambda root: beam_pipeline.define_unaggregated_pipeline(
      root, times, pl, tl, metrics, out, **kw), mode)
  check(zc == zc_before, f'{desc}: chunks modified', 'input')
  for k, v in keep.items():
    check(p[k].identical(v), f'{desc}: input modified', 'input')
  if use_setup:
    check(pipe.events(setup), f'{desc}: setup_fn not called', 'setup')

  with xr.open_zarr(out, decode_timedelta=True, consolidated=None) as ds:
    got = ds.load()
  check(set(got.data_vars) == set(flat),
        f'{desc}: variables {sorted(got.data_vars)}', 'variables')
  # Labels, in the order requested.
  check(list(got.init_time.values) == list(inits), f'{desc}: initialization '
        f'times {got.init_time.values}', 'labels')
  check(list(got.lead_time.values) == list(leads), f'{desc}: lead times '
        f'{got.lead_time.values}', 'labels')
  vt = got['valid_time']
  check(set(vt.dims) == {'init_time', 'lead_time'}, f'{desc}: valid times '
        f'along {vt.dims}', 'valid_time')
  check(bool((vt.transpose('init_time', 'lead_time').values
              == inits[:, None] + leads[None, :]).all()),
        f'{desc}: valid times {vt.values}', 'valid_time')
  for name, want in flat.items():
    g = got[name]
    check(set(g.dims) == set(want.dims), f'{desc}: {name} along {g.dims}',
          'dims')
    check(g.dtype == want.dtype, f'{desc}: {name} of type {g.dtype} instead '
          f'of {want.dtype}', 'dtype')
    for d in want.dims:
      if d not in ('init_time', 'lead_time') and d in want.coords:
        check(list(g[d].values) == list(want[d].values),
              f'{desc}: {name} labels of {d}', 'labels')
    w = want.sel(init_time=inits, lead_time=leads).transpose(*g.dims)
    expect_close(g.values, w.values, f'{desc}: {name}', 'values', rtol=1e-5,
                 atol=1e-6)
    obs.ev('cells', g.size)
    s, v = name.rsplit('.', 1)
    if s in ORACLE and not ens:
      dims = g.dims
      a, b = p[v], t[v]
      for _ in range(10):
        ix = {d: int(rng.integers(n)) for d, n in zip(dims, g.shape)}
        lab = {d: (got[d].values[i] if d in got.coords else i)
               for d, i in ix.items()}
        x = float(a.sel(lab)) if all(d in a.coords for d in dims) else None
        if x is None:
          continue
        expect_close(float(g.isel(ix)), ORACLE[s](x, float(b.sel(lab))),
                     f'{desc}: {name} at {lab}', 'scalar', rtol=1e-4,
                     atol=1e-5)
        obs.ev('scalar_cells')
  # Evaluations of single pairs.
  for _ in range(3):
    i, l = int(rng.integers(ni)), int(rng.integers(nl))
    one = lambda x: {k: v.sel(init_time=[inits[i]], lead_time=[leads[l]])
                     for k, v in x.items()}
    st = metrics_base.compute_unique_statistics_for_all_metrics(
        metrics, one(p), one(t))
    for s, vs in st.items():
      for v, da in vs.items():
        g = got[f'{s}.{v}'].isel(init_time=i, lead_time=l)
        da = da.isel(init_time=0, lead_time=0).transpose(*g.dims)
        expect_close(g.values, da.values, f'{desc}: {s}.{v} at pair {i},{l}',
                     'pair', rtol=1e-5, atol=1e-6)
        obs.ev('pair_cells', g.size)
  # Chunks of the store.
  want_chunks = dict(sizes)
  want_chunks['init_time'] = min(ci or ni, ni)
  want_chunks['lead_time'] = min(cl or nl, nl)
  for d, n in (zc or {}).items():
    want_chunks[d] = sizes[d] if n == -1 else n
  z = zarr.open(out, mode='r')
  for name, want in flat.items():
    dims = got[name].dims
    ck = dict(zip(dims, z[name].chunks))
    for d in dims:
      check(min(ck[d], sizes[d]) == min(want_chunks[d], sizes[d]),
            f'{desc}: {name} stored in chunks {ck}', 'store_chunks')
    obs.ev('chunked_arrays')
  # Requests: every pair exactly once, and the first chunk for the template.
  evs = pipe.events(logp)
  for side in 'pt':
    cnt = _pairs(evs, side)
    if interval:
      want = {(int(i), pipe.lead_key(lead_arg)): 1
              for i in inits.astype('int64')}
    else:
      want = {(int(i), int(l)): 1 for i in inits.astype('int64')
              for l in leads.astype('int64')}
    check(set(cnt) == set(want), f'{desc}: pairs requested {dict(cnt)}',
          'requests')
    first = inits[:ci or ni].astype('int64').tolist()
    for (i, l), n in cnt.items():
      check(n == 1 or (n == 2 and i in first),
            f'{desc}: pair {(i, l)} requested {n} times', 'requests')
    obs.ev('pairs', len(cnt))
  obs.ev('stores')
  obs.ev('mode.' + mode)
  if (ci or ni) < ni or (cl or nl) < nl:
    obs.ev('multi_chunk')
  if zc:
    obs.ev('own_store_chunks')
  if len(p) > 1:
    obs.ev('several_variables')
  obs.mark(ci, cl, ni, nl, zc, sizes, sorted(metrics), mode, interval)
  shutil.rmtree(out)


def refused(rng, obs):
  """Masks are refused and a failing chunk fails the run."""
  coords, p, t, ens = _world(rng)
  ni, nl = len(coords['init_time']), len(coords['lead_time'])
  times = time_chunks.TimeChunks(
      coords['init_time'], coords['lead_time'], int(rng.integers(1, ni + 1)),
      int(rng.integers(1, nl + 1)))
  metrics = _metrics(rng, ens, list(p))
  logp = os.path.join(obs.tmp, 'log')
  out = os.path.join(obs.tmp, 's.zarr')
  m = {k: v.assign_coords(mask=(v.dims, np.ones(v.shape, bool)))
       for k, v in t.items()}
  run = lambda a, b, tc: pipe.run(
      lambda root: beam_pipeline.define_unaggregated_pipeline(
          root, tc, a, b, {'m': D.MSE()} if not ens else metrics, out))
  expect_raises(lambda: run(pipe.RecordingLoader(p, logp, 'p'),
                            pipe.RecordingLoader(m, logp, 't'), times),
                'masked statistics', 'mask', ValueError)
  check(not os.path.exists(out), 'store created for masked statistics', 'mask')
  obs.ev('masks_refused')
  at = (coords['init_time'][int(rng.integers(ni))],
        coords['lead_time'][int(rng.integers(nl))])
  bad = rng.random() < .5
  expect_raises(lambda: run(
      pipe.RecordingLoader(p, logp, 'p', fail_at=at if bad else None),
      pipe.RecordingLoader(t, logp, 't', fail_at=None if bad else at), times),
                f'failing chunk at {at}', 'fault.swallowed')
  obs.ev('faults')
  obs.mark('refused', ni, nl, bad)


SCENARIOS = {'store': (store, 110, 1800), 'refused': (refused, 12, 100)}
MIN = {'stores': (105, 1500), 'cells': (3000, 50000),
       'scalar_cells': (300, 5000), 'pair_cells': (500, 9000),
       'multi_chunk': (50, 800), 'own_store_chunks': (30, 500),
       'chunked_arrays': (105, 1500), 'pairs': (1200, 20000),
       'overwritten_stores': (15, 300), 'masks_refused': (11, 95), 'faults': (11, 95),
       'mode.threads': (12, 250), 'several_variables': (30, 500)}
