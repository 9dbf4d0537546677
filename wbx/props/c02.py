"""C02: chunking, merge order and merge shape never change the result."""

import copy

import numpy as np
import xarray as xr
from wbx import catalog
from wbx import gen
from wbx.core import check, expect_close
from wbx.props import c04
from weatherbenchX import aggregation
from weatherbenchX import beam_utils
from weatherbenchX import binning
from weatherbenchX import time_chunks
from weatherbenchX import weighting
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import deterministic

RULE = ('worlds of dense or sparse data x metrics from the whole catalogue x '
        'reduce dims (times reduced or kept) x bins/weights/masks x init/lead '
        'chunk sizes x random merge trees, permutations, zero states and '
        'accumulator schedules; non-trivial = at least two chunks; fingerprint '
        '= (scenario, metrics, chunk sizes, reduce dims, merge shape)')
ASSUMPTIONS = [
    'floating point sums may differ by re-association: tolerance 1e-9 '
    '(float64 statistics) or 2e-5 (float32 statistics) of the sum of absolute '
    'terms',
    'missing values are not combined with time bins: a NaN in one bin may or '
    'may not poison the other bins (documented), which depends on the chunks']

# Statistics whose value at a time does not depend on other times; all of the
# catalogue qualifies.
NAMES = [e.name for e in catalog.ENTRIES]


def random_tree(rng, states, zero):
  """Merges states with a random mixture of +, sum and zero states."""
  states = list(states)
  states = [states[i] for i in rng.permutation(len(states))]
  ops = []
  while len(states) > 1:
    r = rng.random()
    if r < 0.15:
      i = int(rng.integers(len(states)))
      states[i] = (states[i] + zero()) if rng.random() < .5 else (
          zero() + states[i])
      ops.append('z')
    elif r < 0.6 or len(states) == 2:
      i, j = rng.choice(len(states), size=2, replace=False)
      a, b = states[int(i)], states[int(j)]
      states = [s for k, s in enumerate(states) if k not in (int(i), int(j))]
      states.append(a + b)
      ops.append('+')
    else:
      k = int(rng.integers(2, len(states) + 1))
      idx = [int(x) for x in rng.choice(len(states), size=k, replace=False)]
      group = [states[x] for x in idx]
      if rng.random() < 0.3:
        group.insert(int(rng.integers(len(group) + 1)), zero())
      states = [s for x, s in enumerate(states) if x not in idx]
      gen_or_list = iter(group) if rng.random() < 0.5 else group
      states.append(aggregation.AggregationState.sum(gen_or_list))
      ops.append(f's{k}')
  return states[0], ''.join(ops)


def combine_fn_tree(rng, arrays):
  """Drives the Beam combiner through a random accumulator schedule."""
  fn = beam_utils.CombiningSum()
  arrays = [arrays[i] for i in rng.permutation(len(arrays))]
  accs = [fn.create_accumulator() for _ in range(int(rng.integers(1, 4)))]
  for a in arrays:
    i = int(rng.integers(len(accs)))
    accs[i] = fn.add_input(accs[i], a)
    if rng.random() < 0.3:
      accs.append(fn.create_accumulator())
    if len(accs) > 2 and rng.random() < 0.4:
      i, j = sorted(int(x) for x in rng.choice(len(accs), 2, replace=False))
      m = fn.merge_accumulators([accs[i], accs[j]])
      accs = [x for k, x in enumerate(accs) if k not in (i, j)] + [m]
  if rng.random() < 0.5:
    accs = [fn.compact(a) for a in accs]
  return fn.extract_output(fn.merge_accumulators(iter(accs)))


def compare_states(got, want, what, key, rtol):
  for part in ('sum_weighted_statistics', 'sum_weights'):
    g, w = getattr(got, part), getattr(want, part)
    check(set(g) == set(w), f'{what}: statistics {set(g)} != {set(w)}', key)
    for s in w:
      check(set(g[s]) == set(w[s]), f'{what}: variables of {s}', key)
      for v in w[s]:
        compare_arrays(g[s][v], w[s][v], f'{what}: {part} {s}.{v}', key, rtol)


def compare_arrays(g, w, what, key, rtol):
  check(set(g.dims) == set(w.dims), f'{what}: dims {g.dims} != {w.dims}', key)
  for d in w.dims:
    if d in w.coords or d in g.coords:
      check(d in g.coords and d in w.coords and
            sorted(g[d].values.tolist()) == sorted(w[d].values.tolist()),
            lambda d=d: f'{what}: labels of {d}: {g[d].values} != '
            f'{w[d].values}', key)
  g = g.sel({d: w[d].values for d in w.dims if d in w.coords}) if len(
      [d for d in w.dims if d in w.coords]) else g
  g = g.transpose(*w.dims)
  scale = np.nanmax(np.abs(w.values), initial=0.0) if w.size else 0.0
  expect_close(g.values, w.values, what, key, rtol=rtol,
               atol=rtol * max(1.0, float(scale) if np.isfinite(scale) else 1))


def _snapshot(states):
  return [copy.deepcopy(s) for s in states]


def _tols(stats):
  f32 = any(a.dtype == np.float32 for m in stats.values() for a in m.values())
  return 3e-5 if f32 else 1e-9


def _mask_targets(rng, w):
  m = rng.random([w.coords[d].size for d in ('latitude', 'longitude')]) < 0.7
  if rng.random() < 0.5:
    mda = xr.DataArray(m, dims=['latitude', 'longitude'],
                       coords={d: w.coords[d] for d in ('latitude',
                                                        'longitude')})
  else:
    ni = w.coords['init_time'].size
    m = rng.random((ni,) + m.shape) < 0.7
    mda = xr.DataArray(m, dims=['init_time', 'latitude', 'longitude'],
                       coords={d: w.coords[d] for d in
                               ('init_time', 'latitude', 'longitude')})
  w.targets = {k: v.assign_coords(mask=mda) for k, v in w.targets.items()}


def dense(rng, obs):
  kind = str(rng.choice(['cont', 'cont', 'cont', 'ens', 'bin', 'prob', 'ens2']))
  w = catalog.world(rng, kind, sizes=dict(init_time=int(rng.integers(2, 7)),
                                          lead_time=int(rng.integers(1, 5))))
  entries = [e for e in catalog.ENTRIES if e.kind == kind]
  pick = [entries[i] for i in rng.choice(
      len(entries), size=min(len(entries), int(rng.integers(1, 4))),
      replace=False)]
  if rng.random() < 0.25 and kind == 'cont':
    _mask_targets(rng, w)
    masked = True
    pick = [e for e in pick if e.name not in ('seeps', 'rel_intensity')] or [
        catalog.BY_NAME['rmse']]
  else:
    masked = bool(rng.random() < 0.2)
  metrics = {e.name: e.make(w, rng) for e in pick}
  space = ['latitude', 'longitude']
  if any(e.name == 'rel_intensity' for e in pick):
    space = []
  reduce_dims = gen.subset(rng, ['init_time', 'lead_time'], 0.6) + gen.subset(
      rng, space, 0.8)
  weigh = [weighting.GridAreaWeighting()] if (
      rng.random() < 0.4) else []
  bins = []
  if space and rng.random() < 0.4:
    m = rng.random((2, w.coords['latitude'].size)) < 0.6
    bins.append(c04.RandomBins('band', xr.DataArray(
        m, dims=['band', 'latitude'],
        coords={'band': ['a', 'b'], 'latitude': w.coords['latitude']})))
  if 'init_time' in reduce_dims and rng.random() < 0.4:
    bins.append(binning.ByTimeUnit('hour', 'init_time',
                                   add_global_bin=bool(rng.random() < 0.5)))
  if rng.random() < 0.25 and not bins:
    for v in w.targets.values():
      v.values[rng.random(v.shape) < 0.02] = np.nan
  agg = aggregation.Aggregator(
      reduce_dims=gen.shuffled(rng, reduce_dims), bin_by=bins or None,
      weigh_by=weigh or None, masked=masked or 'seeps' in metrics,
      skipna=bool(rng.random() < 0.2))

  def run(pred, targ):
    return agg.aggregate_statistics(
        metrics_base.compute_unique_statistics_for_all_metrics(
            metrics, pred, targ))

  whole_stats = metrics_base.compute_unique_statistics_for_all_metrics(
      metrics, w.predictions, w.targets)
  rtol = _tols(whole_stats)
  whole = agg.aggregate_statistics(whole_stats)
  ni, nl = w.coords['init_time'].size, w.coords['lead_time'].size
  ci, cl = int(rng.integers(1, ni + 1)), int(rng.integers(1, nl + 1))
  tc = time_chunks.TimeChunks(w.coords['init_time'], w.coords['lead_time'],
                              ci, cl)
  states = []
  for it, lt in tc:
    sel = lambda d: {k: v.sel(init_time=it, lead_time=lt)
                     for k, v in d.items()}
    states.append(run(sel(w.predictions), sel(w.targets)))
  before = _snapshot(states)
  merged, shape = random_tree(rng, states, aggregation.AggregationState.zero)
  desc = (f'metrics={list(metrics)} chunks={ci}x{cl} of {ni}x{nl} '
          f'reduce={reduce_dims} merge={shape} masked={masked}')
  compare_states(merged, whole, desc, 'merge', rtol)
  for b, s in zip(before, states):
    compare_states(s, b, f'{desc}: operand changed by merging', 'mutated', 0)
  # The combiner used by the pipeline, on one component.
  part = str(rng.choice(['sum_weighted_statistics', 'sum_weights']))
  s = str(rng.choice(sorted(getattr(whole, part))))
  if getattr(whole, part)[s]:
    v = sorted(getattr(whole, part)[s])[0]
    got = combine_fn_tree(rng, [getattr(x, part)[s][v] for x in states])
    compare_arrays(got, getattr(whole, part)[s][v],
                   f'{desc}: combiner {part} {s}.{v}', 'combiner', rtol)
    obs.ev('combiner_schedules')
  # Metric values from the merged state.
  stable = {k: m for k, m in metrics.items()
            if k in ('rmse', 'mae', 'mse', 'bias', 'pred_avg', 'target_avg',
                     'csi', 'accuracy', 'crps', 'wind', 'ens_avg_rmse',
                     'csi_bin', 'exceed', 'relu_rmse', 'erps_unfair')}
  if stable:
    a = merged.metric_values(stable)
    b = whole.metric_values(stable)
    check(set(a.data_vars) == set(b.data_vars), f'{desc}: metric variables',
          'metric')
    for k in b.data_vars:
      compare_arrays(a[k].drop_vars([c for c in a[k].coords
                                     if c not in a[k].dims]),
                     b[k].drop_vars([c for c in b[k].coords
                                     if c not in b[k].dims]),
                     f'{desc}: metric {k}', 'metric', max(rtol, 1e-7) * 30)
    obs.ev('metric_values_compared', len(b.data_vars))
  obs.ev('chunks_merged', len(states))
  obs.ev('states_compared', sum(len(x) for x in
                                whole.sum_weights.values()))
  if len(states) > 1:
    obs.ev('multi_chunk_cases')
    obs.mark('dense', sorted(metrics), ci, cl, ni, nl, sorted(reduce_dims),
             shape)
    obs.sample(desc=desc)


def _sparse_world(rng, n):
  init = np.datetime64('2020-01-01T00', 'ns') + (
      rng.integers(0, 8, n) * 12).astype('timedelta64[h]')
  lead = (rng.integers(0, 4, n) * 6).astype('timedelta64[h]').astype(
      'timedelta64[ns]')
  stn = rng.choice(['KA', 'KB', 'KC', 'KD'], n)
  lat = np.round(rng.uniform(-90, 90, n), 1)
  coords = {'init_time': ('index', init), 'lead_time': ('index', lead),
            'station': ('index', stn), 'latitude': ('index', lat),
            'index': np.arange(n)}
  mk = lambda: xr.DataArray(rng.normal(size=n), dims=['index'], coords=coords)
  return mk(), mk()


def sparse(rng, obs):
  n = int(rng.integers(0, 40))
  p, t = _sparse_world(rng, n)
  err = np.abs(p.values - t.values)
  by = str(rng.choice(['lead_time', 'station', 'unit', 'coordbins', 'sets']))
  glob = bool(rng.random() < 0.4)
  stn = t.station.values
  if by == 'lead_time':
    b, dim = binning.ByExactCoord('lead_time', add_global_bin=False), 'lead_time'
    glob = False
    member = {k: t.lead_time.values == k for k in np.unique(t.lead_time.values)}
  elif by == 'station':
    b, dim = binning.ByExactCoord('station', add_global_bin=glob), 'station'
    member = {k: stn == k for k in np.unique(stn)}
  elif by == 'unit':
    b, dim = binning.ByTimeUnit('hour', 'init_time', glob), 'init_time_hour'
    hrs = (t.init_time.values.astype('datetime64[h]').astype(int)) % 24
    member = {(str(k) if glob else k): hrs == k for k in np.unique(hrs)}
  elif by == 'coordbins':
    edges = np.array([-90.0, -30, 0, 45, 91])
    b, dim = binning.ByCoordBins('latitude', edges, glob), 'latitude'
    lat = t.latitude.values
    member = {(str(lo) if glob else lo): (lat >= lo) & (lat < hi)
              for lo, hi in zip(edges[:-1], edges[1:])}
  else:
    sets = {'ab': ['KA', 'KB'], 'c': 'KC', 'none': ['KZ']}
    b, dim = binning.BySets(sets, 'station', 'set', add_set_complements=True,
                            add_global_bin=glob), 'set'
    member = {}
    for k, v in sets.items():
      v = [v] if isinstance(v, str) else v
      member[k] = np.isin(stn, v)
      member[f'not_in_{k}'] = ~np.isin(stn, v)
  if glob:
    member['global'] = np.ones(n, bool)
  agg = aggregation.Aggregator(reduce_dims=['index'], bin_by=[b])
  metrics = {'mae': deterministic.MAE()}

  def run(idx):
    return agg.aggregate_statistics(
        metrics_base.compute_unique_statistics_for_all_metrics(
            metrics, {'v': p.isel(index=idx)}, {'v': t.isel(index=idx)}))

  k = int(rng.integers(1, 6))
  part = rng.integers(0, k, n)
  groups = [np.flatnonzero(part == i) for i in range(k)]
  if n and rng.random() < 0.3:
    groups.append(np.array([], int))
  # A chunk without any observation contributes nothing.
  states = [run(g) for g in groups]
  merged, shape = random_tree(rng, states, aggregation.AggregationState.zero)
  stat = deterministic.AbsoluteError().unique_name
  S = merged.sum_weighted_statistics[stat]['v']
  W = merged.sum_weights[stat]['v']
  desc = f'sparse by={by} n={n} groups={[len(g) for g in groups]} merge={shape}'
  labels = [np.timedelta64(int(x), 'ns') if by == 'lead_time' else x
            for x in (S[dim].values.astype('int64') if by == 'lead_time'
                      else S[dim].values.tolist())]
  want_labels = list(member)
  key = lambda x: str(x)
  check(sorted(map(key, labels)) == sorted(map(key, want_labels)),
        f'{desc}: bins {labels} expected {want_labels}', 'sparse_bins')
  for lab in want_labels:
    i = [key(x) for x in labels].index(key(lab))
    expect_close(S.values[i], err[member[lab]].sum(), f'{desc}: sum in {lab}',
                 'sparse_sum', rtol=1e-9, atol=1e-9)
    expect_close(W.values[i], member[lab].sum(), f'{desc}: weight in {lab}',
                 'sparse_weight')
    obs.ev('sparse_bins_checked')
  if len(states) > 1 and n:
    obs.ev('sparse_multi')
    obs.mark('sparse', by, n, [len(g) for g in groups], shape, glob)
    obs.sample(desc=desc)


SCENARIOS = {'dense': (dense, 700, 25000), 'sparse': (sparse, 600, 15000)}
MIN = {'multi_chunk_cases': 300, 'sparse_multi': 200, 'combiner_schedules': 300,
       'metric_values_compared': 300}
