"""Worlds and independent formulas for the statistical inference monitors."""

import numpy as np
import xarray as xr
from wbx import catalog
from wbx import gen
from wbx.props import c04
from weatherbenchX import aggregation
from weatherbenchX import weighting
from weatherbenchX.metrics import base as metrics_base

UNIT = 'init_time'

# Metrics which are smooth around typical mean statistics.
LINEAR = ('bias', 'mae', 'mse', 'pred_avg', 'target_avg', 'exceed', 'crps',
          'crps_sort', 'crps_unfair', 'accuracy', 'erps', 'rps_cdf',
          'subset_mae', 'brier_weibull', 'fb_lin')
SMOOTH = ('bias', 'mae', 'mse', 'rmse', 'pred_avg', 'target_avg', 'wind',
          'acc', 'activity', 'exceed', 'csi_bin', 'relu_rmse', 'subset_mae',
          'rps_cdf', 'csi', 'accuracy', 'recall', 'far', 'precision', 'f1',
          'fb', 'hss', 'ets', 'sedi', 'reliability', 'crps', 'crps_sort',
          'crps_unfair', 'umse', 'ssr', 'spread', 'erps', 'ens_avg_rmse',
          'ens_mean_rmse', 'brier_weibull', 'rank_hist', 'crps_dist',
          'wasserstein', 'fss', 'seeps', 'rel_intensity')


class UnitWeight(weighting.Weighting):
  """Random positive weights, different for every unit and place."""

  def __init__(self, w):
    self._w = w

  def weights(self, statistic):
    if not set(self._w.dims) <= set(statistic.dims):
      return xr.DataArray(1.0)
    return self._w


def names(rng, pool, k):
  """A few metrics of one world kind."""
  pool = [catalog.BY_NAME[n] for n in pool if n in catalog.BY_NAME]
  kinds = sorted({e.kind for e in pool})
  p = np.array([sum(e.kind == kd for e in pool) for kd in kinds], float)
  kind = str(rng.choice(kinds, p=p / p.sum()))
  own = [e for e in pool if e.kind == kind]
  return kind, gen.shuffled(rng, own)[:k]


def make(rng, pool=SMOOTH, n_units=None, k=3, second=False, dtype=float,
         weights=True):
  """(metrics, per-unit state[, state of another system], description)."""
  while True:
    out = _make(rng, pool, n_units, k, second, dtype, weights)
    need = {s.unique_name for m in out[0].values()
            for s in m.statistics.values()}
    if need <= {s for s, v in out[1].sum_weighted_statistics.items() if v}:
      return out  # else: a metric without some of the reduced dimensions


def _make(rng, pool, n_units, k, second, dtype, weights):
  kind, entries = names(rng, pool, int(rng.integers(1, k + 1)))
  n = n_units or int(rng.integers(3, 10))
  nl = int(rng.integers(1, 4))
  w = catalog.world(rng, kind, sizes=dict(init_time=n, lead_time=nl),
                    dtype=dtype)
  metrics = {e.name: e.make(w, rng) for e in entries}
  keep = gen.subset(rng, ['lead_time', 'latitude'], .4)
  reduce_dims = [d for d in ('lead_time', 'latitude', 'longitude')
                 if d not in keep]
  weigh, bins, tags = [], [], []
  if weights and rng.random() < .5:
    wd = gen.subset(rng, [UNIT] + reduce_dims, .6) or [UNIT]
    weigh.append(UnitWeight(xr.DataArray(
        0.3 + rng.random([len(w.coords[d]) for d in wd]), dims=wd,
        coords={d: w.coords[d] for d in wd})))
    tags.append('w:' + ','.join(wd))
  if rng.random() < .3 and 'latitude' in reduce_dims:
    m = rng.random((2, len(w.coords['latitude']))) < .7
    m[0, 0] = m[1, -1] = True
    bins.append(c04.RandomBins('band', xr.DataArray(
        m, dims=['band', 'latitude'],
        coords={'band': ['x', 'y'], 'latitude': w.coords['latitude']})))
    tags.append('band')
  agg = aggregation.Aggregator(reduce_dims=gen.shuffled(rng, reduce_dims),
                               weigh_by=weigh or None, bin_by=bins or None)
  p, t = w.predictions, w.targets

  def state(p, t):
    stats = metrics_base.compute_unique_statistics_for_all_metrics(
        metrics, p, t)
    return agg.aggregate_statistics(stats)

  out = [metrics, state(p, t)]
  if second:
    if kind in ('bin', 'prob', 'ensbin'):
      q = {v: x.copy(data=rng.permutation(x.values.ravel()).reshape(x.shape))
           for v, x in p.items()}
    else:
      q = {v: x + 0.3 * rng.normal(size=x.shape) for v, x in p.items()}
    out.append(state(q, t))
  desc = (f'{list(metrics)} units={n} leads={nl} keep={keep} {tags}')
  return (*out, desc)


def total(state, dim=UNIT):
  """Sum over units, written out."""
  f = lambda tree: {s: {v: x.sum(dim, skipna=False) for v, x in vs.items()}
                    for s, vs in tree.items()}
  return f(state.sum_weighted_statistics), f(state.sum_weights)


def value(metrics, num, den):
  mean = {s: {v: num[s][v] / den[s][v] for v in num[s]} for s in num}
  r = metrics_base.compute_metrics_from_statistics(metrics, mean)
  return {m: {v: x for v, x in vs.items()} for m, vs in r.items()}


def tangents(metrics, state, dim=UNIT):
  """Per-unit directional derivatives by extrapolated central differences.

  Returns (value, tangents, reliable) with the tangents along `dim` first.
  """
  state = aggregation.AggregationState(
      *({s: {v: x.astype(float) for v, x in vs.items()}
         for s, vs in tree.items()}
        for tree in (state.sum_weighted_statistics, state.sum_weights)))
  f = lambda tree: {s: {v: x.mean(dim, skipna=False) for v, x in vs.items()}
                    for s, vs in tree.items()}
  num, den = f(state.sum_weighted_statistics), f(state.sum_weights)
  base = value(metrics, num, den)
  any_x = next(iter(next(iter(
      state.sum_weighted_statistics.values())).values()))
  n = any_x.sizes[dim]
  units = any_x[dim].values

  def at(i, h):
    mv = lambda m, x: {s: {v: m[s][v] + h * (x[s][v].isel({dim: i}, drop=True)
                                             - m[s][v]) for v in m[s]}
                       for s in m}
    return value(metrics, mv(num, state.sum_weighted_statistics),
                 mv(den, state.sum_weights))

  tan = {m: {v: [] for v in vs} for m, vs in base.items()}
  ok = {m: {v: [] for v in vs} for m, vs in base.items()}
  for i in range(n):
    h = 2e-3
    e = {k: at(i, k * h) for k in (-2, -1, 1, 2)}
    for m in base:
      for v in base[m]:
        order = base[m][v].dims
        g = lambda k: e[k][m][v].transpose(*order).values.astype(float)
        d1 = (g(1) - g(-1)) / (2 * h)
        d2 = (g(2) - g(-2)) / (4 * h)
        d = (4 * d1 - d2) / 3
        tan[m][v].append(d)
        with np.errstate(all='ignore'):
          ok[m][v].append(np.isfinite(d) & (np.abs(d1 - d2) <= 1e-2 * np.abs(
              d) + 1e-9 + 1e-3 * np.abs(base[m][v].values.astype(float))))
  fin = lambda tree: {m: {v: np.stack(x) for v, x in vs.items()}
                      for m, vs in tree.items()}
  return base, fin(tan), fin(ok), units
