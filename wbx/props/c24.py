"""C24: the per-unit linearisation equals the derivative of the metric."""

import numpy as np
import xarray as xr
import xarray.ufuncs as xu
from wbx import infer
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.statistical_inference import autodiff

RULE = ('aggregated states of random worlds for sets of differentiable '
        'metrics, with random weights differing between units, bins, kept '
        'dimensions and unit positions; each per-unit value against '
        'extrapolated finite differences in double precision of the same '
        'metric, and against closed forms; fingerprint = (metrics, units, '
        'kept dims, weights)')
ASSUMPTIONS = [
    'the linearisation is computed in single precision: values are compared '
    'to 2e-5 and derivatives to 2e-3 of their scale',
    'only points where the finite differences of two step sizes agree (the '
    'metric is differentiable there) are compared']
CASE_TIMEOUT = 240

lin = autodiff.per_unit_values_linearized_around_mean_statistics


def _dims(got, dim, what, units, want_dims):
  check(set(got.dims) == set(want_dims) | {dim},
        f'{what}: dims {got.dims} for values along {want_dims}', 'dims')
  check(dim in got.coords and list(got[dim].values) == list(units),
        f'{what}: units {got[dim].values if dim in got.coords else None}',
        'units')


def derivatives(rng, obs):
  """Against finite differences, for sets of catalogue metrics."""
  metrics, state, desc = infer.make(rng)
  dim = infer.UNIT
  obs.sample(desc=desc)
  keep = {s: {v: x.copy(deep=True) for v, x in vs.items()}
          for s, vs in state.sum_weighted_statistics.items()}
  val, tan = lin(metrics, state, dim)
  for s, vs in keep.items():
    for v, x in vs.items():
      check(state.sum_weighted_statistics[s][v].identical(x),
            f'{desc}: state modified', 'input')
  base, want, ok, units = infer.tangents(metrics, state, dim)
  check(set(val) == set(base) and set(tan) == set(base),
        f'{desc}: metrics {set(val)} {set(tan)}', 'metrics')
  for m in base:
    check(set(val[m]) == set(base[m]) and set(tan[m]) == set(base[m]),
          f'{desc}: variables of {m}', 'variables')
    for v, b in base[m].items():
      what = f'{desc}: {m} {v}'
      g, t = val[m][v], tan[m][v]
      check(set(g.dims) == set(b.dims), f'{what}: dims {g.dims}', 'dims')
      _dims(t, dim, what, units, b.dims)
      for d in b.dims:
        if d in b.coords:
          for x in (g, t):
            check(d in x.coords and list(x[d].values) == list(b[d].values),
                  f'{what}: labels of {d}', 'labels')
      check(isinstance(g.data, np.ndarray) and isinstance(t.data, np.ndarray),
            f'{what}: not numpy', 'type')
      bv = b.values.astype(float)
      gv = g.transpose(*b.dims).values.astype(float)
      fin = np.isfinite(bv)
      scale = np.abs(bv[fin]).max(initial=0)
      # Rates clipped to 1 - 1e-6 are coarse in single precision.
      loose = 100 if m == 'sedi' else 1
      expect_close(gv[fin], bv[fin], f'{what}: value', 'value',
                   rtol=5e-5 * loose, atol=2e-5 * loose * max(scale, 1e-3))
      check(bool((np.isnan(gv) == np.isnan(bv)).all()),
            f'{what}: missing values {gv} {bv}', 'value')
      tv = t.transpose(dim, *b.dims).values.astype(float)
      w, k = want[m][v], ok[m][v]
      k = k & np.isfinite(bv)[None]
      ts = np.where(k, np.abs(w), 0).max(axis=0, keepdims=True)
      atol = (1e-2 if m == 'sedi' else 2e-3) * np.maximum(ts, 1e-3 * max(scale, 1e-2))
      bad = k & ~(np.abs(tv - w) <= atol)
      check(not bad.any(), lambda: f'{what}: derivatives '
            f'{tv[bad][:5]} but differences give {w[bad][:5]} (unit, index) '
            f'{np.argwhere(bad)[:3].tolist()}', 'derivative')
      obs.ev('derivatives', int(k.sum()))
      obs.ev(f'metric.{m}', int(k.sum() > 0))
      if k.all() and w.size:
        # Linearised values average to zero over the units.
        mean = tv.mean(axis=0)
        check(bool((np.abs(mean) <= 1e-5 * np.abs(tv).max(axis=0)
                    + 1e-6 * max(scale, 1e-3)).all()),
              f'{what}: linearised values average to {mean}', 'mean')
        obs.ev('zero_means')
  obs.mark(desc)


class _Pick(metrics_base.Statistic):
  """A statistic that returns what it is given."""

  def __init__(self, which):
    self._which = which

  @property
  def unique_name(self):
    return f'pick_{self._which}'

  def compute(self, predictions, targets):
    return predictions if self._which == 'p' else targets


class _Ratio(metrics_base.Metric):
  """A metric with known derivative: sqrt(a) * b + exp(a - b) per variable."""

  @property
  def statistics(self):
    return {'A': _Pick('p'), 'B': _Pick('t')}

  def values_from_mean_statistics(self, s):
    return {v: xu.sqrt(s['A'][v]) * s['B'][v] + xu.exp(s['A'][v] - s['B'][v])
            for v in s['A']}


class _Mean(metrics_base.PerVariableMetric):

  @property
  def statistics(self):
    return {'A': _Pick('p')}

  def _values_from_mean_statistics_per_variable(self, s):
    return s['A']


def closed_form(rng, obs):
  """Against derivatives written out by hand, weights and all."""
  n = int(rng.integers(1, 15))
  dims = ['unit'] + gen_dims(rng)
  size = {d: int(rng.integers(1, 4)) for d in dims}
  size['unit'] = n
  order = [str(d) for d in rng.permutation(dims)]
  shape = [size[d] for d in order]
  kind = int(rng.integers(3))
  unit = [np.array(['2020-01-01'], 'datetime64[ns]')[0]
          + np.arange(n) * np.timedelta64(12, 'h'),
          np.arange(n)[::-1] * 5, np.array([f'u{i}' for i in range(n)])][kind]
  co = {d: np.arange(size[d]) * 2 for d in dims}
  co['unit'] = unit
  dt = np.float32 if rng.random() < .3 else np.float64
  mk = lambda lo, hi: xr.DataArray(
      rng.uniform(lo, hi, shape).astype(dt), dims=order,
      coords={d: co[d] for d in order})
  stats, ws = {}, {}
  variables = ['a', 'b'][:int(rng.integers(1, 3))]
  weighted = rng.random() < .7
  for s in ('pick_p', 'pick_t'):
    ws[s] = {v: mk(.2, 2) if weighted else xr.ones_like(mk(0, 1))
             for v in variables}
    stats[s] = {v: (mk(.5, 3) * ws[s][v]).astype(dt) for v in variables}
  if rng.random() < .5:  # weights as transposed arrays
    ws['pick_p'] = {v: x.transpose(*dims[::-1])
                    for v, x in ws['pick_p'].items()}
  state = aggregation.AggregationState(stats, ws)
  val, tan = lin({'r': _Ratio(), 'm': _Mean()}, state, 'unit')
  rest = dims[1:]
  for v in variables:
    arr = lambda x: x.transpose('unit', *rest).values.astype(float)
    S, W, T, U = (arr(stats['pick_p'][v]), arr(ws['pick_p'][v]),
                  arr(stats['pick_t'][v]), arr(ws['pick_t'][v]))
    Sb, Wb, Tb, Ub = (x.mean(axis=0) for x in (S, W, T, U))
    a, b = Sb / Wb, Tb / Ub
    da = (S - Sb) / Wb - Sb / Wb**2 * (W - Wb)
    db = (T - Tb) / Ub - Tb / Ub**2 * (U - Ub)
    e = np.exp(a - b)
    want = {'r': (np.sqrt(a) * b + e,
                  (b / (2 * np.sqrt(a)) + e) * da + (np.sqrt(a) - e) * db),
            'm': (a, da)}
    for m, (x, t) in want.items():
      what = (f'{m} {v} n={n} dims={order} units={kind} weighted={weighted} '
              f'{dt.__name__}')
      _dims(tan[m][v], 'unit', what, unit, rest)
      expect_close(val[m][v].transpose(*rest).values, x, f'{what}: value',
                   'closed.value', rtol=2e-5, atol=1e-5)
      expect_close(tan[m][v].transpose('unit', *rest).values, t,
                   f'{what}: linearised', 'closed.derivative', rtol=1e-4,
                   atol=1e-4 * max(1e-2, np.abs(t).max()))
      obs.ev('closed_forms', t.size)
  obs.mark('closed', n, order, kind, weighted)


def gen_dims(rng):
  return [d for d in ('x', 'y') if rng.random() < .5]


def missing(rng, obs):
  """A missing statistic of one unit makes only its own results missing."""
  metrics, state, desc = infer.make(rng, pool=('bias', 'mae', 'mse', 'rmse',
                                               'crps', 'ens_mean_rmse'))
  m0 = sorted(metrics)[0]
  val0, tan0 = lin({m0: metrics[m0]}, state, infer.UNIT)
  sw = {s: {v: x.copy(deep=True) for v, x in vs.items()}
        for s, vs in state.sum_weighted_statistics.items()}
  st = next(iter(metrics[m0].statistics.values())).unique_name
  v0 = sorted(sw[st])[int(rng.integers(len(sw[st])))]
  x = sw[st][v0]
  ix = {d: int(rng.integers(n)) for d, n in x.sizes.items()}
  x[ix] = np.nan
  val, tan = lin({m0: metrics[m0]}, aggregation.AggregationState(
      sw, state.sum_weights), infer.UNIT)
  for v in val0[m0]:
    a, b = val0[m0][v], val[m0][v].transpose(*val0[m0][v].dims)
    hit = np.zeros(a.shape, bool)
    if v == v0:
      sel = tuple(ix[d] if d in ix else slice(None) for d in a.dims)
      hit[sel] = True
    what = f'{desc}: {m0} {v} with {st} {v0} missing at {ix}'
    check(bool(np.isnan(b.values[hit]).all()), f'{what}: {b.values}',
          'missing.lost')
    expect_close(b.values[~hit], a.values[~hit], f'{what}: others',
                 'missing.spread', rtol=1e-5, atol=1e-6)
    t0 = tan0[m0][v].transpose(infer.UNIT, *a.dims).values
    t1 = tan[m0][v].transpose(infer.UNIT, *a.dims).values
    check(bool(np.isnan(t1[:, hit]).all()), f'{what}: derivatives {t1}',
          'missing.lost')
    expect_close(t1[:, ~hit], t0[:, ~hit], f'{what}: other derivatives',
                 'missing.spread', rtol=1e-4, atol=1e-5)
  obs.ev('missing')
  obs.mark('missing', desc, tuple(ix.items()))


def refused(rng, obs):
  """Units which are absent or differ between statistics are refused."""
  metrics, state, desc = infer.make(rng, pool=('bias', 'mae', 'mse'), k=3)
  expect_raises(lambda: lin(metrics, state, 'nothing'), f'{desc}: unknown '
                'unit dimension', 'unknown', ValueError)
  obs.ev('refused')
  m = _Ratio()
  n = int(rng.integers(3, 6))
  mk = lambda units: xr.DataArray(1 + rng.random(len(units)), dims=['unit'],
                                  coords={'unit': units})
  u = np.arange(n)
  other = [u + 1, u[::-1], u[:-1], np.arange(n + 1)][int(rng.integers(4))]
  a, b = mk(u), mk(other)
  st = aggregation.AggregationState(
      {'pick_p': {'v': a}, 'pick_t': {'v': b}},
      {'pick_p': {'v': xr.ones_like(a)}, 'pick_t': {'v': xr.ones_like(b)}})
  expect_raises(lambda: lin({'r': m}, st, 'unit'),
                f'units {u} and {other}', 'mismatch', ValueError)
  obs.ev('refused')
  obs.mark('refused', n, tuple(other))


SCENARIOS = {'derivatives': (derivatives, 90, 1500),
             'closed_form': (closed_form, 60, 900),
             'missing': (missing, 20, 300), 'refused': (refused, 10, 100)}
MIN = {'derivatives': (3000, 50000), 'zero_means': (90, 1500),
       'closed_forms': (1000, 15000), 'missing': (20, 300),
       'refused': (20, 200)}
