"""C25: comparison metrics combine the two systems correctly."""

import numpy as np
import xarray as xr
from wbx import infer
from wbx import gen
from wbx.core import check, expect_raises
from wbx.props import c22
from wbx.props import c23
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import deterministic
from weatherbenchX.statistical_inference import baseline_comparison as bc
from weatherbenchX.statistical_inference import bootstrap
from weatherbenchX.statistical_inference import t_test

RULE = ('aggregated states of two systems of random worlds, each evaluated on '
        'its own, against comparison metrics (difference, ratio, skill, '
        'asymmetric, renaming) evaluated on the combined state, directly and '
        'by every inference method; fingerprint = (metrics, comparison, '
        'world)')
ASSUMPTIONS = ['results are compared to 1e-9 relative in double precision and '
               '5e-5 where the linearisation (single precision) is used']
CASE_TIMEOUT = 240
UNIT = infer.UNIT


def ratio(m, b):
  return {k: m[k] / b[k] for k in m if k in b}


def skill(m, b):
  return {f'{k}_skill': 1 - m[k] / b[k] for k in m if k in b}


def asymmetric(m, b):
  return {k: 2 * m[k] - .5 * b[k] for k in m if k in b}


def only_baseline(m, b):
  return dict(b)


def own_difference(m, b):
  return {k: m[k] - b[k] for k in m if k in b}


COMPARISONS = {'difference': bc.difference, 'ratio': ratio, 'skill': skill,
               'asymmetric': asymmetric, 'baseline': only_baseline}


def _means(state, dim=None):
  num, den = ((state.sum_weighted_statistics, state.sum_weights)
              if dim is None else infer.total(state, dim))
  return {s: {v: num[s][v] / den[s][v] for v in num[s]} for s in num}


def _values(metrics, state, dim=None):
  """Metric values of one system, each metric by itself."""
  mean = _means(state, dim)
  out = {}
  for k, m in metrics.items():
    out[k] = dict(m.values_from_mean_statistics(
        {n: mean[s.unique_name] for n, s in m.statistics.items()}))
  return out


def same(got, want, what, key, rtol=1e-9):
  check(set(got) == set(want), f'{what}: variables {sorted(got)} want '
        f'{sorted(want)}', key)
  for v, w in want.items():
    g = got[v]
    check(set(g.dims) == set(w.dims), f'{what} {v}: dims {g.dims} want '
          f'{w.dims}', key)
    for d in w.dims:
      if d in w.coords:
        check(d in g.coords and set(g[d].values.tolist())
              == set(w[d].values.tolist()), f'{what} {v}: labels of {d}', key)
        g = g.sel({d: w[d]})
    a, b = g.transpose(*w.dims).values.astype(float), w.values.astype(float)
    s = np.abs(b[np.isfinite(b)]).max(initial=0)
    with np.errstate(invalid='ignore'):
      bad = ~((np.abs(a - b) <= rtol * (np.abs(b) + s) + 1e-12) | (a == b)
              | (np.isnan(a) & np.isnan(b)))
    check(not bad.any(), lambda: f'{what} {v}: {a[bad][:4]} want '
          f'{b[bad][:4]}', key)


def _two(rng, k=3, n=None, pool=infer.SMOOTH):
  metrics, a, b, desc = infer.make(rng, pool=pool, k=k, second=True, n_units=n)
  metrics = c23.sqrt_cancel(metrics)
  f = lambda s: s.map(lambda x: x.astype(float))
  return metrics, f(a), f(b), desc


def _drop(state, variables):
  """The same state without some variables."""
  f = lambda t: {s: {v: x for v, x in vs.items() if v not in variables}
                 for s, vs in t.items()}
  return aggregation.AggregationState(f(state.sum_weighted_statistics),
                                      f(state.sum_weights))


def values(rng, obs):
  """Combined states against separately evaluated systems."""
  metrics, a, b, desc = _two(rng)
  name = str(rng.choice(list(COMPARISONS)))
  comp = COMPARISONS[name]
  dim = UNIT if rng.random() < .6 else None
  base = None
  tags = []
  r = rng.random()
  if metrics and r < .35:  # other metrics for the baseline, by the same names
    ks = list(metrics)
    base = {k: metrics[j] for k, j in zip(ks, gen.shuffled(rng, ks))}
    if rng.random() < .5 and len(ks) > 1:
      base.pop(ks[0])
    base['only_of_baseline'] = metrics[ks[0]]
    tags.append('other_metrics')
  if rng.random() < .3:
    vs = sorted({v for x in a.sum_weights.values() for v in x})
    if len(vs) > 1:
      v = str(rng.choice(vs))
      # Metrics over several variables need them all.
      if set(metrics) <= {'bias', 'mae', 'mse', 'rmse', 'crps', 'pred_avg',
                          'target_avg', 'ens_mean_rmse', 'ens_avg_rmse'}:
        if rng.random() < .5:
          a = _drop(a, [v])
        else:
          b = _drop(b, [v])
        tags.append(f'without:{v}')
  what = f'{name} {desc} {tags} reduce={dim}'
  obs.sample(what=what)
  copies = [s.map(lambda x: x.copy(deep=True)) for s in (a, b)]
  state = bc.combine_aggregation_states(a, b)
  cmp = (bc.for_metrics(metrics, base) if name == 'difference'
         and rng.random() < .5 else bc.for_metrics(metrics, base, comp))
  own = metrics if base is None else base
  check(set(cmp) == set(metrics) & set(own),
        f'{what}: compares {sorted(cmp)}', 'metrics')
  va = _values({k: metrics[k] for k in cmp}, a, dim)
  vb = _values({k: own[k] for k in cmp}, b, dim)
  comb = state if dim is None else state.sum_along_dims([dim])
  got = metrics_base.compute_metrics_from_statistics(
      cmp, comb.mean_statistics())
  merged = comb.metric_values(cmp) if rng.random() < .5 and cmp else None
  check(set(got) == set(cmp), f'{what}: results {sorted(got)}', 'metrics')
  asym = False
  for k in cmp:
    w = (own_difference if name == 'difference' else comp)(va[k], vb[k])
    same(got[k], w, f'{what}: {k}', 'value')
    if merged is not None:
      same({v: merged[f'{k}.{v}'] for v in w}, w, f'{what}: {k} as dataset',
           'dataset')
    back = bc.BaselineComparison(metrics[k], own[k],
                                 comp).values_from_mean_statistics({
                                     n: _means(comb)[s.unique_name]
                                     for n, s in cmp[k].statistics.items()})
    same(back, w, f'{what}: {k} alone', 'value')
    for v in w:
      x, y = va[k].get(v), vb[k].get(v)
      asym |= x is not None and y is not None and not x.equals(y)
    obs.ev('values', len(w))
  for s, c in zip((a, b), copies):
    for t in ('sum_weighted_statistics', 'sum_weights'):
      for st, vs in getattr(c, t).items():
        for v, x in vs.items():
          check(getattr(s, t)[st][v].identical(x), f'{what}: input modified',
                'input')
  obs.ev('asymmetric', int(asym))
  obs.ev(name)
  obs.mark(what)


def nested(rng, obs):
  """Comparisons of comparisons."""
  metrics, a, b, desc = _two(rng, k=2)
  c, d = (s.map(lambda x: x * float(rng.uniform(.5, 2))) for s in (b, a))
  n1, n2 = (str(rng.choice(['difference', 'asymmetric', 'ratio']))
            for _ in range(2))
  inner = bc.for_metrics(metrics, comparison=COMPARISONS[n1])
  outer = bc.for_metrics(inner, comparison=COMPARISONS[n2])
  state = bc.combine_aggregation_states(
      bc.combine_aggregation_states(a, b),
      bc.combine_aggregation_states(c, d))
  got = metrics_base.compute_metrics_from_statistics(
      outer, state.mean_statistics())
  what = f'{n2} of {n1} {desc}'
  f, g = COMPARISONS[n1], COMPARISONS[n2]
  v = [_values(metrics, s) for s in (a, b, c, d)]
  for k in metrics:
    same(got[k], g(f(v[0][k], v[1][k]), f(v[2][k], v[3][k])), f'{what}: {k}',
         'nested')
    obs.ev('nested')
  obs.mark(what)


class _Tagged(metrics_base.Metric):
  """A metric whose local names look like those of a comparison."""

  @property
  def statistics(self):
    return {'main_x': deterministic.SquaredError(),
            'baseline_x': deterministic.AbsoluteError(),
            'main_main_x': deterministic.PredictionPassthrough()}

  def values_from_mean_statistics(self, s):
    return {v: s['main_x'][v] * 100 + s['baseline_x'][v] * 10
            + s['main_main_x'][v] for v in s['main_x']}


def names(rng, obs):
  """Statistics with confusing names, and evaluation on one forecast."""
  n = int(rng.integers(2, 6))
  mk = lambda: {v: xr.DataArray(rng.normal(size=(n, 3)), dims=[UNIT, 'x'],
                                coords={UNIT: np.arange(n)})
                for v in ('p', 'q')}
  t, p, q = mk(), mk(), mk()
  agg = aggregation.Aggregator(reduce_dims=['x'])
  metrics = {'tagged': _Tagged(), 'main_rmse': deterministic.RMSE(),
             'baseline_mae': deterministic.MAE()}
  st = lambda m, x: agg.aggregate_statistics(
      metrics_base.compute_unique_statistics_for_all_metrics(m, x, t))
  a, b = st(metrics, p), st(metrics, q)
  name = str(rng.choice(['difference', 'asymmetric']))
  comp = COMPARISONS[name]
  cmp = bc.for_metrics(metrics, comparison=comp)
  got = metrics_base.compute_metrics_from_statistics(
      cmp, bc.combine_aggregation_states(a, b).mean_statistics())
  va, vb = _values(metrics, a), _values(metrics, b)
  for k in metrics:
    same(got[k], comp(va[k], vb[k]), f'{name} {k}', 'names')
  # Used directly, both metrics see the same forecasts.
  one = {'c': bc.BaselineComparison(deterministic.RMSE(), deterministic.MAE(),
                                    comp)}
  res = metrics_base.compute_metrics_from_statistics(
      one, st(one, p).mean_statistics())
  same(res['c'], comp(va['main_rmse'], va['baseline_mae']),
       f'{name} on one forecast', 'direct')
  obs.ev('names')
  obs.mark(name, n, p['p'].values.tobytes())


def methods(rng, obs):
  """Every inference method estimates the comparison, on joint draws."""
  n = int(rng.integers(8, 10))
  metrics, a, b, desc = _two(rng, k=2, n=n)
  if not metrics:
    return
  u = c22.units(rng, n)
  a, b = c22.relabel(a, u), c22.relabel(b, u)
  name = str(rng.choice(['difference', 'asymmetric', 'ratio']))
  comp = COMPARISONS[name]
  base = None
  if rng.random() < .4:
    ks = list(metrics)
    base = {k: metrics[j] for k, j in zip(ks, ks[1:] + ks[:1])}
  own = metrics if base is None else base
  va, vb = _values(metrics, a, UNIT), _values(own, b, UNIT)
  want = {k: comp(va[k], vb[k]) for k in metrics}
  kw = dict(metrics=metrics, aggregated_statistics=a,
            baseline_aggregated_statistics=b)
  if base is not None:
    kw['baseline_metrics'] = base
  if name != 'difference' or rng.random() < .5:
    kw['comparison'] = comp
  what = f'{name} {desc} other={base is not None}'
  obs.sample(what=what)
  for cls, extra, tol in (
      (t_test.IID, dict(experimental_unit_dim=UNIT), 1e-4),
      (t_test.GeerAR2Corrected, dict(experimental_unit_dim=UNIT), 1e-4),
      (t_test.LazarusHACEWC, dict(experimental_unit_dim=UNIT), 1e-4)):
    # Ratios with a baseline near zero amplify single precision.
    if name == 'ratio' or 'sedi' in metrics:
      continue
    m = cls.for_baseline_comparison(**kw, **extra)
    got = m.point_estimates()
    for k in want:
      big = {v: x for v, x in want[k].items()}
      # Cancellation between the systems: compare on the scale of the systems.
      for v, w in big.items():
        s = max(np.nanmax(np.abs(y[k][v].values), initial=0)
                if v in y[k] else 0 for y in (va, vb))
        g = got[k][v].transpose(*w.dims).values.astype(float)
        w = w.values.astype(float)
        bad = ~((np.abs(g - w) <= tol * (s + np.abs(w)) + 1e-6)
                | (np.isnan(g) & np.isnan(w)))
        check(not bad.any(), f'{cls.__name__} {what}: {k} {v}: {g} want {w}',
              'inference')
    obs.ev(cls.__name__)
  code = lambda s: c23.merge(s, c23.codes(u))
  both = dict(kw, aggregated_statistics=code(a),
              baseline_aggregated_statistics=code(b))
  pick = {'code': c23._Id('code')}
  f = kw.get('comparison', bc.difference)

  def comparison(x, y):
    """The comparison under test; for the codes, a pair of them."""
    if 'v' in x and set(x) == {'v'}:
      return {'main': x['v'], 'base': y['v']}
    return f(x, y)

  both.update(metrics={**metrics, **pick}, comparison=comparison)
  if base is not None:
    both['baseline_metrics'] = {**base, **pick}
  for cls, extra in (
      (bootstrap.IIDBootstrap, dict(experimental_unit_dim=UNIT)),
      (bootstrap.ClusterBootstrap, dict(experimental_unit_coord=UNIT)),
      (bootstrap.StationaryBootstrap, dict(experimental_unit_dim=UNIT,
                                           mean_block_length=2.5))):
    r = 12
    m = cls.for_baseline_comparison(**both, n_replicates=r, **extra)
    rv = m.resampled_values
    cm, cb = (c23.decode(rv['code'][k].values * n, n) for k in ('main', 'base'))
    check(bool((cm == cb).all()), f'{cls.__name__} {what}: systems resampled '
          f'differently: {cm[:2]} {cb[:2]}', 'joint')
    wa, wb = c23.expected(metrics, a, cm), c23.expected(own, b, cm)
    for k in metrics:
      w = {v: x for v, x in comp(wa[k], wb[k]).items()}
      with np.errstate(all='ignore'):
        same({v: x.rename({c23.REP: 'rep'}) for v, x in rv[k].items()}, w,
             f'{cls.__name__} {what}: replicates of {k}', 'replicate', 1e-6)
      if cls is not bootstrap.StationaryBootstrap:
        same(m.point_estimates()[k], want[k],
             f'{cls.__name__} {what}: {k}', 'inference', 1e-6)
      obs.ev('replicates', r)
    obs.ev(cls.__name__)
  obs.mark(what)


def refused(rng, obs):
  """Systems evaluated on different units are refused by every method."""
  n = int(rng.integers(8, 12))
  u = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(12, 'h')
  x = lambda lab: c23.one('pick', xr.DataArray(
      rng.normal(size=len(lab)), dims=[UNIT], coords={UNIT: lab}))
  others = [u[::-1], u[:-1], u + np.timedelta64(6, 'h'), np.roll(u, 1),
            np.concatenate([u[:-1], u[-1:] + np.timedelta64(12, 'h')])]
  for cls, kw in (
      (t_test.IID, dict(experimental_unit_dim=UNIT)),
      (t_test.GeerAR2Corrected, dict(experimental_unit_dim=UNIT)),
      (t_test.LazarusHACEWC, dict(experimental_unit_dim=UNIT)),
      (bootstrap.IIDBootstrap, dict(experimental_unit_dim=UNIT,
                                    n_replicates=3)),
      (bootstrap.ClusterBootstrap, dict(experimental_unit_coord=UNIT,
                                        n_replicates=3)),
      (bootstrap.StationaryBootstrap, dict(experimental_unit_dim=UNIT,
                                           n_replicates=3))):
    o = others[int(rng.integers(len(others)))]
    args = (x(u), x(o)) if rng.random() < .5 else (x(o), x(u))
    expect_raises(lambda: cls.for_baseline_comparison(
        {'m': c23._Id()}, *args, **kw), f'{cls.__name__}: units {u[:3]} and '
        f'{o[:3]}', 'unpaired', ValueError)
    cls.for_baseline_comparison({'m': c23._Id()}, x(u), x(u), **kw)
    obs.ev('refused')
  obs.mark('refused', n)


SCENARIOS = {'values': (values, 110, 2000), 'nested': (nested, 24, 400),
             'names': (names, 20, 300), 'methods': (methods, 30, 500),
             'refused': (refused, 8, 80)}
MIN = {'values': (200, 3500), 'asymmetric': (60, 1200), 'nested': (20, 400),
       'names': (20, 300), 'replicates': (900, 15000),
       'difference': (10, 200), 'ratio': (10, 200), 'skill': (10, 200),
       'asymmetric': (60, 1000), 'baseline': (10, 200), 'IID': (10, 200),
       'IIDBootstrap': (24, 400), 'refused': (48, 480)}
