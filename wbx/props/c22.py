"""C22: t-tests give the textbook estimates, intervals and p-values."""

import numpy as np
import scipy.special
import scipy.stats
import xarray as xr
from wbx import infer
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.statistical_inference import baseline_comparison
from weatherbenchX.statistical_inference import t_test

RULE = ('aggregated per-unit states of random worlds and synthetic series '
        '(white, autocorrelated, trending, constant, with missing values) '
        'for random metrics, weights, kept dimensions, numbers of units, v_0, '
        'alpha and null values; standard errors against textbook formulas of '
        'finite-difference influence values, intervals and p-values against '
        'the incomplete beta function, scipy.stats and metamorphic relations; '
        'fingerprint = (method, metrics, units, options)')
ASSUMPTIONS = [
    'linearisation is in single precision: standard errors are compared to '
    '4e-3 of their value plus five times what a relative perturbation of 1e-4 '
    'of the influence values changes',
    'a missing value of a unit makes the results it enters missing']
CASE_TIMEOUT = 240
UNIT = infer.UNIT


def stderr_iid(x):
  n = len(x)
  return np.sqrt(((x - x.mean(0))**2).sum(0) / (n - 1) / n)


def stderr_geer(x):
  n = len(x)
  x = x - x.mean(0)
  var = (x * x).sum(0) / (n - 1)
  r = []
  for lag in (1, 2):
    r.append((x[lag:] * x[:n - lag]).sum(0) / (n - lag))
  with np.errstate(all='ignore'):
    r1, r2 = [np.where(var == 0, 0, c / np.where(var == 0, 1, var)) for c in r]
    # Yule-Walker for an AR(2) process, and its long-run variance.
    p1 = r1 * (1 - r2) / (1 - r1 * r1)
    p2 = (r2 - r1 * r1) / (1 - r1 * r1)
    k2 = (1 - p1 * r1 - p2 * r2) / (1 - p1 - p2)**2
    return np.sqrt(var / n * k2)


def n_cosines(n, v0):
  return int(min(max(1, int(v0 * n**(2 / 3))), n - 1))


def stderr_ewc(x, v0):
  n = len(x)
  t = (np.arange(n) + .5) / n
  tot = 0
  v = n_cosines(n, v0)
  for j in range(1, v + 1):
    c = np.sqrt(2 / n) * np.cos(np.pi * j * t)
    tot = tot + np.tensordot(c, x, axes=(0, 0))**2
  return np.sqrt(tot / v / n)


def method(rng, n):
  """(name, constructor, own standard error, degrees of freedom)."""
  i = int(rng.integers(3))
  if i == 1 and n < 3:
    i = 0
  if i == 0:
    return 'iid', t_test.IID, {}, stderr_iid, n - 1
  if i == 1:
    return 'geer', t_test.GeerAR2Corrected, {}, stderr_geer, n - 1
  v0 = [0.4, 0.4, float(rng.uniform(.05, 3)), 100.][int(rng.integers(4))]
  kw = {} if v0 == 0.4 and rng.random() < .5 else {'v_0': v0}
  return (f'ewc({v0:.2f})', t_test.LazarusHACEWC, kw,
          lambda x: stderr_ewc(x, v0), n_cosines(n, v0))


def units(rng, n):
  """Coordinates in regular steps."""
  kind = int(rng.integers(5))
  return [np.datetime64('2020-01-01', 'ns')
          + np.arange(n) * np.timedelta64(int(rng.integers(1, 30)), 'h'),
          np.arange(n) * 3 + 1, np.arange(n) * .25 - 1,
          np.array([f'u{i}' for i in range(n)]),
          np.arange(n) * np.timedelta64(6, 'h').astype('m8[ns]')][kind]


def relabel(state, u):
  """The same state with other labels of the units."""
  f = lambda tree: {s: {v: x.assign_coords({UNIT: (UNIT, u)})
                        for v, x in vs.items()} for s, vs in tree.items()}
  return aggregation.AggregationState(f(state.sum_weighted_statistics),
                                      f(state.sum_weights))


def cdf(t, df):
  """Student's t distribution by the incomplete beta function."""
  t = np.asarray(t, float)
  with np.errstate(all='ignore'):
    tail = scipy.special.betainc(df / 2, .5, df / (df + t * t)) / 2
  tail = np.where(np.isinf(t), 0, tail)
  return np.where(t > 0, 1 - tail, tail)


def results(rng, m, what, df, obs):
  """Everything derived from the estimates and standard errors."""
  pt, se = m.point_estimates(), m.standard_error_estimates()
  alpha = float(rng.choice([.05, .01, .3, float(rng.uniform(.001, .9))]))
  some = next(iter(next(iter(pt.values())).values())).values
  some = some[np.isfinite(some)]
  null = [0., float(rng.normal()),
          float(some.ravel()[0]) if some.size else 1.][int(rng.integers(3))]
  kw = {} if null == 0 and rng.random() < .5 else {'null_value': null}
  lo, hi = m.confidence_intervals(alpha) if alpha != .05 else (
      m.confidence_intervals())
  p = m.p_values(**kw)
  sig = m.significance_tests(**kw, **({} if alpha == .05 else
                                      {'alpha': alpha}))
  for tree in (se, lo, hi, p, sig):
    check({k: set(v) for k, v in tree.items()}
          == {k: set(v) for k, v in pt.items()}, f'{what}: keys', 'keys')
  q = scipy.special.stdtrit(df, 1 - alpha / 2)
  for k in pt:
    for v, x in pt[k].items():
      tag = f'{what}: {k} {v} alpha={alpha:.3f} null={null:.3g}'
      al = lambda y: y.transpose(*x.dims).values.astype(float)
      for y in (se[k][v], lo[k][v], hi[k][v], p[k][v], sig[k][v]):
        check(set(y.dims) == set(x.dims), f'{tag}: dims {y.dims}', 'dims')
        for d in x.dims:
          check((d in x.coords) == (d in y.coords) and (
              d not in x.coords or bool((x[d].values == y[d].values).all())),
              f'{tag}: labels of {d}', 'labels')
      xv, s = x.values.astype(float), al(se[k][v])
      check(bool((~(s < 0)).all()), f'{tag}: standard errors {s}', 'negative')
      expect_close(al(lo[k][v]), xv - q * s, f'{tag}: lower', 'interval',
                   rtol=2e-6, atol=2e-6 * np.nanmax(np.abs(xv), initial=1e-9))
      expect_close(al(hi[k][v]), xv + q * s, f'{tag}: upper', 'interval',
                   rtol=2e-6, atol=2e-6 * np.nanmax(np.abs(xv), initial=1e-9))
      d = xv - null
      d = (x.values - null).astype(float)
      with np.errstate(all='ignore'):
        z = np.where((d == 0) & (s == 0), 0., np.abs(d) / s)
      want = 2 * (1 - cdf(z, df))
      want = np.where(np.isnan(z), np.nan, want)
      pv = al(p[k][v])
      # The statistic is in single precision; allow for that.
      dev = np.abs(2 * (cdf(z * (1 + 2e-6), df) - cdf(z * (1 - 2e-6), df)))
      bad = ~((np.abs(pv - want) <= 1e-9 + np.nan_to_num(dev))
              | (np.isnan(pv) & np.isnan(want)))
      check(not bad.any(), lambda: f'{tag}: p-values {pv[bad]} want '
            f'{want[bad]}', 'p_value')
      check(bool((al(sig[k][v]) == (pv <= alpha)).all()),
            f'{tag}: significance {sig[k][v].values} for {pv}', 'significance')
      # Duality of intervals and tests.
      near = np.abs(pv - alpha) < 1e-4
      inside = (al(lo[k][v]) <= null) & (null <= al(hi[k][v]))
      ok = near | ~np.isfinite(s) | (s == 0) | (inside == (pv > alpha))
      check(bool(ok.all()), f'{tag}: interval and p-value disagree', 'duality')
      obs.ev('results', int(np.isfinite(s).sum()))
      obs.ev('significant', int((pv <= alpha).sum()))
  return pt, se


def formulas(rng, obs):
  """Standard errors of random metrics against textbook formulas."""
  n = int(rng.integers(3, 16))
  metrics, state, desc = infer.make(rng, n_units=n)
  u = units(rng, n)
  state = relabel(state, u)
  name, cls, kw, own, df = method(rng, n)
  what = f'{name} {desc} units={u.dtype}'
  obs.sample(what=what)
  m = cls(metrics, state, UNIT, **kw)
  pt, se = results(rng, m, what, df, obs)
  base, tan, ok, _ = infer.tangents(metrics, state)
  check(set(pt) == set(base), f'{what}: {set(pt)}', 'keys')
  for k in base:
    for v, b in base[k].items():
      bv = b.values.astype(float)
      fin = np.isfinite(bv)
      loose = 100 if k == 'sedi' else 1
      scale = max(1e-3, np.abs(bv[fin]).max(initial=0))
      expect_close(pt[k][v].transpose(*b.dims).values[fin], bv[fin],
                   f'{what}: {k} {v} estimates', 'estimate',
                   rtol=5e-5 * loose, atol=2e-5 * loose * scale)
      x, good = tan[k][v], ok[k][v].all(axis=0) & fin
      want = own(x)
      with np.errstate(all='ignore'):
        size = np.sqrt((x * x).mean(axis=0, keepdims=True))
        change = 0
        for _ in range(3):
          change = np.maximum(change, np.abs(own(
              x + 1e-4 * size * rng.normal(size=x.shape)) - want))
        tol = 4e-3 * want + 5 * change + 2e-6 * scale
      got = se[k][v].transpose(*b.dims).values.astype(float)
      # Influence values of rounding size carry no information.
      good &= np.isfinite(want) & (size[0] > 1e-4 * scale) & (
          5 * change < .2 * want)
      if k == 'sedi':
        tol = tol + 2e-2 * want
      bad = good & ~(np.abs(got - want) <= tol)
      check(not bad.any(), lambda: f'{what}: {k} {v}: standard errors '
            f'{got[bad][:4]} want {want[bad][:4]}', f'stderr.{cls.__name__}')
      obs.ev(f'stderr.{cls.__name__}', int(good.sum()))
      obs.ev('stderrs', int(good.sum()))
  obs.mark(what)


class _Pick(metrics_base.Statistic):

  @property
  def unique_name(self):
    return 'pick'

  def compute(self, predictions, targets):
    return predictions


class _Mean(metrics_base.PerVariableMetric):
  """A metric that is a mean, as such or as a multiple plus a constant."""

  def __init__(self, a=1., b=0.):
    self._a, self._b = a, b

  @property
  def statistics(self):
    return {'A': _Pick()}

  def _values_from_mean_statistics_per_variable(self, s):
    return self._a * s['A'] + self._b


def series(rng, n, shape=()):
  """Series of different character, unit dimension first."""
  kind = int(rng.integers(5))
  e = rng.normal(size=(n,) + shape)
  if kind == 1:  # autoregressive
    p1, p2 = float(rng.uniform(-.3, .9)), float(rng.uniform(-.4, .09))
    for t in range(2, n):
      e[t] += p1 * e[t - 1] + p2 * e[t - 2]
  elif kind == 2:
    e = e + np.linspace(0, 4, n).reshape((n,) + (1,) * len(shape))
  elif kind == 3:
    e = np.exp(e)
  elif kind == 4:
    e = np.round(e)
  return e + float(rng.normal()), kind


def mk_state(x, u=None, dims=('lead',), w=None):
  n = len(x)
  u = np.arange(n) if u is None else u
  da = xr.DataArray(x, dims=(UNIT,) + tuple(dims)[:x.ndim - 1],
                    coords={UNIT: u})
  w = xr.ones_like(da) if w is None else da.copy(data=w)
  return aggregation.AggregationState({'pick': {'v': da * w}},
                                      {'pick': {'v': w}})


def classic(rng, obs):
  """Unweighted means against scipy.stats."""
  n = int(rng.integers(2, 60))
  k = int(rng.integers(1, 5))
  a, ka = series(rng, n, (k,))
  null = float(rng.normal())
  u = units(rng, n)
  if rng.random() < .5:
    m = t_test.IID({'m': _Mean()}, mk_state(a, u), UNIT)
    want = scipy.stats.ttest_1samp(a, null, axis=0)
    alpha = float(rng.uniform(.01, .5))
    ci = want.confidence_interval(1 - alpha)
    tag = 'one'
  else:
    b, _ = series(rng, n, (k,))
    b = .5 * a + .5 * b
    m = t_test.IID.for_baseline_comparison(
        {'m': _Mean()}, mk_state(a, u), mk_state(b, u),
        experimental_unit_dim=UNIT)
    null = 0.
    want = scipy.stats.ttest_rel(a, b, axis=0)
    alpha = float(rng.uniform(.01, .5))
    ci = want.confidence_interval(1 - alpha)
    tag = 'paired'
  what = f'{tag} n={n} kind={ka} null={null:.3f}'
  p = m.p_values(null)['m']['v'].values
  ok = ~np.isnan(want.pvalue) & (np.abs(want.statistic) < 1e4)
  lo, hi = (x['m']['v'].values for x in m.confidence_intervals(alpha))
  expect_close(p[ok], want.pvalue[ok], f'{what}: p-values', 'classic.p',
               rtol=2e-3, atol=2e-5)
  expect_close(lo[ok], ci.low[ok], f'{what}: lower', 'classic.ci', rtol=1e-4,
               atol=1e-4)
  expect_close(hi[ok], ci.high[ok], f'{what}: upper', 'classic.ci', rtol=1e-4,
               atol=1e-4)
  obs.ev('classic', int(ok.sum()))
  obs.mark(what)


def synthetic(rng, obs):
  """All methods on series of different character, with weights."""
  n = int(rng.integers(3, 80))
  x, kind = series(rng, n, (3,))
  w = (.2 + rng.random((n, 3))) if rng.random() < .5 else np.ones((n, 3))
  u = units(rng, n)
  name, cls, kw, own, df = method(rng, n)
  a, b = float(rng.choice([-3., .5, 1.])), float(rng.normal())
  m = cls({'m': _Mean(a, b)}, mk_state(x, u, w=w), UNIT, **kw)
  what = f'{name} n={n} kind={kind} a={a} weighted={bool((w != 1).any())}'
  pt, se = results(rng, m, what, df, obs)
  mean = (x * w).sum(0) / w.sum(0)
  inf = a * w * (x - mean) / w.mean(0)
  expect_close(pt['m']['v'].values, a * mean + b, f'{what}: estimates',
               'synthetic.estimate', rtol=1e-4, atol=1e-4)
  want, got = own(inf), se['m']['v'].values
  change = np.abs(own(inf + 1e-5 * inf.std(0) * rng.normal(
      size=inf.shape)) - want)
  ok = np.isfinite(want) & (10 * change < .1 * want)
  bad = ok & ~(np.abs(got - want) <= 1e-3 * want + 10 * change)
  check(not bad.any(), f'{what}: standard errors {got} want {want}',
        f'stderr.{cls.__name__}')
  obs.ev(f'stderr.{cls.__name__}', int(ok.sum()))
  obs.ev('synthetic', int(ok.sum()))
  obs.mark(what)


def relations(rng, obs):
  """Metamorphic relations between tests of related series."""
  n = int(rng.integers(4, 40))
  x, kind = series(rng, n, (2,))
  y, _ = series(rng, n, (2,))
  u = units(rng, n)
  name, cls, kw, own, df = method(rng, n)
  what = f'{name} n={n} kind={kind}'
  run = lambda z, **k: cls({'m': _Mean(**k)}, mk_state(z, u), UNIT, **kw)
  pair = lambda p, q: cls.for_baseline_comparison(
      {'m': _Mean()}, mk_state(p, u), mk_state(q, u),
      experimental_unit_dim=UNIT, **kw)
  get = lambda m: (m.point_estimates()['m']['v'].values.astype(float),
                   m.standard_error_estimates()['m']['v'].values.astype(float),
                   m.p_values()['m']['v'].values)
  e0, s0, p0 = get(run(x))
  # Geer's factor may be ill-conditioned.
  change = np.abs(own(x + 1e-4 * rng.normal(size=x.shape)) - own(x))
  ok = np.isfinite(s0) & (change < 1e-2 * s0)
  near = lambda a, b, msg, key, tol=2e-3: check(
      bool((np.abs(a - b)[ok] <= (tol * (np.abs(b) + np.abs(s0))
                                  + 10 * change)[ok]).all()),
      f'{what}: {msg}: {a} {b}', key)
  c = float(rng.choice([-2., 4., .25]))
  e, s, p = get(run(c * x))
  near(e / c, e0, 'scaled estimate', 'relation.scale')
  near(s / abs(c), s0, 'scaled error', 'relation.scale')
  e, s, _ = get(run(x + 5))
  near(e - 5, e0, 'shifted estimate', 'relation.shift')
  near(s, s0, 'shifted error', 'relation.shift')
  e, s, _ = get(run(x[::-1]))
  near(s, s0, 'reversed series', 'relation.reversal')
  e, s, _ = get(pair(x, np.zeros_like(x)))
  near(e, e0, 'against zero', 'relation.zero')
  near(s, s0, 'error against zero', 'relation.zero')
  if ok.all():
    a, b = get(pair(x, y)), get(pair(y, x))
    d = np.abs(own(x - y + 1e-4 * rng.normal(size=x.shape)) - own(x - y))
    good = np.isfinite(a[1]) & (d < 1e-2 * a[1])
    for i, sgn, msg in ((0, -1, 'estimate'), (1, 1, 'error')):
      t = (2e-3 * (np.abs(a[i]) + np.abs(a[1])) + 10 * d)[good]
      check(bool((np.abs(a[i] - sgn * b[i])[good] <= t).all()),
            f'{what}: swapped {msg}: {a[i]} {b[i]}', 'relation.swap')
    want = own(x - y)
    check(bool((np.abs(a[1] - want)[good] <= (4e-3 * want + 10 * d)[good]
                ).all()), f'{what}: paired error {a[1]} want {want}',
          'relation.paired')
    obs.ev('paired')
  z = x[rng.permutation(n)]
  near(get(t_test.IID({'m': _Mean()}, mk_state(z, u), UNIT))[1],
       stderr_iid(x), 'permuted series (iid)', 'relation.permutation')
  full = t_test.LazarusHACEWC({'m': _Mean()}, mk_state(x, u), UNIT, v_0=1e6)
  near(full.standard_error_estimates()['m']['v'].values, stderr_iid(x),
       'all frequencies', 'relation.all_frequencies')
  alphas = np.sort(rng.uniform(.001, .99, 3))
  m = run(x)
  cis = [m.confidence_intervals(float(al)) for al in alphas]
  for (l1, h1), (l2, h2) in zip(cis, cis[1:]):
    g = ok
    check(bool((l1['m']['v'].values <= l2['m']['v'].values)[g].all()
               and (h1['m']['v'].values >= h2['m']['v'].values)[g].all()),
          f'{what}: intervals not nested for {alphas}', 'relation.nested')
  obs.ev('relations', int(ok.sum()))
  obs.mark(what, c)


def degenerate(rng, obs):
  """Constant series, identical systems and missing values."""
  n = int(rng.integers(3, 20))
  u = units(rng, n)
  name, cls, kw, own, df = method(rng, n)
  what = f'{name} n={n}'
  x, _ = series(rng, n, (3,))
  m = cls.for_baseline_comparison({'m': _Mean()}, mk_state(x, u),
                                  mk_state(x.copy(), u),
                                  experimental_unit_dim=UNIT, **kw)
  one = lambda tree: tree['m']['v'].values
  check(bool((one(m.point_estimates()) == 0).all()
             and (one(m.standard_error_estimates()) == 0).all()
             and (one(m.p_values()) == 1).all()
             and not one(m.significance_tests()).any()),
        f'{what}: a system differs from itself: {one(m.p_values())}', 'same')
  lo, hi = m.confidence_intervals()
  check(bool((one(lo) == 0).all() and (one(hi) == 0).all()),
        f'{what}: interval of a system against itself', 'same')
  obs.ev('same')
  c = float(rng.choice([1., -2., .5]))
  m = cls({'m': _Mean()}, mk_state(np.full((n, 3), c), u), UNIT, **kw)
  check(bool((one(m.standard_error_estimates()) <= 1e-6).all()
             and (one(m.p_values(0.)) <= 1e-6).all()
             and one(m.significance_tests(0.)).all()
             and (np.abs(one(m.point_estimates()) - c) <= 1e-6).all()),
        f'{what}: constant {c}: p {one(m.p_values(0.))}', 'constant')
  m = cls({'m': _Mean()}, mk_state(np.full((n, 3), c), u), UNIT, **kw)
  check(bool((one(m.p_values(c)) == 1).all()),
        f'{what}: constant {c} against itself {one(m.p_values(c))}',
        'constant')
  obs.ev('constant')
  y = x.copy()
  i = int(rng.integers(n))
  y[i, 1] = np.nan
  a = cls({'m': _Mean()}, mk_state(x, u), UNIT, **kw)
  b = cls({'m': _Mean()}, mk_state(y, u), UNIT, **kw)
  for f in ('point_estimates', 'standard_error_estimates', 'p_values'):
    g, w = one(getattr(b, f)()), one(getattr(a, f)())
    check(np.isnan(g[1]), f'{what}: {f} with unit {i} missing: {g}',
          'missing.lost')
    expect_close(g[[0, 2]], w[[0, 2]], f'{what}: others {f}',
                 'missing.spread', rtol=1e-4, atol=1e-6)
  check(not one(b.significance_tests())[1], f'{what}: missing result is '
        'significant', 'missing.significant')
  obs.ev('missing')
  obs.mark(what, i, c)


def refused(rng, obs):
  """Irregular steps are refused by methods for time series only."""
  n = int(rng.integers(5, 15))
  x, _ = series(rng, n, (2,))
  keep = np.sort(gen_drop(rng, n))
  full = [np.arange(n) * 3 + 1, np.arange(n) * .25 - 1,
          np.arange(n) * np.timedelta64(6, 'h').astype('m8[ns]')]
  j = int(rng.integers(len(full)))
  u = full[j][keep]
  st = mk_state(x[keep], u)
  v0 = float(rng.choice([.4, 3.]))
  for cls, kw in ((t_test.GeerAR2Corrected, {}),
                  (t_test.LazarusHACEWC, {'v_0': v0})):
    expect_raises(lambda: cls({'m': _Mean()}, st, UNIT, **kw),
                  f'{cls.__name__} with units {u}', 'irregular', ValueError)
    cls({'m': _Mean()}, mk_state(x, full[j]), UNIT, **kw)
    obs.ev('irregular')
  m = t_test.IID({'m': _Mean()}, st, UNIT)
  expect_close(m.standard_error_estimates()['m']['v'].values,
               stderr_iid(x[keep]), 'iid with irregular units', 'irregular.iid',
               rtol=1e-4)
  other = mk_state(x[keep], full[j][:len(keep)])
  if not (other.sum_weights['pick']['v'][UNIT].values == u).all():
    for cls in (t_test.IID, t_test.GeerAR2Corrected, t_test.LazarusHACEWC):
      expect_raises(lambda: cls.for_baseline_comparison(
          {'m': _Mean()}, st, other, experimental_unit_dim=UNIT),
          'systems evaluated on different units', 'unpaired', ValueError)
      obs.ev('unpaired')
  short = mk_state(x[keep][:-1], u[:-1])
  expect_raises(lambda: t_test.IID.for_baseline_comparison(
      {'m': _Mean()}, st, short, experimental_unit_dim=UNIT),
      'systems with different numbers of units', 'unpaired', ValueError)
  obs.mark('refused', n, j, tuple(keep))


def irregular_dates(rng, obs):
  """Initialization times with a gap (known finding: they are accepted)."""
  n = int(rng.integers(5, 15))
  x, _ = series(rng, n, (2,))
  keep = np.sort(gen_drop(rng, n))
  full = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(
      int(rng.choice([6, 12, 24])), 'h')
  for cls in (t_test.GeerAR2Corrected, t_test.LazarusHACEWC):
    cls({'m': _Mean()}, mk_state(x, full), UNIT)
  obs.ev('regular_dates')
  obs.mark('dates', n, tuple(keep))
  for cls in (t_test.GeerAR2Corrected, t_test.LazarusHACEWC):
    expect_raises(lambda: cls({'m': _Mean()}, mk_state(x[keep], full[keep]),
                              UNIT),
                  f'{cls.__name__} with units {full[keep]}',
                  'irregular.datetime', ValueError)


def gen_drop(rng, n):
  """Positions left after dropping a unit from the middle."""
  gone = int(rng.integers(1, n - 1))
  return np.array([i for i in range(n) if i != gone])


def coverage(rng, obs):
  """Intervals contain the true value as often as they claim."""
  n, k, alpha = int(rng.integers(3, 25)), 4000, float(rng.uniform(.05, .4))
  x = rng.normal(size=(n, k)) + 1.5
  m = t_test.IID({'m': _Mean()}, mk_state(x), UNIT)
  lo, hi = (t['m']['v'].values for t in m.confidence_intervals(alpha))
  f = ((lo <= 1.5) & (1.5 <= hi)).mean()
  tol = 6 * np.sqrt(alpha * (1 - alpha) / k)
  check(abs(f - (1 - alpha)) < tol, f'iid n={n} alpha={alpha:.3f}: coverage '
        f'{f:.4f}', 'coverage')
  p = m.p_values(1.5)['m']['v'].values
  d = np.abs(np.sort(p) - (np.arange(k) + .5) / k).max()
  check(d < 2.5 / np.sqrt(k), f'iid n={n}: p-values not uniform under the '
        f'null: {d:.4f}', 'uniform')
  # With autocorrelation, the corrected methods must stay close.
  n, k = 600, 800
  p1, p2 = float(rng.uniform(-.2, .5)), float(rng.uniform(-.3, .2))
  e = rng.normal(size=(n + 100, k))
  for t in range(2, n + 100):
    e[t] += p1 * e[t - 1] + p2 * e[t - 2]
  e = e[100:]
  for cls in (t_test.GeerAR2Corrected, t_test.LazarusHACEWC):
    m = cls({'m': _Mean()}, mk_state(e), UNIT)
    lo, hi = (t['m']['v'].values for t in m.confidence_intervals(.2))
    f = ((lo <= 0) & (0 <= hi)).mean()
    check(abs(f - .8) < .09, f'{cls.__name__} on AR({p1:.2f},{p2:.2f}): '
          f'coverage {f:.3f} for .8', 'coverage.ar')
    obs.ev('ar_coverage')
  obs.ev('coverage')
  obs.mark('coverage', n, alpha)


SCENARIOS = {'formulas': (formulas, 90, 1500),
             'classic': (classic, 30, 500),
             'synthetic': (synthetic, 60, 1000),
             'relations': (relations, 24, 400),
             'degenerate': (degenerate, 24, 400),
             'refused': (refused, 16, 200),
             'irregular_dates': (irregular_dates, 4, 20),
             'coverage': (coverage, 4, 60)}
MIN = {'results': (800, 12000), 'stderrs': (250, 4000),
       'stderr.IID': (100, 1500), 'stderr.GeerAR2Corrected': (60, 1000),
       'stderr.LazarusHACEWC': (100, 1500), 'classic': (50, 800),
       'synthetic': (120, 2000), 'relations': (30, 500), 'paired': (12, 200),
       'same': (24, 400), 'constant': (24, 400), 'missing': (24, 400),
       'irregular': (32, 400), 'unpaired': (30, 400), 'coverage': (4, 60)}
