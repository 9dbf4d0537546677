"""C23: bootstrap replicates are the metric on resampled units."""

import math

import arch.bootstrap
import numpy as np
import xarray as xr
from wbx import infer
from wbx.core import check, expect_close, expect_raises
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.statistical_inference import autodiff
from weatherbenchX.statistical_inference import bootstrap

RULE = ('aggregated per-unit states of random worlds and synthetic series, '
        'carrying an extra statistic that encodes the identity of each unit, '
        'so that the draw behind every replicate is read off the result; '
        'draws are checked against the multinomial, cluster and stationary '
        'schemes and every replicate against the metric of the decoded '
        'resample; summaries against own order statistics; fingerprint = '
        '(method, metrics, units, replicates, options)')
ASSUMPTIONS = [
    'random draws are judged at six standard errors',
    'two runs with the same numpy seed, on series of the same length with the '
    'same block length, draw the same resamples; so do all series of one run '
    'that have a common, given block length',
    'with a missing statistic, only replicates that draw it have to be '
    'missing']
CASE_TIMEOUT = 300
UNIT = infer.UNIT
REP = 'bootstrap_replicate'


class _Pick(metrics_base.Statistic):

  def __init__(self, name):
    self._name = name

  @property
  def unique_name(self):
    return self._name

  def compute(self, predictions, targets):
    return predictions


class _Id(metrics_base.PerVariableMetric):

  def __init__(self, name='pick'):
    self._name = name

  @property
  def statistics(self):
    return {'A': _Pick(self._name)}

  def _values_from_mean_statistics_per_variable(self, s):
    return s['A']


class _Coded(metrics_base.PerVariableMetric):
  """Code of the draw, plus a nonlinear value between 0 and 1."""

  def __init__(self, n):
    self._n = n

  @property
  def statistics(self):
    return {'A': _Pick('a'), 'B': _Pick('b'), 'code': _Pick('code')}

  def _values_from_mean_statistics_per_variable(self, s):
    return s['A'] / (s['A'] + s['B']) + self._n * s['code']


def merge(*states):
  ws, w = {}, {}
  for s in states:
    ws.update(s.sum_weighted_statistics)
    w.update(s.sum_weights)
  return aggregation.AggregationState(ws, w)


def one(name, x, w=None, var='v'):
  w = xr.ones_like(x) if w is None else w
  return aggregation.AggregationState({name: {var: x * w}}, {name: {var: w}})


def probe(u, extra=None):
  """A statistic whose mean gives the share of each unit in a resample."""
  n = len(u)
  x = xr.DataArray(np.eye(n), dims=[UNIT, 'which'],
                   coords={UNIT: u, 'which': np.arange(n), **(extra or {})})
  w = xr.DataArray(np.ones(n), dims=[UNIT], coords={UNIT: u, **(extra or {})})
  return aggregation.AggregationState({'pick': {'v': x}}, {'pick': {'v': w}})


def resample(tree, counts, dim=UNIT):
  """Sums over resampled units, written out."""
  c = xr.DataArray(counts, dims=['rep', dim])

  def f(x):
    y = xr.DataArray(np.tensordot(counts.astype(float), x.transpose(
        dim, ...).values.astype(float), axes=(1, 0)),
                     dims=['rep'] + [d for d in x.dims if d != dim])
    return y.assign_coords({d: x[d] for d in y.dims if d in x.coords})

  del c
  return {s: {v: f(x) for v, x in vs.items()} for s, vs in tree.items()}


def expected(metrics, state, counts):
  num = resample(state.sum_weighted_statistics, counts)
  den = resample(state.sum_weights, counts)
  return infer.value(metrics, num, den)


def compare(got, want, n_rep, what, obs, key='replicate'):
  """Replicates of one metric against the metric of the resamples."""
  check(set(got) == set(want), f'{what}: variables {set(got)}', 'keys')
  for v, w in want.items():
    g = got[v]
    check(isinstance(g, xr.DataArray), f'{what} {v}: replicates in a '
          f'{type(g).__name__}', 'type')
    check(set(g.dims) == set(w.dims) - {'rep'} | {REP},
          f'{what} {v}: dims {g.dims}', 'dims')
    check(g.sizes[REP] == n_rep, f'{what} {v}: {g.sizes[REP]} replicates, '
          f'not {n_rep}', 'count')
    w = w.rename(rep=REP)
    for d in w.dims:
      if d in w.coords and d != REP:
        check(d in g.coords, f'{what} {v}: no labels of {d}', 'labels')
        g = g.sel({d: w[d]})
    a, b = g.transpose(*w.dims).values.astype(float), w.values.astype(float)
    tol = 1e-7 * np.nanmax(np.abs(b[np.isfinite(b)]), initial=1e-9) + (
        1e-5 * np.abs(b) if g.dtype == np.float32 else 1e-7 * np.abs(b))
    with np.errstate(invalid='ignore'):
      bad = ~((np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b)))
    check(not bad.any(), lambda: f'{what} {v}: {bad.sum()} of {bad.size} '
          f'replicates wrong: {a[bad][:4]} want {b[bad][:4]}', key)
    obs.ev('replicates', b.size)


def sqrt_cancel(metrics):
  """Metrics that take roots of differences, where rounding decides NaN."""
  return {m: x for m, x in metrics.items() if m not in ('ssr', 'umse')}


def world_state(rng, n, k=2):
  while True:
    metrics, state, desc = infer.make(rng, n_units=n, k=k)
    metrics = sqrt_cancel(metrics)
    if metrics:
      # Some statistics come in single precision.
      return metrics, state.map(lambda x: x.astype(float)), desc


def summaries(rng, m, what, obs, skip=()):
  """Errors, intervals, p-values and significance from the replicates."""
  rv, pt = m.resampled_values, m.point_estimates()
  se = m.standard_error_estimates()
  alpha = float(rng.choice([.05, .1, .5, float(rng.uniform(.01, .9))]))
  lo, hi = (m.confidence_intervals(alpha) if alpha != .05 else
            m.confidence_intervals())
  for k in pt:
    if k in skip:
      continue
    for v in pt[k]:
      for t in (rv, se, lo, hi):
        check(isinstance(t[k][v], xr.DataArray),
              f'{what}: {k} {v} in a {type(t[k][v]).__name__}', 'type')
      dims = [d for d in rv[k][v].dims if d != REP]
      r = rv[k][v].transpose(REP, *dims)
      x = r.values.astype(float)
      al = lambda t: t[k][v].transpose(*dims).values.astype(float)
      fin = x[np.isfinite(x)]
      some = float(rng.choice(fin)) if fin.size else 0.
      null = [0., some, float(rng.normal())][int(rng.integers(3))]
      tag = f'{what}: {k} {v} alpha={alpha:.3f} null={null:.4g}'
      p, sig = al(m.p_values(null)), al(m.significance_tests(null, alpha))
      s, l, h = al(se), al(lo), al(hi)
      for ix in np.ndindex(*x.shape[1:]):
        d = x[(slice(None),) + ix]
        d = np.sort(d[~np.isnan(d)])
        if not len(d):
          check(bool(np.isnan([s[ix], l[ix], h[ix], p[ix]]).all())
                and not sig[ix], f'{tag}: results without replicates',
                'summary.none')
          obs.ev('without_replicates')
          continue
        if not np.isfinite(d).all() or len(d) < 2:
          continue
        n, scale = len(d), np.abs(d).max()
        mean = math.fsum(d) / n
        want = math.sqrt(math.fsum((d - mean)**2) / (n - 1))
        f32 = rv[k][v].dtype == np.float32
        tol = (1e-4 if f32 else 1e-9)
        check(abs(s[ix] - want) <= tol * (want + scale),
              f'{tag}: standard error {s[ix]} want {want}', 'summary.error')
        for q, got in ((alpha / 2, l[ix]), (1 - alpha / 2, h[ix])):
          pos = q * (n - 1)
          i = min(int(pos), n - 2)
          want = d[i] + (pos - i) * (d[i + 1] - d[i])
          check(abs(got - want) <= tol * scale + 1e-12,
                f'{tag}: quantile {q} of {n}: {got} want {want}',
                'summary.interval')
        # Probabilities for which the null value is a quantile.
        j = np.searchsorted(d, null, side='right') - 1
        up = (0. if j < 0 else 1. if j == n - 1 else
              (j + (null - d[j]) / (d[j + 1] - d[j])) / (n - 1))
        i = np.searchsorted(d, null, side='left')
        low = (0. if i == 0 else 1. if i == n else
               (i - (d[i] - null) / (d[i] - d[i - 1])) / (n - 1))
        want = min(1., 2 * min(up, 1 - low))
        check(abs(p[ix] - want) <= 1e-6, f'{tag}: p-value {p[ix]} want {want} '
              f'for {d[:5]}..{d[-5:]}', 'summary.p_value')
        check(bool(sig[ix]) == bool(p[ix] <= alpha),
              f'{tag}: significant {sig[ix]} at p={p[ix]}',
              'summary.significance')
        gap = 1e-6 * scale
        if abs(p[ix] - alpha) > 1e-6 and (
            min(abs(l[ix] - null), abs(h[ix] - null)) > gap
            or up > low):
          inside = l[ix] - gap <= null <= h[ix] + gap
          check(inside == (p[ix] > alpha), f'{tag}: interval [{l[ix]}, '
                f'{h[ix]}] but p={p[ix]}', 'summary.duality')
        obs.ev('summaries')
        obs.ev('tied_nulls', int(up > low))
        obs.ev('skipped_replicates', int(len(d) < x.shape[0]))


def estimates(m, metrics, state, what, exact, obs):
  """Point estimates are those of an evaluation of all units."""
  want = infer.value(metrics, *infer.total(state))
  got = m.point_estimates()
  check(set(got) == set(want), f'{what}: metrics {set(got)}', 'keys')
  for k in want:
    check(set(got[k]) == set(want[k]), f'{what}: variables of {k}', 'keys')
    for v, w in want[k].items():
      g = got[k][v].transpose(*w.dims).values.astype(float)
      w = w.values.astype(float)
      s = np.abs(w[np.isfinite(w)]).max(initial=0)
      r = 1e-6 if exact else 5e-5
      if k == 'sedi':
        r *= 200
      expect_close(g, w, f'{what}: estimates of {k} {v}', 'estimate',
                   rtol=r, atol=r * max(s, 1e-3))
      obs.ev('estimates', w.size)


def multinomial(counts, n, what, obs):
  """The draws of independent units look like multinomial draws."""
  r = len(counts)
  if r < 30:
    return
  tot = counts.sum(axis=0)
  sd = math.sqrt(r * n * (1 / n) * (1 - 1 / n)) if n > 1 else 0
  check(bool((np.abs(tot - r) <= 7 * sd + 3).all()),
        f'{what}: units drawn {tot.tolist()} times in {r} replicates',
        'draws.uniform')
  if n < 2:
    return
  # Variance of counts: mean square deviation from one.
  msd = ((counts - 1.)**2).sum(axis=1)
  want = n - 1
  k4 = math.sqrt(2. * (n - 1))
  check(abs(msd.mean() - want) <= 6 * k4 / math.sqrt(r) + 1e-9,
        f'{what}: variance of counts {msd.mean() / n} for {want / n}',
        'draws.variance')
  # Replicates are drawn independently.
  dev = counts - 1.
  lag = (dev[1:] * dev[:-1]).sum(axis=1)
  check(abs(lag.mean()) <= 6 * math.sqrt(n - 1) / math.sqrt(r - 1),
        f'{what}: successive replicates correlate: {lag.mean()}',
        'draws.independent')
  obs.ev('multinomial')


def iid(rng, obs):
  """Independent resampling of units."""
  n = int(rng.integers(2, 16))
  metrics, state, desc = world_state(rng, n)
  some = next(iter(next(iter(state.sum_weights.values())).values()))
  u = some[UNIT].values
  full = {**metrics, 'probe': _Id()}
  state = merge(state, probe(u))
  r = int(rng.choice([1, 7, 40, 300]))
  np.random.seed(int(rng.integers(2**31)))
  m = bootstrap.IIDBootstrap(full, state, UNIT, n_replicates=r)
  what = f'iid {desc} replicates={r}'
  obs.sample(what=what)
  rv = m.resampled_values
  c = rv['probe']['v'].transpose(REP, 'which').values * n
  counts = np.round(c).astype(int)
  check(c.shape == (r, n) and bool((np.abs(c - counts) < 1e-6).all())
        and bool((counts >= 0).all()) and bool((counts.sum(1) == n).all()),
        f'{what}: not draws of {n} units: {c[:3]}', 'draws.whole')
  multinomial(counts, n, what, obs)
  obs.ev('draws', r)
  obs.ev('distinct_draws', len(np.unique(counts, axis=0)))
  want = expected(metrics, state, counts)
  for k in metrics:
    compare(rv[k], want[k], r, f'{what} {k}', obs)
  estimates(m, full, state, what, True, obs)
  summaries(rng, m, what, obs)
  obs.mark(what)


def cluster(rng, obs):
  """Whole clusters are resampled."""
  n = int(rng.integers(3, 16))
  metrics, state, desc = world_state(rng, n)
  some = next(iter(next(iter(state.sum_weights.values())).values()))
  u = some[UNIT].values
  k = int(rng.integers(1, n + 1))
  ids = rng.permutation(np.concatenate([np.arange(k),
                                        rng.integers(k, size=n - k)]))
  kind = int(rng.integers(4))
  labels = [np.array([f'c{9 - i}' for i in range(20)])[ids] if k <= 10
            else ids * 7, ids * 1.5 - 3, ids.astype(int) - 4,
            np.datetime64('2020-01-01', 'ns')
            + ids * np.timedelta64(1, 'D')][kind]
  full = {**metrics, 'probe': _Id()}
  state = merge(state, probe(u))
  if rng.random() < .15:  # the units themselves
    ids, k, name = np.arange(n), n, UNIT
  else:
    name = 'group'
    f = lambda tree: {s: {v: x.assign_coords(group=(UNIT, labels))
                          for v, x in vs.items()} for s, vs in tree.items()}
    state = aggregation.AggregationState(f(state.sum_weighted_statistics),
                                         f(state.sum_weights))
  r = int(rng.choice([1, 7, 40, 300]))
  m = bootstrap.ClusterBootstrap(full, state, name, n_replicates=r)
  what = f'cluster {desc} replicates={r} clusters={ids.tolist()} {kind}'
  obs.sample(what=what)
  rv = m.resampled_values
  share = rv['probe']['v'].transpose(REP, 'which').values
  first = [int(np.argmax(ids == i)) for i in range(k)]
  check(bool((np.abs(share - share[:, first][:, ids]) < 1e-9).all()),
        f'{what}: units of a cluster drawn differently: {share[:2]}',
        'draws.cluster')
  c = share[:, first] * (k / share[:, first].sum(1, keepdims=True))
  cc = np.round(c).astype(int)
  check(bool((np.abs(c - cc) < 1e-6).all()) and bool((cc >= 0).all())
        and bool((cc.sum(1) == k).all()),
        f'{what}: not draws of {k} clusters: {c[:3]}', 'draws.whole')
  multinomial(cc, k, what, obs)
  obs.ev('cluster_draws', r)
  obs.ev('unequal', int(len(set(np.bincount(ids))) > 1))
  want = expected(metrics, state, cc[:, ids])
  for q in metrics:
    compare(rv[q], want[q], r, f'{what} {q}', obs, 'cluster.replicate')
  estimates(m, full, state, what, True, obs)
  summaries(rng, m, what, obs)
  obs.mark(what)


def decode(total, n):
  """Counts of units from the integer sum of their codes."""
  out, rest = [], np.round(total).astype(np.int64)
  for _ in range(n):
    out.append(rest % (n + 1))
    rest = rest // (n + 1)
  check(bool((rest == 0).all()), 'code out of range', 'draws.whole')
  return np.stack(out, axis=-1)


def codes(u):
  n = len(u)
  x = xr.DataArray((n + 1.)**np.arange(n), dims=[UNIT], coords={UNIT: u})
  return one('code', x)


def stationary(rng, obs):
  """Given block lengths: draws, replicates and their variance."""
  n = int(rng.integers(2, 11))
  metrics, state, desc = world_state(rng, n)
  some = next(iter(next(iter(state.sum_weights.values())).values()))
  u = some[UNIT].values
  length = float([1., 2., 3.5, n, 1e12][int(rng.integers(5))])
  full = {**metrics, 'code': _Id('code')}
  state = merge(state, codes(u))
  r = int(rng.choice([1, 7, 40]))
  seed = int(rng.integers(2**31))
  np.random.seed(seed)
  m = bootstrap.StationaryBootstrap(full, state, UNIT, n_replicates=r,
                                    mean_block_length=length)
  what = f'stationary {desc} replicates={r} length={length:g}'
  obs.sample(what=what)
  rv = m.resampled_values
  counts = decode(rv['code']['v'].values * n, n)
  check(bool((counts.sum(1) == n).all()), f'{what}: {counts[:3]}',
        'draws.whole')
  if length == 1e12:
    check(bool((counts == 1).all()), f'{what}: blocks do not wrap around: '
          f'{counts[:3]}', 'stationary.wrap')
    obs.ev('rotations', r)
  want = expected(metrics, state, counts)
  for k in metrics:
    compare(rv[k], want[k], r, f'{what} {k}', obs, 'stationary.replicate')
  estimates(m, full, state, what, False, obs)
  summaries(rng, m, what, obs, skip=('code',))
  np.random.seed(seed)
  again = bootstrap.StationaryBootstrap(full, state, UNIT, n_replicates=r,
                                        mean_block_length=length)
  for k in full:
    for v, x in rv[k].items():
      check(x.identical(again.resampled_values[k][v]),
            f'{what}: another run with the same seed differs', 'seed')
  obs.ev('stationary_draws', r)
  obs.mark(what)


def coded(rng, obs):
  """Numerators, weights and several statistics share one draw."""
  n = int(rng.integers(8, 10))
  u = np.arange(n) * 6
  lead = np.arange(int(rng.integers(1, 4))) * 12
  mk = lambda: xr.DataArray(.1 + rng.random((n, len(lead))),
                            dims=[UNIT, 'lead'],
                            coords={UNIT: u, 'lead': lead})
  code = xr.DataArray(np.repeat((n + 1.)**np.arange(n)[:, None], len(lead), 1),
                      dims=[UNIT, 'lead'], coords={UNIT: u, 'lead': lead})
  states, parts = [], {}
  variables = ['p', 'q'][:int(rng.integers(1, 3))]
  for s in ('a', 'b'):
    parts[s] = {v: (mk(), mk()) for v in variables}
    states.append(aggregation.AggregationState(
        {s: {v: x * w for v, (x, w) in parts[s].items()}},
        {s: {v: w for v, (x, w) in parts[s].items()}}))
  states.append(aggregation.AggregationState(
      {'code': {v: code for v in variables}},
      {'code': {v: xr.ones_like(code) for v in variables}}))
  state = merge(*states)
  auto = rng.random() < .5
  kw = {} if auto else {'mean_block_length': float(rng.uniform(1, 5))}
  if auto and rng.random() < .5:
    kw['block_length_rounding_resolution'] = None
  if rng.random() < .3:
    kw['stationary_bootstrap_indices_cache_size'] = int(rng.integers(1, 3))
  r = int(rng.choice([3, 30]))
  which = int(rng.integers(2))
  if which:
    m = bootstrap.StationaryBootstrap({'m': _Coded(n)}, state, UNIT,
                                      n_replicates=r, **kw)
  else:
    m = bootstrap.IIDBootstrap({'m': _Coded(n)}, state, UNIT, n_replicates=r)
  what = (f'{type(m).__name__} coded n={n} leads={len(lead)} '
          f'vars={variables} replicates={r} {kw if which else ""}')
  for v in variables:
    x = m.resampled_values['m'][v].sel(lead=lead).transpose(REP, 'lead').values
    counts = decode(np.floor(x + 1e-9), n)
    check(bool((counts.sum(-1) == n).all()), f'{what}: {counts[:2]}',
          'draws.whole')
    mean = {}
    for s in ('a', 'b'):
      y, w = (z.values for z in parts[s][v])
      mean[s] = (np.einsum('rli,il->rl', counts, y * w)
                 / np.einsum('rli,il->rl', counts, w))
    want = mean['a'] / (mean['a'] + mean['b'])
    got = x - np.floor(x + 1e-9)
    check(bool((np.abs(got - want) < 2e-6).all()), f'{what} {v}: values '
          f'{got.ravel()[:4]} of draws that give {want.ravel()[:4]}', 'joint')
    obs.ev('joint', want.size)
  obs.mark(what)


def pr_variance(x, length):
  """Exact variance of the mean of a stationary resample."""
  n = len(x)
  d = x - x.mean()
  p = min(1., 1 / length)
  k = np.arange(1, n)
  c = np.array([np.mean(d * np.roll(d, -j)) for j in range(n)])
  return (c[0] + 2 * ((1 - k / n) * (1 - p)**k * c[1:]).sum()) / n


def block_length(x):
  """The documented choice for a series, before rounding."""
  return max(1., arch.bootstrap.optimal_block_length(x).stationary.item())


def walk(rng, n, phi):
  e = rng.normal(size=n)
  for t in range(1, n):
    e[t] += phi * e[t - 1]
  return e


def variance(rng, obs):
  """Variance of replicates, with given and with chosen block lengths."""
  n = int(rng.integers(20, 60))
  phis = [0., .95, float(rng.uniform(-.5, .9))]
  u = np.arange(n)
  lead = np.array([6, 12, 24])[rng.permutation(3)]
  x = np.stack([walk(rng, n, phi) for phi in phis], 1)
  state = one('pick', xr.DataArray(x, dims=[UNIT, 'lead'],
                                   coords={UNIT: u, 'lead': lead}))
  r = 1500
  auto = rng.random() < .5
  length = None if auto else float(rng.choice([1., 3., 10.]))
  m = bootstrap.StationaryBootstrap({'m': _Id()}, state, UNIT, n_replicates=r,
                                    mean_block_length=length)
  rv = m.resampled_values['m']['v'].sel(lead=lead).transpose(
      REP, 'lead').values
  _, tan = autodiff.per_unit_values_linearized_around_mean_statistics(
      {'m': _Id()}, state, UNIT)
  tan = tan['m']['v'].transpose(UNIT, 'lead').values
  for i in range(3):
    own = length or block_length(tan[:, i])
    want, got = pr_variance(x[:, i], own), rv[:, i].var(ddof=1)
    # Rounding of the length changes it by four percent at most.
    slack = 0 if length else max(
        abs(pr_variance(x[:, i], own * f) - want) for f in (.96, 1.04))
    k = ((rv[:, i] - rv[:, i].mean())**4).mean() / got**2
    tol = 6 * want * math.sqrt(max(k - 1, 1) / r) + slack
    what = (f'stationary n={n} length={length} (own {own:.2f}) '
            f'phi={phis[i]:.2f}')
    check(abs(got - want) <= tol, f'{what}: variance of replicates {got} '
          f'want {want} (tolerance {tol})', 'stationary.variance')
    mean = rv[:, i].mean() - x[:, i].mean()
    check(abs(mean) <= 6 * math.sqrt(want / r), f'{what}: replicates off by '
          f'{mean}', 'stationary.mean')
    obs.ev('variances')
  obs.mark('variance', n, length, tuple(phis))


class _Root(metrics_base.PerVariableMetric):

  @property
  def statistics(self):
    return {'A': _Pick('a'), 'B': _Pick('b')}

  def _values_from_mean_statistics_per_variable(self, s):
    return s['A'] * s['A'] / s['B']


def automatic(rng, obs):
  """The chosen block length is that of the linearised series."""
  n = int(rng.integers(8, 80))
  u = np.arange(n)
  mk = lambda: xr.DataArray(
      3 + .3 * walk(rng, n, float(rng.choice([0, .5, .9]))), dims=[UNIT],
      coords={UNIT: u})
  if rng.random() < .1:
    mk = lambda: xr.DataArray(np.ones(n), dims=[UNIT], coords={UNIT: u})
  w = lambda: xr.DataArray(.5 + rng.random(n), dims=[UNIT], coords={UNIT: u})
  state = merge(one('a', mk(), w()), one('b', mk(), w()))
  metrics = {'m': _Root()}
  _, tan = autodiff.per_unit_values_linearized_around_mean_statistics(
      metrics, state, UNIT)
  with np.errstate(all='ignore'):
    own = block_length(tan['m']['v'].values)
  if math.isnan(own):
    own = 1.
  res = [30., None, 3.][int(rng.integers(3))]
  kw = {} if res == 30. else {'block_length_rounding_resolution': res}
  if res is not None:
    own = 10**(round(math.log10(own) * res) / res)
  seed = int(rng.integers(2**31))
  r = 50
  np.random.seed(seed)
  a = bootstrap.StationaryBootstrap(metrics, state, UNIT, n_replicates=r, **kw)
  np.random.seed(seed)
  b = bootstrap.StationaryBootstrap(metrics, state, UNIT, n_replicates=r,
                                    mean_block_length=own)
  x, y = (q.resampled_values['m']['v'].values for q in (a, b))
  check(bool(np.array_equal(x, y)), f'n={n} resolution={res}: replicates are '
        f'not those of block length {own:.3f}', 'automatic')
  np.random.seed(seed)
  other = bootstrap.StationaryBootstrap(metrics, state, UNIT, n_replicates=r,
                                        mean_block_length=own * 1.5 + 1)
  obs.ev('automatic')
  obs.ev('automatic_distinct', int(not np.array_equal(
      x, other.resampled_values['m']['v'].values)))
  obs.mark('auto', n, res, round(own, 2))


def indices(rng, obs):
  """Structure of stationary bootstrap indices."""
  f = getattr(bootstrap, 'stationary_bootstrap_indices', None)
  if f is None:
    return
  n, r = int(rng.integers(2, 60)), 400
  length = float(rng.choice([1., 2., 5., float(rng.uniform(1, 20))]))
  x = f(n_data=n, mean_block_length=length, n_replicates=r)
  what = f'indices n={n} length={length:.2f}'
  check(x.shape == (n, r) and x.min() >= 0 and x.max() < n,
        f'{what}: {x.shape} in [{x.min()}, {x.max()}]', 'indices.range')
  follow = x[1:] == (x[:-1] + 1) % n
  p = 1 / length
  q = (1 - p) + p / n
  sd = math.sqrt(q * (1 - q) / follow.size)
  check(abs(follow.mean() - q) <= 6 * sd + 1e-9, f'{what}: successors in '
        f'{follow.mean():.4f} of the steps, expected {q:.4f}',
        'indices.blocks')
  each = np.bincount(x[0], minlength=n)
  check(bool((np.abs(each - r / n) <= 6 * math.sqrt(r / n) + 4).all()),
        f'{what}: starts {each.tolist()}', 'indices.starts')
  pos = np.stack([(x == i).sum(axis=1) for i in range(n)], 1)
  dev = np.abs(pos - r / n).max()
  check(dev <= 7 * math.sqrt(r / n) + 5, f'{what}: some unit is drawn '
        f'{pos.max()} or {pos.min()} times at some position (expected '
        f'{r / n:.1f})', 'indices.uniform')
  jumps = np.where(~follow, x[1:], -1)
  j = np.bincount(jumps[jumps >= 0], minlength=n)
  tot = j.sum()
  if tot > 50:
    check(bool((np.abs(j - tot / n) <= 6 * math.sqrt(tot / n) + 4).all()),
          f'{what}: jumps to {j.tolist()}', 'indices.jumps')
  # Replicates evolve independently of each other.
  both = (follow[:, 1:] == follow[:, :-1]).mean()
  want = q * q + (1 - q)**2
  check(abs(both - want) <= 6 * math.sqrt(.25 / both.size / (n - 1) / r) + 1e-9
        if q < 1 else True, f'{what}: replicates jump together ({both:.3f}, '
        f'{want:.3f})', 'indices.independent')
  obs.ev('steps', follow.size)
  obs.mark('indices', n, round(length, 2))


def ties(rng, obs):
  """Discrete and missing replicates: summaries with ties and NaN."""
  n = int(rng.integers(2, 8))
  u = np.arange(n)
  k = 3
  x = xr.DataArray(rng.integers(-1, 2, (n, k)).astype(float),
                   dims=[UNIT, 'lead'], coords={UNIT: u})
  w = np.ones((n, k))
  if rng.random() < .5:
    w = (rng.random((n, k)) < .5).astype(float)
  w = x.copy(data=w)
  kind = int(rng.integers(3))
  r = int(rng.choice([2, 5, 50]))
  state = one('pick', x, w)
  if kind == 0:
    m = bootstrap.IIDBootstrap({'m': _Id()}, state, UNIT, n_replicates=r)
  elif kind == 1:
    m = bootstrap.ClusterBootstrap({'m': _Id()}, state, UNIT, n_replicates=r)
  else:
    m = bootstrap.StationaryBootstrap({'m': _Id()}, state, UNIT,
                                      n_replicates=r,
                                      mean_block_length=float(
                                          rng.uniform(1, 4)))
  what = f'{type(m).__name__} ties n={n} replicates={r}'
  for _ in range(3):
    summaries(rng, m, what, obs)
  # A system compared with itself.
  same = type(m).for_baseline_comparison(
      {'m': _Id()}, one('pick', x), one('pick', x.copy()), n_replicates=r,
      **({'experimental_unit_coord': UNIT} if kind == 1 else
         {'experimental_unit_dim': UNIT}),
      **({'mean_block_length': 2.} if kind == 2 else {}))
  val = lambda t: t['m']['v'].values
  check(bool((val(same.point_estimates()) == 0).all()
             and (val(same.p_values()) == 1).all()
             and not val(same.significance_tests()).any()),
        f'{what}: a system differs from itself: p {val(same.p_values())}',
        'same')
  obs.ev('same')
  obs.mark(what, x.values.tobytes())


def missing(rng, obs):
  """A replicate that draws a missing statistic is missing."""
  n = int(rng.integers(8, 10))
  u = np.arange(n)
  x = rng.random(n)
  gone = int(rng.integers(n))
  x[gone] = np.nan
  state = merge(one('a', xr.DataArray(x, dims=[UNIT], coords={UNIT: u})),
                codes(u))
  r = 40
  metrics = {'code': _Id('code'), 'a': _Id('a')}
  kind = int(rng.integers(2))
  if kind == 0:
    m = bootstrap.IIDBootstrap(metrics, state, UNIT, n_replicates=r)
  else:
    m = bootstrap.StationaryBootstrap(metrics, state, UNIT, n_replicates=r,
                                      mean_block_length=2.)
  counts = decode(m.resampled_values['code']['v'].values * n, n)
  got = m.resampled_values['a']['v'].values
  hit = counts[:, gone] > 0
  what = f'{type(m).__name__} n={n} missing unit {gone}'
  check(bool(np.isnan(got[hit]).all()), f'{what}: replicates that draw it '
        f'have values {got[hit]}', 'missing.drawn')
  rest = ~hit & ~np.isnan(got)
  want = counts @ np.nan_to_num(x) / n
  expect_close(got[rest], want[rest], f'{what}: others', 'missing.other',
               rtol=1e-9)
  check(bool(np.isnan(m.point_estimates()['a']['v'].values)),
        f'{what}: point estimate', 'missing.estimate')
  obs.ev('missing', int(hit.sum()))
  obs.mark(what)


def refused(rng, obs):
  """Too few or mismatching units are refused."""
  n = int(rng.integers(2, 8))
  u = np.arange(n)
  mk = lambda m, lab=None: one('pick', xr.DataArray(
      rng.normal(size=m), dims=[UNIT],
      coords={UNIT: np.arange(m) if lab is None else lab}))
  metrics = {'m': _Id()}
  expect_raises(lambda: bootstrap.StationaryBootstrap(
      metrics, mk(n), UNIT, n_replicates=5), f'{n} units with automatic block '
      'length', 'few', ValueError)
  for cls, kw in ((bootstrap.IIDBootstrap, {'experimental_unit_dim': UNIT}),
                  (bootstrap.ClusterBootstrap,
                   {'experimental_unit_coord': UNIT}),
                  (bootstrap.StationaryBootstrap,
                   {'experimental_unit_dim': UNIT, 'mean_block_length': 2.})):
    for other in (mk(n + 1), mk(n, u + 1), mk(n, u[::-1])):
      expect_raises(lambda: cls.for_baseline_comparison(
          metrics, mk(n), other, n_replicates=5, **kw),
          f'{cls.__name__}: systems with different units', 'unpaired',
          ValueError)
      obs.ev('unpaired')
    kw = dict(kw)
    kw[[k for k in kw if 'unit' in k][0]] = 'nothing'
    expect_raises(lambda: cls(metrics, mk(n), n_replicates=5, **kw),
                  f'{cls.__name__}: unknown units', 'unknown', ValueError)
  obs.mark('refused', n)


SCENARIOS = {'iid': (iid, 40, 700), 'cluster': (cluster, 40, 700),
             'stationary': (stationary, 30, 500), 'coded': (coded, 30, 500),
             'variance': (variance, 16, 200),
             'automatic': (automatic, 24, 400),
             'indices': (indices, 20, 300), 'ties': (ties, 30, 500),
             'missing': (missing, 12, 200), 'refused': (refused, 8, 60)}
MIN = {'replicates': (20000, 300000), 'draws': (1500, 25000),
       'distinct_draws': (800, 14000), 'cluster_draws': (1500, 25000),
       'stationary_draws': (200, 4000), 'rotations': (20, 500),
       'multinomial': (30, 500), 'unequal': (15, 250),
       'joint': (300, 6000), 'variances': (48, 600), 'automatic': (24, 400),
       'automatic_distinct': (18, 300), 'summaries': (1000, 15000),
       'tied_nulls': (40, 700), 'skipped_replicates': (8, 150),
       'without_replicates': (1, 10), 'same': (30, 500),
       'missing': (100, 1800), 'unpaired': (70, 500)}
