"""C09: evaluating metrics together equals evaluating each alone."""

import collections

import numpy as np
import xarray as xr
from wbx import catalog
from wbx import gen
from wbx.core import check, expect_raises
from weatherbenchX import aggregation
from weatherbenchX.metrics import base
from weatherbenchX.metrics import categorical as C
from weatherbenchX.metrics import deterministic as D
from weatherbenchX.metrics import probabilistic as P
from weatherbenchX.metrics import spatial as S
from weatherbenchX.metrics import wrappers as W

RULE = ('random sets of 2-9 configurations drawn from families of every '
        'shipped metric, statistic and transform (several parameter settings '
        'of the same class per family) evaluated in one run, in two orders, '
        'and compared with each configuration evaluated alone by '
        'fresh objects; counting probes record every computation of a '
        'statistic; fingerprint = set of configurations')
ASSUMPTIONS = [
    'configurations whose unique name is chosen by the user '
    '(unique_name_suffix, statistic_suffix) are given distinct names, as '
    'documented']
A, B = catalog.VARS


# --- Families: kind of data -> {family: [(label, constructor)]} --------------


def _families(w, rng):
  """All configurations for one world. Constructors build fresh objects."""
  clim = w.climatology
  q1 = catalog.quantile_climatology(np.random.default_rng(7),
                                    w.coords['latitude'],
                                    w.coords['longitude'])
  th = lambda x, d='threshold', which='both': W.ContinuousToBinary(
      which, x, d)
  f = collections.defaultdict(list)

  def add(kind, fam, label, make):
    f[kind, fam].append((f'{fam}:{label}', make))

  c = 'cont'
  add(c, 'bias', '', lambda: D.Bias())
  add(c, 'mae', '', lambda: D.MAE())
  add(c, 'mse', '', lambda: D.MSE())
  add(c, 'rmse', '', lambda: D.RMSE())
  for k in (False, True):
    add(c, 'pavg', k, lambda k=k: D.PredictionAverage(
        copy_nans_from_targets=k))
    add(c, 'tavg', k, lambda k=k: D.TargetAverage(
        copy_nans_from_predictions=k))
  for u, v, n in (([A], [B], ['w']), ([B], [A], ['w2']), ([A], [A], ['w']),
                  ([A, B], [B, B], ['w', 'x'])):
    add(c, 'wind', f'{u}{v}{n}', lambda u=u, v=v, n=n: D.WindVectorRMSE(
        u, v, n))
  add(c, 'acc', '', lambda: D.ACC(clim))
  add(c, 'activity', '', lambda: D.PredictionActivity(clim))
  for t in ([0.1], [0.1, 0.5], [0.5], [0.50001]):
    add(c, 'exceed', t, lambda t=t: D.ErrorExceedance(t))
  for d in (('latitude', 'longitude'), ('longitude', 'latitude'),
            ('latitude',), ('longitude',)):
    add(c, 'relint', d, lambda d=d: D.RelativeIntensity(spatial_dims=d))
  for cls in (C.CSI, C.Accuracy, C.Recall, C.FalseAlarmRate, C.Precision,
              C.F1Score, C.FrequencyBias, C.HSS, C.ETS, C.SEDI):
    for t in ([0.2], [0.2, 0.6], [0.6], [0.6, 0.2], 0.2):
      add(c, 'binary', f'{cls.__name__}{t}',
          lambda cls=cls, t=t: W.WrappedMetric(cls(), [th(t)]))
    add(c, 'binary', f'{cls.__name__}other dim',
        lambda cls=cls: W.WrappedMetric(cls(), [th([.2], 'thr')]))
    add(c, 'binary', f'{cls.__name__}split',
        lambda cls=cls: W.WrappedMetric(
            cls(), [th([.2], which='predictions'), th([.2], which='targets')]))
    add(c, 'binary', f'{cls.__name__}split other',
        lambda cls=cls: W.WrappedMetric(
            cls(), [th([.2], which='predictions'), th([.6], 'threshold_t',
                                                      which='targets')]))
  for n in (1, 3, [1, 3], [3, 1]):
    for wrap in (False, True):
      add(c, 'fss', f'{n}{wrap}', lambda n=n, wrap=wrap: W.WrappedMetric(
          S.FSS(n, wrap), [th([.2, .6])]))
  for vv in ([A], [B], [A, B], [B, A]):
    add(c, 'subset', f'mae{vv}', lambda vv=vv: W.SubselectVariables(
        D.MAE(), vv))
    add(c, 'subset', f'rmse{vv}', lambda vv=vv: W.SubselectVariables(
        D.RMSE(), vv))
  for bd in ('bins', 'other'):
    for t in ([-.5, .1, .4, .9], [-.5, .1], [.1, .4, .9]):
      for right in (True, False):
        add(c, 'rps', f'{bd}{t}{right}',
            lambda bd=bd, t=t, right=right: W.WrappedMetric(
                C.RankedProbabilityScore(bd), [W.ContinuousToCDF(
                    'both', t, bd, right_inclusive=right)]))
  for kw in ({}, {'dry_threshold_mm': 100.0}, {'min_p1': .2}, {'max_p1': .6},
             {'min_p1': .3, 'max_p1': .6}):
    add(c, 'seeps', kw, lambda kw=kw: C.SEEPS([B], w.seeps, **kw))
  for i, tr in enumerate([
      lambda: [W.ReLU('both')], lambda: [W.ReLU('predictions')],
      lambda: [W.ReLU('targets')],
      lambda: [W.Select('both', isel={'latitude': 0})],
      lambda: [W.Select('both', isel={'latitude': -1})],
      lambda: [W.Select('both', isel={'longitude': 0})],
      lambda: [W.Select('both', sel={'latitude': w.coords['latitude'][0]})],
      lambda: [W.Select('both', sel={'latitude': w.coords['latitude'][1]})],
      lambda: [W.Inline('both', lambda x: -x, 'neg')],
      lambda: [W.Inline('predictions', lambda x: -x, 'neg')],
      lambda: [W.Inline('both', lambda x: 2 * x, 'twice')],
      lambda: [W.ReLU('both'), W.Inline('both', lambda x: -x, 'neg')],
      lambda: [W.Inline('both', lambda x: -x, 'neg'), W.ReLU('both')],
      lambda: [W.ShiftAlongNewDim('predictions', [1., 2.], 'sh', 's12')],
      lambda: [W.ShiftAlongNewDim('predictions', [3.], 'sh', 's3')],
      lambda: [W.ContinuousToBins('both', [-1., 0., .5, 2.], 'bin')],
      lambda: [W.ContinuousToBins('both', [-1., 0., .6, 2.], 'bin')],
      lambda: [W.ContinuousToCDF('both', [-1., 0., .6, 2.], 'bin')],
      lambda: [W.ContinuousToCDF('both', [-1., 0., .6, 2.], 'bin',
                                 right_inclusive=False)],
      lambda: [W.StackToNewDimension('both', ['latitude', 'longitude'],
                                     'point')],
      lambda: [W.StackToNewDimension('both', ['longitude', 'latitude'],
                                     'point')],
      lambda: [W.Rename('both', {'longitude': 'x'})],
  ]):
    for cls in (D.RMSE, D.Bias, D.PredictionAverage):
      add(c, 'transform', f'{cls.__name__}{i}',
          lambda cls=cls, tr=tr: W.WrappedMetric(cls(), tr()))
  e = 'ens'
  for sk in (False, True):
    for fair in (False, True):
      for so in (False, True):
        if so and sk:
          continue
        add(e, 'crps', f'{sk}{fair}{so}', lambda sk=sk, fair=fair, so=so:
            P.CRPSEnsemble(skipna_ensemble=sk, fair=fair, use_sort=so))
      for right in (True, False):
        t = [-.5, .1, .4, .9]
        add(e, 'erps', f'{sk}{fair}{right}',
            lambda sk=sk, fair=fair, right=right, t=t:
            P.EnsembleRankedProbabilityScore(
                t, t, 'bins', 'x', skipna_ensemble=sk, fair=fair,
                right_inclusive=right))
    add(e, 'umse', sk, lambda sk=sk: P.UnbiasedEnsembleMeanRMSE(
        skipna_ensemble=sk))
    add(e, 'ssr', sk, lambda sk=sk: P.UnbiasedSpreadSkillRatio(
        skipna_ensemble=sk))
    add(e, 'var', sk, lambda sk=sk: P.EnsembleRootMeanVariance(
        skipna_ensemble=sk))
    for cls in (D.RMSE, D.MAE, D.Bias, D.PredictionAverage):
      add(e, 'ensavg', f'{cls.__name__}{sk}', lambda cls=cls, sk=sk:
          P.EnsembleAveragedMetric(cls(), skipna_ensemble=sk))
      add(e, 'ensmean', f'{cls.__name__}{sk}', lambda cls=cls, sk=sk:
          W.WrappedMetric(cls(), [W.EnsembleMean('predictions', skipna=sk)]))
      add(e, 'plain', f'{cls.__name__}', lambda cls=cls: cls())
    add(e, 'weibull', f'b{sk}', lambda sk=sk: W.WrappedMetric(
        D.MSE(), [th([.2, .6]), W.WeibullEnsembleToProbabilistic(
            'predictions', skipna=sk)]))
    add(e, 'weibull', f'm{sk}', lambda sk=sk: W.WrappedMetric(
        D.MSE(), [th([.2, .6]), W.EnsembleMean('predictions', skipna=sk)]))
  for bv in ((-np.inf, .25, .5, 1.), (-np.inf, .5, 1.)):
    add(e, 'reliability', f'{bv}', lambda bv=bv: W.WrappedMetric(
        C.Reliability(bin_values=bv),
        [th([.2, .6]), W.EnsembleMean('predictions')]))
  add(e, 'rank', '', lambda: P.RankHistogram())
  for t in ([.1], [.1, .5], [.5]):
    add(e, 'ensexceed', t, lambda t=t: P.EnsembleErrorExceedance(t))
    add(e, 'ensexceed', f'plain{t}', lambda t=t: D.ErrorExceedance(t))
  for b in ((.1, .9), (.25, .75), (.1, .75)):
    add(e, 'interval', f'cov{b}', lambda b=b: C.Covered('number', b))
    add(e, 'interval', f'conf{b}', lambda b=b: C.Confident('number', q1, b))
    add(e, 'interval', f'conf.5{b}', lambda b=b: C.Confident(
        'number', q1, b, confidence_threshold=.5))
    add(e, 'interval', f'jac{b}', lambda b=b: C.JaccardDistant(
        'number', q1, interval_quantile_boundaries=b))
    add(e, 'interval', f'jac.5{b}', lambda b=b: C.JaccardDistant(
        'number', q1, .5, b))
    for fl in ((True, True, None), (True, None, False), (False, True, None)):
      add(e, 'opp', f'{b}{fl}', lambda b=b, fl=fl: C.Opportunism(
          'number', q1, *fl, confidence_quantile_boundaries=b))
  e2 = 'ens2'
  for fair in (False, True):
    for so in (False, True):
      add(e2, 'crpsdist', f'{fair}{so}', lambda fair=fair, so=so:
          P.CRPSEnsembleDistance(fair=fair, use_sort=so))
      add(e2, 'crps2', f'{fair}{so}', lambda fair=fair, so=so: W.WrappedMetric(
          P.CRPSEnsemble(fair=fair, use_sort=so),
          [W.EnsembleMean('targets')]))
  add(e2, 'wass', '', lambda: P.WassersteinDistance())
  add(e2, 'umse2', '', lambda: P.UnbiasedEnsembleMeanRMSE())
  add(e2, 'var2', '', lambda: P.EnsembleRootMeanVariance())
  pr = 'prob'
  n = w.n_ens
  add(pr, 'rev', 'size', lambda: P.RelativeEconomicValue(ensemble_size=n))
  add(pr, 'rev', 'size+1', lambda: P.RelativeEconomicValue(
      ensemble_size=n + 1))
  add(pr, 'rev', 'thr', lambda: P.RelativeEconomicValue(
      probability_thresholds=np.array([.1, .7]), statistic_suffix='two'))
  add(pr, 'rev', 'cost', lambda: P.RelativeEconomicValue(
      ensemble_size=n, cost_loss_ratios=np.array([.2, .3])))
  for bv in ((-np.inf, .25, .5, 1.), (-np.inf, .5, 1.)):
    add(pr, 'rel', f'{bv}', lambda bv=bv: C.Reliability(bin_values=bv))
  add(pr, 'rel', 'default', lambda: C.Reliability())
  add(pr, 'mse', '', lambda: D.MSE())
  return f


def _pieces(da):
  return {d: da[d].values for d in da.dims if d in da.coords}


def _same(joint, alone, name, what):
  """alone's values found unchanged in joint (which can have more labels)."""
  for var in alone.data_vars:
    check(var in joint.data_vars, f'{what}: {var} missing', 'lost')
    j, a = joint[var], alone[var]
    check(set(j.dims) == set(a.dims), f'{what}: {var} dims {j.dims} != '
          f'{a.dims}', 'dims')
    for d, lab in _pieces(a).items():
      jl = list(j[d].values)
      check(all(x in jl for x in lab), f'{what}: {var} lost labels of {d}: '
            f'{lab} not in {jl}', 'labels')
      ix = [jl.index(x) for x in lab]
      rest = [i for i in range(len(jl)) if i not in ix]
      if rest:
        check(bool(np.isnan(j.isel({d: rest}).values.astype(float)).all()),
              f'{what}: {var} has values at foreign labels of {d}',
              'foreign')
      j = j.isel({d: ix})
    x = j.transpose(*a.dims).values.astype(float)
    y = a.values.astype(float)
    check(x.shape == y.shape, f'{what}: {var} shape {x.shape} != {y.shape}',
          'shape')
    # Two algorithms of one estimator share a statistic up to rounding.
    ok = np.isclose(x, y, rtol=1e-5, atol=1e-6, equal_nan=True)
    check(bool(ok.all()),
          f'{what}: {var} differs from its value alone: '
          f'{x[~ok][:4]} != {y[~ok][:4]}', 'differs')
  mine = {v for v in joint.data_vars if v.startswith(name + '.')}
  check(mine == set(alone.data_vars), f'{what}: variables {mine}', 'vars')


def _evaluate(metrics, w, keep, skipna):
  """Statistics, then mean over all spatial dims that each one still has."""
  stats = base.compute_unique_statistics_for_all_metrics(
      metrics, w.predictions, w.targets)
  sums, weights = {}, {}
  for k, s in stats.items():
    sums[k], weights[k] = {}, {}
    for v, da in s.items():
      red = [d for d in ('init_time', 'lead_time', 'latitude', 'longitude',
                         'point', 'x') if d in da.dims and d not in keep]
      st = aggregation.Aggregator(reduce_dims=red, skipna=skipna
                                  ).aggregate_statistics({k: {v: da}})
      sums[k][v] = st.sum_weighted_statistics[k][v]
      weights[k][v] = st.sum_weights[k][v]
  state = aggregation.AggregationState(sums, weights)
  return stats, state.metric_values(metrics)


def together(rng, obs):
  """Random sets of configurations: joint run = single runs."""
  kind = str(rng.choice(['cont', 'cont', 'cont', 'ens', 'ens', 'ens2',
                         'prob']))
  w = catalog.world(rng, kind)
  if rng.random() < .4:
    for side in (w.predictions, w.targets):
      for v in side:
        side[v] = side[v].where(rng.random(side[v].shape) > .1)
  fams = {k[1]: v for k, v in _families(w, rng).items() if k[0] == kind}
  picks = []
  for fam in gen.shuffled(rng, list(fams))[:int(rng.integers(1, 4))]:
    k = int(rng.integers(1, 4))
    picks += gen.shuffled(rng, fams[fam])[:k]
  if len(picks) < 2:
    fam = list(fams)[int(rng.integers(len(fams)))]
    picks += [p for p in fams[fam] if p not in picks][:2]
  picks = gen.shuffled(rng, picks)
  keep = ['lead_time'] if rng.random() < .4 else []
  skipna = bool(rng.random() < .4)
  order = {f'm{i}': p for i, p in enumerate(picks)}
  stats, joint = _evaluate({n: p[1]() for n, p in order.items()}, w, keep,
                           skipna)
  back = list(order)[::-1]
  _, rev = _evaluate({n: order[n][1]() for n in back}, w, keep, skipna)
  what = ', '.join(p[0] for p in picks)
  obs.sample(configurations=what)
  union = set()
  for n, p in order.items():
    st, alone = _evaluate({n: p[1]()}, w, keep, skipna)
    union |= set(st)
    _same(joint, alone, n, f'{p[0]} in [{what}]')
    _same(rev, alone, n, f'{p[0]} in reversed [{what}]')
    obs.ev('compared', 2 * len(alone.data_vars))
  check(set(stats) == union, f'statistics of the joint run: {set(stats)} '
        f'instead of {union}', 'stats')
  obs.ev('joint', 1)
  obs.ev('configurations', len(picks))
  obs.mark('together', *sorted(p[0] for p in picks))


def pairs(rng, obs):
  """All pairs within one family share no statistic they compute differently.

  Statistic level: equal unique names must mean equal values.
  """
  kind = str(rng.choice(['cont', 'ens', 'ens2', 'prob']))
  w = catalog.world(rng, kind)
  for side in (w.predictions, w.targets):
    for v in side:
      side[v] = side[v].where(rng.random(side[v].shape) > .05)
  fams = {k[1]: v for k, v in _families(w, rng).items() if k[0] == kind}
  seen = {}
  confs = [p for f in fams.values() for p in f]
  if len(confs) > 60:
    confs = gen.shuffled(rng, confs)[:60]
  for label, make in confs:
    for name, stat in make().statistics.items():
      val = stat.compute(w.predictions, w.targets)
      un = stat.unique_name
      obs.ev('statistic')
      if un not in seen:
        seen[un] = (label, val)
        continue
      other, ref = seen[un]
      obs.ev('shared')
      check(set(ref) == set(val), f'{un} shared by {other} and {label} has '
            'different variables', 'shared.vars')
      for v in ref:
        same = (ref[v].dims == val[v].dims and
                ref[v].shape == val[v].shape and
                np.array_equal(ref[v].values.astype(float),
                               val[v].values.astype(float), equal_nan=True))
        if not same and set(ref[v].dims) == set(val[v].dims):
          x = val[v].transpose(*ref[v].dims)
          same = x.shape == ref[v].shape and np.allclose(
              x.values.astype(float), ref[v].values.astype(float),
              rtol=1e-5, atol=1e-6, equal_nan=True)
        check(same, f'statistic {un} is shared by {other} and {label} but '
              f'they compute different values of {v}', 'shared.values')
  obs.mark('pairs', kind, len(confs), len(seen))


def labels(rng, obs):
  """Metrics and variables with different labels in one run."""
  coords = gen.grid(rng, ['init_time', 'latitude', 'longitude'], hi=4)
  lev = {A: [500, 700], B: [[700, 850], [850], [500], [850, 700, 500]][
      int(rng.integers(4))]}
  p, t = {}, {}
  for v in (A, B):
    c = dict(coords, level=np.array(lev[v]))
    p[v] = gen.array(rng, c, gen.shuffled(rng, list(c)), 'normal', name=v)
    t[v] = gen.array(rng, c, gen.shuffled(rng, list(c)), 'normal', name=v)
  pool = [[0.], [0., .5], [.5, 1.], [1., 0.], [-.5]]
  thr = gen.shuffled(rng, pool)[:int(rng.integers(2, 5))]
  makes = {f'csi{i}': (lambda x=x: W.WrappedMetric(
      C.Accuracy(), [W.ContinuousToBinary('both', x, 'threshold')]))
           for i, x in enumerate(thr)}
  makes['rmse'] = D.RMSE
  for i, x in enumerate(thr[:2]):
    makes[f'ex{i}'] = lambda x=x: D.ErrorExceedance(list(x))
  names = gen.shuffled(rng, list(makes))
  agg = lambda: aggregation.Aggregator(reduce_dims=['init_time', 'latitude',
                                                    'longitude'])
  run = lambda ms: aggregation.compute_metric_values_for_single_chunk(
      ms, agg(), p, t)
  joint = run({n: makes[n]() for n in names})
  for n in names:
    for v in (A, B):
      alone = aggregation.compute_metric_values_for_single_chunk(
          {n: makes[n]()}, agg(), {v: p[v]}, {v: t[v]})
      sub = joint[[f'{n}.{v}']]
      _same(sub, alone, n, f'{n} {v} with thresholds {thr}, levels {lev}')
      obs.ev('labelled')
  obs.mark('labels', str(thr), str(lev), names[0])


class Counting(base.PerVariableStatistic):
  """A statistic that records every computation."""

  def __init__(self, log, k, fail=False):
    self.log, self.k, self.fail = log, k, fail

  @property
  def unique_name(self):
    return f'counting_{self.k}'

  def _compute_per_variable(self, predictions, targets):
    self.log.append((self.k, predictions.name))
    if self.fail:
      raise RuntimeError('broken on purpose')
    return (predictions - targets) * self.k


class CountMetric(base.PerVariableMetric):

  def __init__(self, log, ks, names, fail=()):
    self._s = {n: Counting(log, k, k in fail) for n, k in zip(names, ks)}

  @property
  def statistics(self):
    return self._s

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    out = 0.0
    for i, n in enumerate(sorted(statistic_values)):
      out = out + (10.0 ** i) * statistic_values[n]
    return out


def once(rng, obs):
  """Every requested statistic is computed exactly once per variable."""
  w = catalog.world(rng, 'cont')
  log = []
  metrics, spec = {}, {}
  for i in range(int(rng.integers(2, 6))):
    ks = gen.shuffled(rng, [1, 2, 3, 4, 5])[:int(rng.integers(1, 4))]
    names = gen.shuffled(rng, ['s', 't', 'u', 'x'])[:len(ks)]
    metrics[f'm{i}'] = CountMetric(log, ks, names)
    spec[f'm{i}'] = dict(zip(names, ks))
  agg = aggregation.Aggregator(reduce_dims=['init_time', 'lead_time',
                                            'latitude', 'longitude'])
  res = aggregation.compute_metric_values_for_single_chunk(
      metrics, agg, w.predictions, w.targets)
  want = {k for s in spec.values() for k in s.values()}
  cnt = collections.Counter(log)
  check(set(cnt) == {(k, v) for k in want for v in w.predictions},
        f'computed {set(cnt)} for {want}', 'once.set')
  check(all(c == 1 for c in cnt.values()), f'computations: {cnt}', 'once')
  # Internal names belong to each metric alone.
  for m, s in spec.items():
    for v in w.predictions:
      d = float((w.predictions[v] - w.targets[v]).mean())
      e = sum(10.0 ** i * s[n] * d for i, n in enumerate(sorted(s)))
      g = float(res[f'{m}.{v}'])
      check(abs(g - e) <= 1e-9 * (1 + abs(e)), f'{m} {s}: {g} instead of {e}',
            'internal')
  obs.ev('once', len(cnt))
  obs.mark('once', str(spec))
  # A failing statistic: reported by name, and the others work as before.
  if rng.random() < .5:
    bad = dict(metrics)
    bad['bad'] = CountMetric(log, [7], ['s'], fail=(7,))
    e = expect_raises(
        lambda: aggregation.compute_metric_values_for_single_chunk(
            bad, agg, w.predictions, w.targets), 'failing statistic',
        'fail.silent', ValueError)
    if e is not None:
      check('counting_7' in str(e), f'error does not name it: {str(e)[:200]}',
            'fail.name')
    again = aggregation.compute_metric_values_for_single_chunk(
        metrics, agg, w.predictions, w.targets)
    check(again.identical(res), 'values changed after a failed run',
          'fail.leak')
    obs.ev('failed')


def climatologies(rng, obs):
  """Two climatologies in one run (recorded finding)."""
  w = catalog.world(rng, 'cont')
  clims = [w.climatology, w.climatology + 1.0]
  cls = [D.ACC, D.PredictionActivity][int(rng.integers(2))]
  _, joint = _evaluate({f'm{i}': cls(c) for i, c in enumerate(clims)}, w, [],
                       False)
  obs.ev('climatologies')
  for i, c in enumerate(clims):
    _, alone = _evaluate({f'm{i}': cls(c)}, w, [], False)
    for v in alone.data_vars:
      check(np.allclose(joint[v].values, alone[v].values, rtol=1e-9),
            f'{cls.__name__} with climatology {i}: {joint[v].values} instead '
            f'of {alone[v].values}', 'collide.climatology')


def array_thresholds(rng, obs):
  """Two threshold arrays for the error exceedance (recorded finding)."""
  w = catalog.world(rng, 'cont')
  ths = [xr.DataArray(x, dims='th', coords={'th': [0, 1]})
         for x in ([.1, .5], [.7, 1.5])]
  _, joint = _evaluate({f'm{i}': D.ErrorExceedance(t)
                        for i, t in enumerate(ths)}, w, [], False)
  obs.ev('array_thresholds')
  for i, t in enumerate(ths):
    _, alone = _evaluate({f'm{i}': D.ErrorExceedance(t)}, w, [], False)
    for v in alone.data_vars:
      check(np.allclose(joint[v].values, alone[v].values, rtol=1e-9),
            f'ErrorExceedance with threshold array {i} takes the values of '
            'the other array', 'collide.thresholds')


def close(rng, obs):
  """Parameters that agree in many digits, with data between them.

  Thresholds of pressures or geopotentials differ far behind the leading digits.
  """
  base_, step = [(101325.0, .25), (54321.125, 1 / 64), (1.0, 1e-9),
                 (287.65, 1e-6), (1e7, 1.0), (-5e4, .5)][
                     int(rng.integers(6))]
  coords = gen.grid(rng, ['init_time', 'latitude', 'longitude'], hi=4)
  coords['number'] = np.arange(3)
  ens = bool(rng.random() < .5)

  def field(dims, offset):
    k = rng.integers(-3, 4, [len(coords[d]) for d in dims])
    return xr.DataArray(offset + k * step, dims=dims,
                        coords={d: coords[d] for d in dims}, name=A)

  dims = ['init_time', 'latitude', 'longitude']
  pd = dims + ['number'] if ens else dims
  cuts = [base_ + (j + .5) * step for j in rng.permutation(
      np.arange(-2, 2))[:3]]
  cuts = [[np.float64, float][int(rng.integers(2))](x) for x in cuts]
  th = lambda x: W.ContinuousToBinary('both', [x], 'threshold')
  mean = [W.EnsembleMean('predictions')] if ens else []
  families = {
      'binary': lambda x: W.WrappedMetric(D.Bias(), [th(x)] + mean),
      'bins': lambda x: W.WrappedMetric(D.Bias(), [W.ContinuousToBins(
          'both', [-np.inf, x, np.inf], 'bin')] + mean),
      'cdf': lambda x: W.WrappedMetric(D.Bias(), [W.ContinuousToCDF(
          'both', [x], 'bin')] + mean),
      'inner': lambda x: W.WrappedMetric(W.WrappedMetric(
          D.Bias(), mean), [th(x)]),
  }
  if ens:
    families |= {
        'exceed': lambda x: P.EnsembleErrorExceedance([x]),
        'rps': lambda x: P.EnsembleRankedProbabilityScore(
            [x], [x], 'bins', repr(x)),
    }
  else:
    families |= {
        'exceed': lambda x: D.ErrorExceedance([x]),
        'csi': lambda x: W.WrappedMetric(C.CSI(), [th(x)]),
        'ets': lambda x: W.WrappedMetric(C.ETS(), [th(x)]),
    }
  fam = str(rng.choice(list(families)))
  make = families[fam]
  p = {A: field(pd, base_)}
  # Errors around the thresholds, and targets around the thresholds.
  t = {A: field(dims, 0.0 if fam == 'exceed' else base_)}
  agg = lambda: aggregation.Aggregator(reduce_dims=dims)
  run = lambda ms: aggregation.compute_metric_values_for_single_chunk(
      ms, agg(), p, t)
  joint = run({f'm{i}': make(x) for i, x in enumerate(cuts)})
  alone = {}
  for i, x in enumerate(cuts):
    alone[i] = run({f'm{i}': make(x)})
    _same(joint, alone[i], f'm{i}', f'{fam} at {x!r} with {cuts}')
    obs.ev('close')
    obs.ev('close_' + fam)
  vals = {a[f'm{i}.{A}'].values.tobytes() for i, a in alone.items()}
  obs.ev('close_distinct', len(vals) - 1)
  obs.mark('close', fam, base_, ens)


SCENARIOS = {
    'together': (together, 260, 3500),
    'close': (close, 80, 1000),
    'pairs': (pairs, 24, 240),
    'labels': (labels, 60, 600),
    'once': (once, 80, 800),
    'climatologies': (climatologies, 3, 6),
    'array_thresholds': (array_thresholds, 3, 6),
}
MIN = {'close': (150, 2000), 'close_distinct': (60, 800),
       'compared': (1500, 20000), 'statistic': (1000, 10000),
       'shared': (200, 2000), 'labelled': (300, 3000), 'once': (300, 3000),
       'failed': (20, 200), 'configurations': (800, 9000)}
