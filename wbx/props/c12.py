"""C12: ensemble metrics equal their published estimators."""

import numpy as np
import xarray as xr
from wbx import gen
from wbx import mo
from wbx.core import check, expect_close, expect_raises
from weatherbenchX.metrics import deterministic as D
from weatherbenchX.metrics import probabilistic as P

RULE = ('random ensembles (1-8 members, 1-40 sometimes, any position and name '
        'of the ensemble dimension, ties, constant ensembles, missing '
        'members, ensemble targets of another size) through every ensemble '
        'statistic/metric and option; each grid point is compared with the '
        'estimator evaluated by scalar loops on its members; fingerprint = '
        '(metric, options, n, m, layout)')
ASSUMPTIONS = ['events are kept in float32 by design (REV, rank histogram): '
               'tolerance 2e-5; REV is not compared where the denominator is '
               'below 1e-6']
BASE = mo.BASE


def _crps_skill(x, y, o):
  d = [abs(a - b) for a in x for b in y]
  return np.mean(d) if d else np.nan


def _spread(x, fair):
  n = len(x)
  if n < 2:
    return np.nan
  s = 0.0
  for i in range(n):
    for j in range(i):
      s += 2 * abs(x[i] - x[j])
  return s / (n * (n - 1 if fair else n))


def _var(x):
  n = len(x)
  if n < 2:
    return np.nan
  m = sum(x) / n
  return sum((a - m) ** 2 for a in x) / (n - 1)


def _umse(x, y, ens_target):
  if not len(x) or not len(y):
    return np.nan
  r = (np.mean(x) - np.mean(y)) ** 2 - _var(x) / len(x)
  if ens_target:
    r -= _var(y) / len(y)
  return r


def _wasserstein(x, y):
  pts = sorted(list(x) + list(y))
  s = 0.0
  for a, b in zip(pts[:-1], pts[1:]):
    F = sum(v <= a for v in x) / len(x)
    G = sum(v <= a for v in y) / len(y)
    s += abs(F - G) * (b - a)
  return s


class Case:
  """A random ensemble world with access to the members of each point."""

  def __init__(self, rng, ens_target=None, nan=None, nmin=1, kind=None):
    self.rng = rng
    self.coords = gen.grid(rng, BASE, hi=4)
    self.edim = str(rng.choice(['number', 'number', 'realization']))
    self.n = int(rng.integers(nmin, 9)) if rng.random() < .93 else int(
        rng.integers(9, 41))
    if self.n > 8:
      self.coords = gen.grid(rng, BASE, hi=3)
    self.m = int(rng.integers(max(nmin, 1), 7))
    self.ens_target = bool(rng.random() < .3) if ens_target is None else (
        ens_target)
    frac = float(rng.choice([0, 0, .1, .4])) if nan is None else nan
    kind = kind or str(rng.choice(['normal', 'ties', 'ints', 'big']))
    self.p, self.t, self.px, self.tx = {}, {}, {}, {}
    shape = [len(self.coords[d]) for d in BASE]
    for v in ('a', 'b'):
      x = gen.values(rng, shape + [self.n], kind)
      y = gen.values(rng, shape + ([self.m] if self.ens_target else []), kind)
      if rng.random() < .2:
        x[..., :] = x[..., :1]
      if frac:
        x[rng.random(x.shape) < frac] = np.nan
        if self.ens_target:
          y[rng.random(y.shape) < frac] = np.nan
        else:
          y[rng.random(y.shape) < frac / 3] = np.nan
      pd = list(BASE) + [self.edim]
      td = list(BASE) + ([self.edim] if self.ens_target else [])
      pc = dict(self.coords)
      pc[self.edim] = np.arange(self.n)
      tc = dict(self.coords)
      tc[self.edim] = np.arange(self.m)
      self.p[v] = mo.dataarray(x, pd, pc, gen.shuffled(rng, pd), v)
      self.t[v] = mo.dataarray(y, td, tc, gen.shuffled(rng, td), v)
      self.px[v] = x
      self.tx[v] = y if self.ens_target else y[..., None]

  def cells(self, v, f, skipna, trailing=0):
    """f(members, target members) at every point; NaN rules applied."""
    x, y = self.px[v], self.tx[v]
    out = []
    for ix in np.ndindex(x.shape[:-1]):
      a, b = x[ix], y[ix]
      if skipna:
        a, b = a[~np.isnan(a)], b[~np.isnan(b)]
        r = f(list(a), list(b))
      else:
        bad = np.isnan(a).any(), np.isnan(b).any()
        r = f(list(a), list(b), bad)
      out.append(r)
    out = np.array(out, float)
    return out.reshape(x.shape[:-1] + out.shape[1:])


def _guard(f, uses=(True, True), trailing=None):
  """Adds the rule 'without skipping, a missing member is missing'."""
  def g(x, y, bad=(False, False)):
    if (bad[0] and uses[0]) or (bad[1] and uses[1]):
      return np.nan if trailing is None else [np.nan] * trailing
    return f(x, y)
  return g


def _check_stat(obs, c, name, stat, f, skipna, key, trailing=(), tol=1e-8):
  r = stat.compute(c.p, c.t)
  for v in ('a', 'b'):
    want = c.cells(v, f, skipna)
    check(set(r[v].dims) == set(BASE) | set(trailing),
          f'{name}: result dims {r[v].dims}', key + '.dims')
    got = r[v].transpose(*BASE, *trailing).values
    expect_close(got, want,
                 f'{name} n={c.n} m={c.m if c.ens_target else None} '
                 f'skipna={skipna} {c.p[v].dims}', key, rtol=tol,
                 atol=tol * max(1, float(np.nanmax(np.abs(c.px[v])) ** 2)
                                if np.isfinite(c.px[v]).any() else 1))
    obs.ev('points', want.size)
    obs.ev('missing_points', int(np.isnan(want).sum()))
    obs.ev(key)


def crps(rng, obs):
  nan = None
  c = Case(rng, nan=nan)
  skipna = bool(rng.random() < .4)
  fair = bool(rng.random() < .6)
  sort = bool(rng.random() < .4) and not skipna
  which = 'predictions'
  kw = dict(ensemble_dim=c.edim, skipna_ensemble=skipna)
  o = f'fair={fair} sort={sort}'
  _check_stat(obs, c, 'CRPSSkill', P.CRPSSkill(**kw),
              _guard(lambda x, y: _crps_skill(x, y, None)), skipna,
              'crps_skill')
  if c.ens_target and rng.random() < .5:
    which = 'targets'
  size = c.n if which == 'predictions' else c.m
  st = P.CRPSSpread(use_sort=sort, fair=fair, which=which, **kw)
  if size < 2 and not skipna:
    expect_raises(lambda: st.compute(c.p, c.t), 'spread of one member',
                  'crps_single', ValueError)
    obs.ev('single_member_rejected')
  elif which == 'predictions':
    _check_stat(obs, c, 'CRPSSpread ' + o, st,
                _guard(lambda x, y: _spread(x, fair), (True, False)), skipna,
                'crps_spread')
  else:
    _check_stat(obs, c, 'CRPSSpread of targets ' + o, st,
                _guard(lambda x, y: _spread(y, fair), (False, True)), skipna,
                'crps_target_spread')
  if c.n >= 2 and (c.m >= 2 or not c.ens_target):
    agg = mo.Agg(rng, c.coords, keep_p=.3)
    f = lambda x, y: _crps_skill(x, y, 0) - .5 * _spread(x, fair)
    m = P.CRPSEnsemble(use_sort=sort, fair=fair, **kw)
    if c.ens_target and rng.random() < .7:
      f = lambda x, y: (_crps_skill(x, y, 0) - .5 * _spread(x, fair)
                        - .5 * _spread(y, fair))
      m = P.CRPSEnsembleDistance(use_sort=sort, fair=fair, **kw)
      obs.ev('crps_distance')
    ds = mo.evaluate(m, agg, c.p, c.t)
    for v in ('a', 'b'):
      want = agg.mean(c.cells(v, _guard(f), skipna))
      expect_close(mo.result(ds, f'm.{v}', agg), want,
                   f'{type(m).__name__} n={c.n} {o} skipna={skipna} '
                   f'{agg.desc()}', 'crps', rtol=1e-8, atol=1e-7)
      obs.ev('crps_values', np.size(want))
  if rng.random() < .1:
    expect_raises(lambda: P.CRPSSpread(
        ensemble_dim=c.edim, use_sort=True, skipna_ensemble=True).compute(
            c.p, c.t), 'use_sort with skipna', 'sort_skipna', ValueError)
  obs.mark('crps', c.n, c.m if c.ens_target else 0, skipna, fair, sort, which,
           c.p['a'].dims)
  obs.sample(n=c.n, ens_target=c.ens_target, skipna=skipna, options=o)


def moments(rng, obs):
  c = Case(rng)
  skipna = bool(rng.random() < .5)
  kw = dict(ensemble_dim=c.edim, skipna_ensemble=skipna)
  # Variance of the predictions does not involve the targets.
  fv = _guard(lambda x, y: _var(x), (True, False))
  fu = _guard(lambda x, y: _umse(x, y, c.ens_target))
  _check_stat(obs, c, 'EnsembleVariance', P.EnsembleVariance(**kw), fv, skipna,
              'variance')
  _check_stat(obs, c, 'UnbiasedEnsembleMeanSquaredError',
              P.UnbiasedEnsembleMeanSquaredError(**kw), fu, skipna, 'umse')
  agg = mo.Agg(rng, c.coords, keep_p=.3)
  for v in ('a', 'b'):
    va, um = agg.mean(c.cells(v, fv, skipna)), agg.mean(c.cells(v, fu, skipna))
    for name, m, want in (
        ('ssr', P.UnbiasedSpreadSkillRatio(**kw), va / um),
        ('umrmse', P.UnbiasedEnsembleMeanRMSE(**kw), um),
        ('rms_spread', P.EnsembleRootMeanVariance(**kw), va)):
      ds = mo.evaluate(m, agg, {v: c.p[v]}, {v: c.t[v]})
      got = mo.result(ds, f'm.{v}', agg)
      scale = float(np.nanmax(np.abs(c.px[v]))) if np.isfinite(
          c.px[v]).any() else 1.0
      with np.errstate(all='ignore'):
        w = np.sqrt(want)
      ok = np.abs(um) > 1e-9 * max(1, scale ** 2)
      ok |= np.isnan(um)
      if name == 'rms_spread':
        ok = va > 1e-9 * max(1, scale ** 2)
        ok |= np.isnan(va)
      expect_close(np.where(ok, got, 0), np.where(ok, w, 0),
                   f'{name} n={c.n} skipna={skipna} {agg.desc()}', name,
                   rtol=1e-5, atol=1e-6)
      obs.ev(name, int(ok.sum()))
  obs.mark('moments', c.n, c.m if c.ens_target else 0, skipna, agg.reduce,
           c.p['a'].dims)


def erps(rng, obs):
  c = Case(rng)
  skipna = bool(rng.random() < .4)
  fair = bool(rng.random() < .5)
  right = bool(rng.random() < .6)
  nb = int(rng.integers(1, 4))
  pt = sorted(set(np.round(rng.choice(
      [-5, -1, -0.5, 0, .2, .5, 1, 2, 3, 250, 260], nb, replace=False), 3)))
  same = rng.random() < .5
  tt = pt if same else [x + .5 for x in pt]
  form = str(rng.choice(['list', 'ds', 'da']))
  def wrap(th):
    if form == 'list':
      return list(th)
    da = xr.DataArray(th, dims=['bins'], coords={'bins': range(len(th))})
    if form == 'da':
      return da
    return xr.Dataset({'a': da, 'b': da + 0.25, 'tmp': da})
  # Datasets are looked up by the name of the data array.
  off = {'a': 0.0, 'b': 0.25 if form == 'ds' else 0.0}
  if form != 'list' or same:
    pass
  else:
    tt = pt   # list thresholds label the bins, which have to match
  st = P.EnsembleRankedProbabilityScore(
      wrap(pt), wrap(tt), 'bins', 'sfx', ensemble_dim=c.edim,
      skipna_ensemble=skipna, fair=fair, right_inclusive=right)
  r = st.compute(c.p, c.t)
  for v in ('a', 'b'):
    def f(x, y, v=v):
      if not x or not y:
        return np.nan
      s = 0.0
      for bp, bt in zip(pt, tt):
        bp, bt = bp + off[v], bt + off[v]
        cx = [float(a <= bp if right else a < bp) for a in x]
        cy = [float(a <= bt if right else a < bt) for a in y]
        if fair:
          s += _umse(cx, cy, c.ens_target)
        else:
          s += (np.mean(cx) - np.mean(cy)) ** 2
      return s
    want = c.cells(v, _guard(f), skipna)
    got = r[v].transpose(*BASE).values
    expect_close(got, want, f'ERPS n={c.n} fair={fair} skipna={skipna} '
                 f'right={right} {form} bins={pt} / {tt}', 'erps', rtol=1e-5,
                 atol=2e-6)
    obs.ev('erps', want.size)
    obs.ev('missing_points', int(np.isnan(want).sum()))
  obs.mark('erps', c.n, c.ens_target, skipna, fair, right, nb, form, same)


def others(rng, obs):
  c = Case(rng, ens_target=True, nan=float(rng.choice([0, 0, .05])))
  _check_stat(obs, c, 'Wasserstein', P.WassersteinDistance(c.edim),
              _guard(_wasserstein), False, 'wasserstein', tol=1e-7)
  c = Case(rng, ens_target=False)
  thr = sorted({float(x) for x in rng.choice([0., .4, 1., 5., 30.], 3)})
  _check_stat(obs, c, 'EnsembleErrorExceedance',
              P.EnsembleErrorExceedance(thr, ensemble_dim=c.edim),
              _guard(lambda x, y: [np.mean([abs(a - y[0]) > th for a in x])
                                   for th in thr], trailing=len(thr)), False,
              'ens_exceed', trailing=('error_exceedance_thresholds',))
  n1 = c.n + 1
  _check_stat(obs, c, 'RankHistogram', P.RankHistogram(ensemble_dim=c.edim),
              _guard(lambda x, y: [float(sum(a < y[0] for a in x) == k)
                                   for k in range(n1)], trailing=n1), False,
              'rank_histogram', trailing=('rank',))
  r = P.RankHistogram(ensemble_dim=c.edim).compute(c.p, c.t)['a']
  check(np.array_equal(r['rank'].values, np.arange(n1)), 'rank labels',
        'rank_labels')
  # Averages of any statistic over the members.
  skipna = bool(rng.random() < .5)
  for name, m, g, post in (
      ('mae', D.MAE(), lambda a, b: abs(a - b), lambda z: z),
      ('rmse', D.RMSE(), lambda a, b: (a - b) ** 2, np.sqrt),
      ('bias', D.Bias(), lambda a, b: a - b, lambda z: z)):
    agg = mo.Agg(rng, c.coords, keep_p=.3)
    w = P.EnsembleAveragedMetric(m, ensemble_dim=c.edim,
                                 skipna_ensemble=skipna)
    ds = mo.evaluate(w, agg, c.p, c.t)
    for v in ('a', 'b'):
      f = _guard(lambda x, y: np.mean([g(a, y[0]) for a in x])
                 if x and y else np.nan)
      want = post(agg.mean(c.cells(v, f, skipna)))
      expect_close(mo.result(ds, f'm.{v}', agg), want,
                   f'ensemble averaged {name} skipna={skipna}', 'ens_avg',
                   rtol=1e-7, atol=1e-6)
      obs.ev('ens_avg', np.size(want))
  expect_raises(lambda: P.EnsembleAveragedMetric(
      D.MAE(), ensemble_dim='nope').statistics['self'].compute(c.p, c.t),
                'missing ensemble dimension', 'ens_avg_dim', ValueError)
  expect_raises(lambda: P.WassersteinDistance(c.edim).compute(c.p, c.t),
                'no ensemble of targets', 'wasserstein_dim', ValueError)
  expect_raises(lambda: P.UnbiasedEnsembleMeanSquaredError('nope').compute(
      c.p, c.t), 'missing ensemble dimension', 'umse_dim', ValueError)
  obs.mark('others', c.n, c.m, skipna, c.p['a'].dims)


def rev(rng, obs):
  coords = gen.grid(rng, BASE)
  n = int(rng.integers(1, 9))
  shape = [len(coords[d]) for d in BASE]
  agg = mo.Agg(rng, coords, keep_p=.25)
  style = str(rng.choice(['size', 'size', 'thresholds']))
  kw = {}
  if style == 'size':
    thr = [(k + .5) / n for k in range(n)]
    kw['ensemble_size'] = n
  else:
    thr = sorted(set(np.round(rng.uniform(.05, .95, int(
        rng.integers(1, 5))), 2).tolist()))
    kw['probability_thresholds'] = np.array(thr)
    kw['statistic_suffix'] = 'sfx'
  if rng.random() < .5:
    ratios = sorted(set(np.round(rng.uniform(.02, .98, int(
        rng.integers(1, 6))), 3).tolist()))
    kw['cost_loss_ratios'] = np.array(ratios)
  else:
    ratios = [.005 * 200 ** (i / 50) for i in range(50)]
  ratios = np.array(ratios)
  p, t = {}, {}
  for v in ('a', 'b'):
    x = rng.integers(0, n + 1, shape) / n
    y = (rng.random(shape) < rng.choice([.1, .5, .9])).astype(float)
    if rng.random() < .2:
      x = gen.holes(rng, x, .02)
    p[v] = mo.dataarray(x, BASE, coords, gen.shuffled(rng, list(BASE)), v)
    t[v] = mo.dataarray(y, BASE, coords, gen.shuffled(rng, list(BASE)), v)
  full_thr = [0.0] + thr + [1.0]
  opt = None
  cl = kw.get('cost_loss_ratios')
  if cl is None:
    cl = np.geomspace(0.005, 1, 51)[:-1]
  expect_close(cl, ratios, 'default cost/loss ratios', 'ratios', rtol=1e-9)
  pick, mapped, nearest = {}, False, False
  if rng.random() < .4:
    nearest = bool(rng.random() < .5)
    kd = [d for d in agg.keep if rng.random() < .5]
    mapped = bool(rng.random() < .5)
    for v in ('a', 'b') if mapped else ('*',):
      pick[v] = rng.integers(
          0, len(full_thr), [len(coords[d]) for d in kd] + [len(cl)])
    opt = {}
    for v, ix in pick.items():
      vals = np.array(full_thr)[ix]
      if nearest:
        gap = min(np.diff(full_thr)) * .4
        vals = vals + rng.uniform(-gap, gap, vals.shape)
      opt[v] = xr.DataArray(
          vals, dims=kd + ['cost_loss_ratio'],
          coords=dict({d: coords[d] for d in kd}, cost_loss_ratio=cl))
    kw['optimal_thresholds'] = opt if mapped else opt['*']
    kw['optimal_thresholds_select_nearest'] = nearest
  m = P.RelativeEconomicValue(**kw)
  ds = mo.evaluate(m, agg, p, t)
  trailing = ('threshold', 'cost_loss_ratio') if opt is None else (
      'cost_loss_ratio',)
  for v in ('a', 'b'):
    x, y = mo.canon(p[v], BASE), mo.canon(t[v], BASE)
    nan = np.isnan(x)
    rows = []
    for th in full_thr:
      yes = (x > th) if th not in (0.0, 1.0) else np.full(x.shape, th == 0.0)
      f = lambda e: agg.mean(np.where(nan, np.nan, e.astype(float)))
      tp, fp, fn = (f(yes & (y == 1)), f(yes & (y == 0)), f(~yes & (y == 1)))
      rows.append((tp, fp, fn))
    tp, fp, fn = (np.stack([r[i] for r in rows], axis=-1)[..., None]
                  for i in range(3))
    base = tp + fn
    with np.errstate(all='ignore'):
      expense = ratios * (tp + fp) + fn
      perfect = ratios * base
      climate = np.minimum(ratios, base)
      want = (climate - expense) / (climate - perfect)
      den = np.broadcast_to(climate - perfect, want.shape)
    if opt is not None:
      ix = pick[v if mapped else '*']
      sh = tuple(len(coords[d]) if d in kd else 1 for d in agg.keep)
      # dims of ix: kd in the order of keep, then ratio.
      ix = ix.reshape(sh + (len(ratios),))
      ix = np.broadcast_to(ix, want.shape[:-2] + (len(ratios),))
      want = np.take_along_axis(want, ix[..., None, :], axis=-2)[..., 0, :]
      den = np.take_along_axis(den, ix[..., None, :], axis=-2)[..., 0, :]
    ok = ~(np.abs(den) < 1e-5)
    got = ds[f'm.{v}'].transpose(*agg.keep, *trailing).values
    check(got.shape == want.shape, f'REV shape {got.shape} {want.shape}',
          'rev_shape')
    with np.errstate(all='ignore'):
      err = np.abs(got - want) * np.abs(den)
    bad = ok & ~((np.isnan(got) & np.isnan(want)) | (err < 1e-5))
    if bad.any():
      i = tuple(np.argwhere(bad)[0])
      expect_close(got[i], want[i], f'REV {style} at {i} opt={bool(pick)} '
                   f'nearest={nearest}', 'rev', rtol=1e-6)
    obs.ev('rev', int(ok.sum()))
    if opt is None:
      expect_close(ds['threshold'], full_thr, 'REV thresholds', 'rev_thr')
    else:
      obs.ev('rev_optimal', int(ok.sum()))
  obs.mark('rev', style, n, bool(pick), mapped, nearest, agg.reduce)


def rev_args(rng, obs):
  R = P.RelativeEconomicValue
  n = int(rng.integers(1, 9))
  for kw in (dict(), dict(ensemble_size=n, probability_thresholds=np.array(
      [.5])), dict(probability_thresholds=np.array([.5])),
             dict(probability_thresholds=np.array([-.1, .5]),
                  statistic_suffix='x'),
             dict(probability_thresholds=np.array([.1, 1.5]),
                  statistic_suffix='x'),
             dict(ensemble_size=n, cost_loss_ratios=np.array([.1, .2]),
                  optimal_thresholds=xr.DataArray(
                      [.5, .5], dims=['cost_loss_ratio'],
                      coords={'cost_loss_ratio': [.1, .3]})),
             dict(ensemble_size=n, cost_loss_ratios=np.array([.1, .2]),
                  optimal_thresholds=xr.DataArray([.5, .5], dims=['x']))):
    expect_raises(lambda: R(**kw), f'REV with {sorted(kw)}', 'rev_args',
                  ValueError)
    obs.ev('rev_rejected')


SCENARIOS = {
    'crps': (crps, 600, 8000),
    'moments': (moments, 250, 3000),
    'erps': (erps, 250, 3000),
    'others': (others, 120, 1500),
    'rev': (rev, 200, 2500),
    'rev_args': (rev_args, 3, 10),
}
MIN = {'crps_skill': 500, 'crps_spread': 300, 'crps_target_spread': 30,
       'crps_distance': 30, 'crps_values': 500, 'single_member_rejected': 10,
       'variance': 200, 'umse': 200, 'ssr': 200, 'umrmse': 200,
       'rms_spread': 200, 'erps': 5000, 'wasserstein': 100,
       'rank_histogram': 100, 'ens_exceed': 100, 'ens_avg': 200, 'rev': 5000,
       'rev_optimal': 500, 'missing_points': 1000}
