"""C11: categorical metrics equal their contingency-table definitions."""

import numpy as np
import xarray as xr
from wbx import gen
from wbx import mo
from wbx.core import check, close, expect_close, expect_raises, Violation
from weatherbenchX.metrics import categorical as C
from weatherbenchX.metrics import wrappers as W

RULE = ('binary fields (bool/int/float, NaN, all-event and no-event cases, '
        'thresholds dimension) through the ten contingency scores; '
        'reliability with values on bin edges; SEEPS with values on category '
        'boundaries, per-variable options and masks; RPS; interval '
        'confidence, coverage, distance; each against scalar/numpy formulas '
        'x random aggregation; fingerprint = (metric, layout, aggregation)')
ASSUMPTIONS = [
    'events are kept in float32 by design, so scores are compared to 2e-5 '
    '(SEDI, which clips rates at 1e-6, to 5e-3), and not compared where the '
    'denominator is below 1e-6 but not zero',
    'SEEPS wet thresholds are above the dry threshold']

BASE = mo.BASE


def _table(a, b, agg):
  nan = np.isnan(a * b)
  f = lambda c: agg.mean(np.where(nan, np.nan, c.astype(float)))
  a1, b1 = a == 1, b == 1
  return f(a1 & b1), f(~a1 & ~b1), f(a1 & ~b1), f(~a1 & b1)


def _sedi(tp, tn, fp, fn):
  h = np.clip(tp / (tp + fn), 1e-6, 1 - 1e-6)
  f = np.clip(fp / (fp + tn), 1e-6, 1 - 1e-6)
  l = np.log
  return ((l(f) - l(h) + l(1 - h) - l(1 - f)) /
          (l(h) + l(f) + l(1 - h) + l(1 - f)))


SCORES = {
    'csi': (C.CSI, lambda tp, tn, fp, fn: (tp, tp + fp + fn)),
    'accuracy': (C.Accuracy, lambda tp, tn, fp, fn: (
        tp + tn, tp + tn + fp + fn)),
    'recall': (C.Recall, lambda tp, tn, fp, fn: (tp, tp + fn)),
    'far': (C.FalseAlarmRate, lambda tp, tn, fp, fn: (fp, tp + fp)),
    'precision': (C.Precision, lambda tp, tn, fp, fn: (tp, tp + fp)),
    'f1': (C.F1Score, lambda tp, tn, fp, fn: (2 * tp, 2 * tp + fp + fn)),
    'fb': (C.FrequencyBias, lambda tp, tn, fp, fn: (tp + fp, tp + fn)),
    'hss': (C.HSS, lambda tp, tn, fp, fn: (
        2 * (tp * tn - fp * fn),
        (tp + fn) * (fn + tn) + (tp + fp) * (fp + tn))),
    'ets': (C.ETS, lambda tp, tn, fp, fn: (
        tp - (tp + fp) * (tp + fn) / (tp + tn + fp + fn),
        tp + fp + fn - (tp + fp) * (tp + fn) / (tp + tn + fp + fn))),
    'sedi': (C.SEDI, None),
}


def contingency(rng, obs):
  coords = gen.grid(rng, BASE)
  dims = list(BASE)
  if rng.random() < .4:
    coords['threshold'] = np.array([0.1, 0.5, 2.0])[:int(rng.integers(1, 4))]
    dims = dims + ['threshold']
  agg = mo.Agg(rng, coords, keep_p=.25)
  p, t = {}, {}
  for v in ('a', 'b'):
    for d in (p, t):
      pr = float(rng.choice([0, .1, .5, .9, 1]))
      x = (rng.random([len(coords[k]) for k in dims]) < pr).astype(float)
      dt = str(rng.choice(['bool', 'int', 'f4', 'f8', 'f8']))
      if dt[0] == 'f' and rng.random() < .4:
        x = gen.holes(rng, x, .05)
      d[v] = mo.dataarray(x.astype(dt), dims, coords, gen.shuffled(rng, dims),
                          v)
  name = str(rng.choice(list(SCORES)))
  cls, formula = SCORES[name]
  ds = mo.evaluate(cls(), agg, p, t)
  extra = [d for d in dims if d not in BASE]
  for v in ('a', 'b'):
    a = mo.canon(p[v], dims).astype(float)
    b = mo.canon(t[v], dims).astype(float)
    tab = _table(a, b, agg)
    with np.errstate(all='ignore'):
      if name == 'sedi':
        want = _sedi(*tab)
        tp, tn, fp, fn = tab
        ok = np.ones(np.shape(want), bool)
        tol = 5e-3
      else:
        num, den = formula(*tab)
        want = num / den
        ok = ~((np.abs(den) < 1e-6))
        exact0 = (tab[0] + tab[2] + tab[3] == 0)
        if name in ('csi', 'recall', 'far', 'precision', 'f1', 'fb'):
          ok = ok | (den == 0)
        del exact0
        tol = 2e-5
        if name == 'hss' or name == 'ets':
          tol = 2e-4
    got = ds[f'm.{v}'].transpose(*agg.keep, *extra).values
    expect_close(np.where(ok, got, 0), np.where(ok, want, 0),
                 f'{name} {v} {agg.desc()} table={[x.ravel()[:2] for x in map(np.asarray, tab)]}',
                 name, rtol=tol, atol=tol)
    obs.ev('scores', int(ok.sum()))
    obs.ev('undefined_scores', int(np.isnan(want).sum()))
    obs.ev(name)
  obs.mark(name, tuple(dims), agg.reduce, agg.weighted,
           tuple(str(x.dtype) for x in (*p.values(), *t.values())))
  obs.sample(metric=name, agg=agg.desc(), table=[np.ravel(x)[:2] for x in tab])


def statistics(rng, obs):
  """The four events, element by element, including NaN."""
  coords = gen.grid(rng, BASE)
  a = gen.array(rng, coords, gen.shuffled(rng, list(BASE)), 'binary',
                nan=float(rng.choice([0, .3])), name='v')
  b = gen.array(rng, coords, gen.shuffled(rng, list(BASE)), 'binary',
                nan=float(rng.choice([0, .3])), name='v')
  x, y = mo.canon(a, BASE), mo.canon(b, BASE)
  nan = np.isnan(x) | np.isnan(y)
  for cls, e in ((C.TruePositives, (x == 1) & (y == 1)),
                 (C.TrueNegatives, (x == 0) & (y == 0)),
                 (C.FalsePositives, (x == 1) & (y == 0)),
                 (C.FalseNegatives, (x == 0) & (y == 1))):
    got = cls().compute({'v': a}, {'v': b})['v'].transpose(*BASE).values
    expect_close(got, np.where(nan, np.nan, e), cls.__name__, cls.__name__)
    obs.ev('event_cells', got.size)
  obs.mark('events', a.dims, b.dims, int(nan.sum()))


def reliability(rng, obs):
  coords = gen.grid(rng, BASE)
  agg = mo.Agg(rng, coords, keep_p=.25)
  n = int(rng.choice([3, 5, 10, 20]))
  shape = [len(coords[d]) for d in BASE]
  style = str(rng.choice(['default', 'list', 'tuple', 'da']))
  edges = [-np.inf] + [i / 10 for i in range(1, 11)]
  edges = [-np.inf, .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.]
  kw = {}
  bin_dim = 'reliability_bin'
  if style != 'default':
    k = int(rng.integers(2, 6))
    e = sorted(set(np.round(rng.random(k), 1).tolist())) or [.5]
    edges = [-np.inf if rng.random() < .5 else -0.1] + [
        x for x in e if x > 0] + [1.0 if rng.random() < .8 else np.inf]
    edges = sorted(set(edges))
    bin_dim = str(rng.choice(['reliability_bin', 'pbin']))
    kw = dict(bin_values=edges, bin_dim=bin_dim)
    if style == 'tuple':
      kw['bin_values'] = tuple(edges)
    elif style == 'da':
      kw['bin_values'] = xr.DataArray(edges, dims=[bin_dim],
                                      coords={bin_dim: edges})
      kw['statistic_suffix'] = 'x'
  p, t = {}, {}
  for v in ('a', 'b'):
    x = rng.integers(0, n + 1, shape) / n
    if rng.random() < .3:
      x = gen.holes(rng, x, .03)
    y = (rng.random(shape) < np.nan_to_num(x)).astype(float)
    p[v] = mo.dataarray(x, BASE, coords, gen.shuffled(rng, list(BASE)), v)
    t[v] = mo.dataarray(y, BASE, coords, gen.shuffled(rng, list(BASE)), v)
  ds = mo.evaluate(C.Reliability(**kw), agg, p, t)
  for v in p:
    x, y = mo.canon(p[v], BASE)[..., None], mo.canon(t[v], BASE)[..., None]
    lo, hi = np.array(edges[:-1]), np.array(edges[1:])
    inb = (x > lo) & (x <= hi)
    nan = np.isnan(x)
    tp = agg.mean(np.where(nan, np.nan, inb & (y == 1)))
    fp = agg.mean(np.where(nan, np.nan, inb & (y == 0)))
    with np.errstate(all='ignore'):
      want = tp / (tp + fp)
    got = ds[f'm.{v}'].transpose(*agg.keep, bin_dim).values
    expect_close(got, want, f'reliability {style} edges={edges} {agg.desc()}',
                 'reliability', rtol=2e-5, atol=2e-6)
    obs.ev('reliability_bins', want.size)
    obs.ev('empty_bins', int(np.isnan(want).sum()))
  obs.mark('reliability', style, len(edges), n, agg.reduce)


def seeps(rng, obs):
  coords = gen.grid(rng, BASE)
  names = ['rain', 'snow'][:int(rng.integers(1, 3))]
  days = np.arange(1, 367)
  hours = np.arange(0, 24)
  nlat, nlon = len(coords['latitude']), len(coords['longitude'])
  per_var = rng.random() < .5
  dry_mm = [float(rng.choice([0.25, 0.1, 100.0])) for _ in names]
  lo = [float(rng.choice([0.0, .1, .3])) for _ in names]
  hi = [float(rng.choice([.85, .7, 1.0])) for _ in names]
  if not per_var:
    dry_mm, lo, hi = ([x[0]] * len(names) for x in (dry_mm, lo, hi))
  clim = {}
  cd = gen.shuffled(rng, ['hour', 'dayofyear', 'latitude', 'longitude'])
  cc = {'hour': hours, 'dayofyear': days, 'latitude': coords['latitude'],
        'longitude': coords['longitude']}
  for i, v in enumerate(names):
    thr = dry_mm[i] / 1000 * (1.05 + rng.integers(
        0, 5, [len(cc[d]) for d in cd]))
    base = rng.uniform(.05, .97, (nlat, nlon))
    fr = xr.DataArray(base, dims=['latitude', 'longitude']) + xr.DataArray(
        rng.uniform(-.02, .02, (24, 366)), dims=['hour', 'dayofyear'])
    clim[f'{v}_seeps_threshold'] = (cd, thr)
    clim[f'{v}_seeps_dry_fraction'] = (cd, fr.transpose(*cd).values)
  clim = xr.Dataset(clim, coords=cc)
  vt = coords['init_time'][:, None] + coords['lead_time'][None, :]
  p, t = {}, {}
  cats = {}
  for i, v in enumerate(names):
    wet = mo.lookup(clim[f'{v}_seeps_threshold'], ['latitude', 'longitude'],
                    vt, 'hour')
    dry = dry_mm[i] / 1000.0
    for d, nm in ((p, 'p'), (t, 't')):
      choice = rng.integers(0, 5, wet.shape)
      x = np.select([choice == 0, choice == 1, choice == 2, choice == 3],
                    [0 * wet, dry + 0 * wet, wet, (wet + dry) / 2], wet * 3)
      if rng.random() < .3:
        x = gen.holes(rng, x, .05)
      d[v] = mo.dataarray(x, BASE, coords, gen.shuffled(rng, list(BASE)), v)
      c = np.where(x <= dry, 0, np.where(x < wet, 1, 2)).astype(float)
      cats[nm, v] = np.where(np.isnan(x), np.nan, c)
  mask_side = str(rng.choice(['none', 'none', 'p', 't']))
  full_mask = None
  if mask_side != 'none':
    md = gen.shuffled(rng, gen.subset(rng, list(BASE), .6)) or ['latitude']
    mk = xr.DataArray(rng.random([len(coords[d]) for d in md]) < .7, dims=md,
                      coords={d: coords[d] for d in md})
    full_mask = np.broadcast_to(mo.canon(mk, BASE),
                                [len(coords[d]) for d in BASE])
    tgt = p if mask_side == 'p' else t
    for v in names:
      tgt[v] = tgt[v].assign_coords(mask=mk)
  agg = mo.Agg(rng, coords, keep_p=.3, masked=True)
  kw = dict(dry_threshold_mm=dry_mm, min_p1=lo, max_p1=hi) if per_var else (
      dict(dry_threshold_mm=dry_mm[0], min_p1=lo[0], max_p1=hi[0]))
  ds = mo.evaluate(C.SEEPS(names, clim, **kw), agg, p, t)
  for i, v in enumerate(names):
    p1 = clim[f'{v}_seeps_dry_fraction'].transpose(
        'latitude', 'longitude', 'hour', 'dayofyear').values.mean(
            axis=(2, 3))
    with np.errstate(all='ignore'):
      z = np.zeros_like(p1)
      M = 0.5 * np.array([
          [z, 1 / (1 - p1), 4 / (1 - p1)],
          [1 / p1, z, 3 / (1 - p1)],
          [1 / p1 + 3 / (2 + p1), 3 / (2 + p1), z]])
    if np.any(np.abs(p1 - lo[i]) < 1e-6) or np.any(np.abs(p1 - hi[i]) < 1e-6):
      return
    fc, oc = cats['p', v], cats['t', v]
    nan = np.isnan(fc) | np.isnan(oc)
    s = np.empty(fc.shape)
    for ix in np.ndindex(fc.shape):
      s[ix] = np.nan if nan[ix] else M[int(fc[ix]), int(oc[ix]), ix[2], ix[3]]
    live = np.broadcast_to((p1 >= lo[i]) & (p1 <= hi[i]), s.shape)
    if full_mask is not None:
      live = live & full_mask
    want = agg.mean(s, live)
    got = ds[f'm.{v}'].transpose(*agg.keep).values
    expect_close(got, want, f'SEEPS {v} mask={mask_side} {agg.desc()} '
                 f'dry={dry_mm[i]} p1 in [{lo[i]},{hi[i]}]', 'seeps',
                 rtol=1e-8, atol=1e-9)
    obs.ev('seeps_points', int(live.sum()))
    obs.ev('seeps_masked', int((~live).sum()))
  check(set(ds.data_vars) == {f'm.{v}' for v in names}, 'SEEPS variables',
        'seeps_vars')
  if mask_side != 'none' and rng.random() < .3:
    other = t if mask_side == 'p' else p
    other = {v: x.assign_coords(mask=mk) for v, x in other.items()}
    pp, tt = (p, other) if mask_side == 'p' else (other, t)
    expect_raises(lambda: C.SEEPS(names, clim).compute(pp, tt),
                  'two masks', 'seeps_two_masks', ValueError)
  obs.mark('seeps', tuple(names), mask_side, per_var, agg.reduce)


def rps(rng, obs):
  coords = gen.grid(rng, BASE)
  agg = mo.Agg(rng, coords, keep_p=.3)
  nb = int(rng.integers(1, 5))
  dims = list(BASE) + ['bins']
  cc = dict(coords, bins=np.arange(nb))
  p, t = {}, {}
  for v in ('a', 'b'):
    x = np.sort(rng.random([len(cc[d]) for d in dims]), axis=-1)
    y = np.sort((rng.random(x.shape) < .5).astype(float), axis=-1)
    if rng.random() < .3:
      x = gen.holes(rng, x, .03)
    p[v] = mo.dataarray(x, dims, cc, gen.shuffled(rng, dims), v)
    t[v] = mo.dataarray(y, dims, cc, gen.shuffled(rng, dims), v)
  ds = mo.evaluate(C.RankedProbabilityScore('bins'), agg, p, t)
  for v in p:
    d = mo.canon(p[v], dims) - mo.canon(t[v], dims)
    want = agg.mean((d * d).sum(axis=-1))
    expect_close(mo.result(ds, f'm.{v}', agg), want, 'RPS', 'rps')
    obs.ev('rps', want.size)
  obs.mark('rps', nb, agg.reduce)


def _q(x, q):
  """Linear-interpolation quantile over the last axis; NaN propagates."""
  s = np.sort(x, axis=-1)
  n = x.shape[-1]
  pos = q * (n - 1)
  i = min(int(np.floor(pos)), n - 1)
  j = min(i + 1, n - 1)
  out = s[..., i] + (s[..., j] - s[..., i]) * (pos - i)
  return np.where(np.isnan(x).any(axis=-1), np.nan, out)


def intervals(rng, obs):
  coords = gen.grid(rng, BASE)
  n = int(rng.integers(1, 12))
  edim = str(rng.choice(['number', 'sample']))
  dims = list(BASE) + [edim]
  cc = dict(coords)
  cc[edim] = np.arange(n)
  p, t = {}, {}
  for v in ('a', 'b'):
    x = rng.normal(size=[len(cc[d]) for d in dims])
    y = rng.normal(size=x.shape[:-1])
    flat = rng.random(y.shape) < .15        # degenerate ensembles
    x = np.where(flat[..., None], y[..., None], x)
    if rng.random() < .3:
      x, y = gen.holes(rng, x, .02), gen.holes(rng, y, .02)
    p[v] = mo.dataarray(x, dims, cc, gen.shuffled(rng, dims), v)
    t[v] = mo.dataarray(y, BASE, coords, gen.shuffled(rng, list(BASE)), v)
  quants = [.05, .1, .25, .5, .75, .9, .95]
  kind = str(rng.choice(['hour', 'dayofyear']))
  cd = ['dayofyear', 'latitude', 'longitude'] + (
      ['hour'] if kind == 'hour' else [])
  ccl = {'dayofyear': np.arange(1, 367), 'hour': np.arange(24),
         'latitude': coords['latitude'], 'longitude': coords['longitude']}
  clim = {}
  for v in ('a', 'b'):
    base = rng.normal(size=[len(ccl[d]) for d in cd]) * .3
    sp = rng.random(base.shape) * 1.5 * (rng.random(base.shape) > .05)
    arr = base[None] + np.linspace(-1.5, 1.5, len(quants)).reshape(
        (-1,) + (1,) * base.ndim) * sp[None]
    clim[v] = mo.dataarray(arr, ['quantile'] + cd, dict(ccl, quantile=quants),
                           gen.shuffled(rng, ['quantile'] + cd), v)
  clim = xr.Dataset(clim)
  vt = coords['init_time'][:, None] + coords['lead_time'][None, :]
  pick = lambda: [(0.1, .9), (.25, .75), (.05, .95), (.1, .5)][
      int(rng.integers(4))]
  b1, b2, b3 = pick(), pick(), pick()
  cthr = float(rng.choice([.3, .7, 1.2]))
  jthr = float(rng.choice([.3, .75, .9]))
  S = {}
  for v in ('a', 'b'):
    x, y = mo.canon(p[v], dims), mo.canon(t[v], BASE)
    cl = lambda q: mo.lookup(clim[v].sel(quantile=q, drop=True),
                             ['latitude', 'longitude'], vt, kind)
    spread = _q(x, b1[1]) - _q(x, b1[0])
    cs = cl(b1[1]) - cl(b1[0])
    near1 = np.abs(spread - cthr * cs) < 1e-9
    conf = np.where(np.isnan(spread), np.nan, spread < cthr * cs)
    lo, hi = _q(x, b2[0]), _q(x, b2[1])
    cov = np.where(np.isnan(lo) | np.isnan(y), np.nan, (lo <= y) & (y <= hi))
    near2 = ((np.abs(lo - y) < 1e-12) | (np.abs(hi - y) < 1e-12)) & (lo != hi)
    A0, A1, B0, B1 = _q(x, b3[0]), _q(x, b3[1]), cl(b3[0]), cl(b3[1])
    inter = np.maximum(0, np.minimum(A1, B1) - np.maximum(A0, B0))
    union = (A1 - A0) + (B1 - B0) - inter
    with np.errstate(all='ignore'):
      jac = np.where(union > 0, inter / union, 1.0)
    near3 = np.abs((1 - jac) - jthr) < 1e-9
    jac = np.where(np.isnan(A0), np.nan, (1 - jac) > jthr)
    S[v] = conf, cov, jac, near1 & (spread != 0), near2, near3
  for name, m, k in (
      ('confident', C.Confident(edim, clim, b1, cthr), 0),
      ('covered', C.Covered(edim, b2), 1),
      ('jaccard', C.JaccardDistant(edim, clim, jthr, b3), 2)):
    r = m.compute(p, t)
    for v in ('a', 'b'):
      ok = ~S[v][3 + k]
      got = r[v].transpose(*BASE).values
      expect_close(np.where(ok, got, 0), np.where(ok, S[v][k], 0),
                   f'{name} n={n} bounds={(b1, b2, b3)[k]}', name)
      obs.ev(name, got.size)
      obs.ev(name + '_true', int(np.nansum(got)))
  # Combinations, point by point.
  ic = bool(rng.random() < .5)
  io = [None, True, False][int(rng.integers(3))]
  ij = [None, True, False][int(rng.integers(3))]
  m = C.Opportunism(edim, clim, ic, io, ij, b1, b2, b3, cthr, jthr)
  agg = mo.Agg(rng, coords, keep_p=1.0, weights=False)
  ds = mo.evaluate(m, agg, p, t)
  joint = {}
  for v in ('a', 'b'):
    conf, cov, jac, n1, n2, n3 = S[v]
    want = conf if ic else 1 - conf
    if io is not None:
      want = want * (cov if io else 1 - cov)
    if ij is not None:
      want = want * (jac if ij else 1 - jac)
    ok = ~(n1 | n2 | n3)
    joint[v] = want, ok
    got = ds[f'm.{v}'].transpose(*BASE).values
    expect_close(np.where(ok, got, 0), np.where(ok, want, 0),
                 f'opportunism {ic, io, ij}', 'opportunism')
    obs.ev('opportunism', got.size)
  obs.mark('intervals', n, kind, b1, b2, b3, ic, io, ij)


def opportunism_joint(rng, obs):
  """Documented as the fraction of forecasts with all the properties."""
  coords = gen.grid(rng, BASE, dict(init_time=3, lead_time=2, latitude=3,
                                    longitude=3))
  cc = dict(coords, number=np.arange(4))
  dims = list(BASE) + ['number']
  x = rng.normal(size=[len(cc[d]) for d in dims])
  y = rng.normal(size=x.shape[:-1])
  p = {'a': mo.dataarray(x, dims, cc, dims, 'a')}
  t = {'a': mo.dataarray(y, BASE, coords, BASE, 'a')}
  clim = xr.Dataset({'a': xr.DataArray(
      np.array([-1.3, 1.3])[:, None, None, None] * np.ones((1, 366, 3, 3)),
      dims=['quantile', 'dayofyear', 'latitude', 'longitude'],
      coords={'quantile': [.1, .9], 'dayofyear': np.arange(1, 367),
              'latitude': coords['latitude'],
              'longitude': coords['longitude']})})
  conf = C.Confident('number', clim, confidence_threshold=.8).compute(p, t)['a']
  cov = C.Covered('number').compute(p, t)['a']
  want = float((conf * cov).mean())
  agg = mo.Agg(rng, coords, keep_p=0, weights=False)
  ds = mo.evaluate(C.Opportunism('number', clim, True, True,
                                 confidence_threshold=.8), agg, p, t)
  obs.ev('opportunism_joint')
  got = float(ds['m.a'])
  if abs(got - want) > 1e-9:
    raise Violation(
        f'opportunism {got} but the fraction of forecasts that are confident '
        f'and covered is {want}', 'opportunism.joint')


SCENARIOS = {
    'contingency': (contingency, 1200, 15000),
    'statistics': (statistics, 100, 1000),
    'reliability': (reliability, 250, 3000),
    'seeps': (seeps, 120, 1500),
    'rps': (rps, 80, 800),
    'intervals': (intervals, 120, 1500),
    'opportunism_joint': (opportunism_joint, 3, 3),
}
MIN = dict({k: 60 for k in SCORES}, scores=3000, undefined_scores=100,
           event_cells=2000, reliability_bins=500, seeps_points=1000,
           seeps_masked=300, rps=80, confident_true=200, covered_true=200,
           jaccard_true=200, opportunism=1000)
