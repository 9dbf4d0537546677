"""C10: deterministic metrics equal their definitions."""

import numpy as np
import xarray as xr
from wbx import gen
from wbx import mo
from wbx.core import check, expect_close, expect_raises
from weatherbenchX.metrics import deterministic as D

RULE = ('every deterministic metric on random predictions/targets (any '
        'dimension order, extra level dimension, inputs lacking dimensions, '
        'float32/64, NaN, several variables) x random aggregation, compared '
        'with scalar/numpy formulas of the definition; fingerprint = (metric, '
        'dims, reduced dims, options); non-trivial = more than one value '
        'averaged')
ASSUMPTIONS = ['predictions and targets of a variable have identical labels',
               'float32 inputs: relative tolerance 2e-4 (1e-3 for ratios)']

BASE = mo.BASE


def _pair(rng, nvars=2, kind=None, nan=True, names=('a', 'b', 'c')):
  coords = gen.grid(rng, BASE)
  dims = list(BASE)
  if rng.random() < .3:
    coords['level'] = gen.COORD['level'](rng, int(rng.integers(1, 4)))
    dims = dims + ['level']
  f32 = bool(rng.random() < .25)
  p, t = {}, {}
  for v in list(names)[:nvars]:
    k = kind or str(rng.choice(['normal', 'big', 'ties', 'ints']))
    frac = float(rng.choice([0, 0, 0.1])) if nan else 0.0
    pd, td = list(dims), list(dims)
    if rng.random() < .2:
      td.remove(str(rng.choice(['init_time', 'longitude', 'lead_time'])))
    dt = np.float32 if f32 else float
    p[v] = gen.array(rng, coords, gen.shuffled(rng, pd), k, nan=frac,
                     dtype=dt, name=v)
    t[v] = gen.array(rng, coords, gen.shuffled(rng, td), k, nan=frac,
                     dtype=dt, name=v)
  return coords, tuple(dims), p, t, f32


def _tol(f32, scale=1.0):
  return dict(rtol=2e-4 if f32 else 1e-9,
              atol=(2e-3 if f32 else 1e-9) * max(1.0, scale))


def _compare(obs, name, metric, agg, p, t, dims, value, f32, trailing=(),
             maxscale=1.0, **fp):
  ds = mo.evaluate(metric, agg, p, t)
  for v, want in value.items():
    check(f'm.{v}' in ds, f'{name}: variable {v} has no value', f'lost.{name}')
    got = ds[f'm.{v}'].transpose(
        *agg.keep, *[d for d in dims if d not in BASE], *trailing).values
    expect_close(got, want, f'{name} {v} {agg.desc()} dims={p and dims}',
                 name, **_tol(f32, maxscale))
    obs.ev('values', np.size(want))
    obs.ev(f'{name}')
  check(set(ds.data_vars) == {f'm.{v}' for v in value},
        f'{name}: values {list(ds.data_vars)}', f'extra.{name}')
  obs.mark(name, tuple(sorted(fp.items())), agg.reduce, agg.weighted, f32,
           tuple(x.dims for x in p.values()))
  obs.sample(metric=name, agg=agg.desc(), **{
      k: np.ravel(x)[:3] for k, x in value.items()})


def _aggregate_dims(rng, coords, dims):
  return mo.Agg(rng, coords, dims=tuple(BASE))


def pointwise(rng, obs):
  coords, dims, p, t, f32 = _pair(rng, int(rng.integers(1, 4)))
  agg = _aggregate_dims(rng, coords, dims)
  name = str(rng.choice(['bias', 'mae', 'mse', 'rmse', 'pavg', 'tavg',
                         'pavg_nan', 'tavg_nan', 'exceed']))
  # Extra variables on either side do not count.
  if rng.random() < .3:
    t['only_target'] = t['a'].rename('only_target')
  if rng.random() < .3:
    p['only_pred'] = p['a'].rename('only_pred')
  common = [v for v in p if v in t]
  P = {v: np.broadcast_arrays(mo.canon(p[v], dims).astype(float),
                              mo.canon(t[v], dims).astype(float))
       for v in common}
  thr = sorted({float(x) for x in rng.choice(
      [0.0, 0.5, 1.0, 2.5, 30.0], size=3)})
  trailing = ()
  if name == 'bias':
    m, f = D.Bias(), lambda a, b: a - b
  elif name == 'mae':
    m, f = D.MAE(), lambda a, b: np.maximum(a - b, b - a)
  elif name == 'mse':
    m, f = D.MSE(), lambda a, b: (a - b) * (a - b)
  elif name == 'rmse':
    m, f = D.RMSE(), lambda a, b: (a - b) * (a - b)
  elif name == 'pavg':
    m, f = D.PredictionAverage(), lambda a, b: a
  elif name == 'tavg':
    m, f = D.TargetAverage(), lambda a, b: b
  elif name == 'pavg_nan':
    m = D.PredictionAverage(copy_nans_from_targets=True)
    f = lambda a, b: np.where(np.isnan(b), np.nan, a)
  elif name == 'tavg_nan':
    m = D.TargetAverage(copy_nans_from_predictions=True)
    f = lambda a, b: np.where(np.isnan(a), np.nan, b)
  else:
    f32 = False
    for d in (p, t):   # avoid float32 threshold ties
      for v in d:
        d[v] = d[v].astype(float)
    style = str(rng.choice(['list', 'tuple', 'da', 'ds']))
    if style in ('list', 'tuple'):
      arg = thr if style == 'list' else tuple(thr)
      tdim = 'error_exceedance_thresholds'
    elif style == 'da':
      arg = xr.DataArray(thr, dims=['thr'], coords={'thr': thr})
      tdim = 'thr'
    else:
      vv = [x + i for i, x in enumerate(thr)]
      if len(thr) > 1 and rng.random() < .5:
        vv[-1] = np.nan
      arg = xr.Dataset({v: xr.DataArray(
          vv, dims=['thr'], coords={'thr': thr}) for v in common})
      tdim = 'thr'
    vals = np.asarray(vv if style == 'ds' else thr, float)
    trailing = (tdim,)

    def f(a, b):
      e = np.abs(a - b)[..., None]
      r = (e > vals).astype(float)
      return np.where(np.isnan(e) | np.isnan(vals), np.nan, r)
    m = D.ErrorExceedance(arg)
  scale = 1.0
  value = {}
  for v in common:
    s = f(*P[v])
    # bring the level dimension behind the aggregated ones (already is)
    scale = max(scale, float(np.nanmax(np.abs(s))) if np.isfinite(
        s).any() else 1.0)
    value[v] = agg.mean(s)
    if name == 'rmse':
      value[v] = np.sqrt(value[v])
  _compare(obs, name, m, agg, p, t, dims, value, f32, trailing,
           scale if name != 'rmse' else np.sqrt(scale) * 10)


def wind(rng, obs):
  nvec = int(rng.integers(1, 3))
  names = ['u0', 'v0', 'u1', 'v1'][:2 * nvec]
  coords, dims, p, t, f32 = _pair(rng, 2 * nvec, 'normal', names=names)
  agg = _aggregate_dims(rng, coords, dims)
  us, vs = names[0::2], names[1::2]
  out = [f'w{i}' for i in range(nvec)]
  order = gen.shuffled(rng, list(range(nvec)))
  us, vs, out = ([x[i] for i in order] for x in (us, vs, out))
  root = rng.random() < .5
  cls = D.WindVectorRMSE if root else D.WindVectorSquaredError
  if root and nvec == 1 and rng.random() < .5:
    m = cls(us[0], vs[0], out[0])
  else:
    m = cls(us, vs, out)
  value = {}
  for u, v, o in zip(us, vs, out):
    full = 0
    for c in (u, v):
      full = full + (mo.canon(p[c], dims).astype(float)
                     - mo.canon(t[c], dims).astype(float)) ** 2
    value[o] = agg.mean(np.broadcast_to(
        full, [len(coords[d]) for d in dims]))
    if root:
      value[o] = np.sqrt(value[o])
  _compare(obs, 'wind', m, agg, p, t, dims, value, f32, n=nvec, root=root)
  expect_raises(lambda: cls(us, vs + ['x'], out), 'unequal name lists',
                'wind_names', ValueError)


def relative_intensity(rng, obs):
  coords, dims, p, t, f32 = _pair(rng, 2, nan=rng.random() < .3)
  f32 = False
  p = {k: abs(v.astype(float)) for k, v in p.items()}
  t = {k: abs(v.astype(float)) for k, v in t.items()}
  full = {k: xr.broadcast(p[k], t[k])[1] for k in t}
  t = {k: full[k].transpose(*gen.shuffled(rng, list(full[k].dims)))
       for k in t}
  if rng.random() < .2:
    for k in t:
      t[k] = t[k] * 0
      p[k] = p[k] * (rng.random() < .5)
  sd = ('latitude', 'longitude') if rng.random() < .6 else tuple(
      gen.shuffled(rng, gen.subset(rng, list(BASE), .5)) or ['latitude'])
  mask = None
  if rng.random() < .5:
    md = gen.shuffled(rng, list(set(sd) | set(gen.subset(rng, BASE, .3))))
    mask = xr.DataArray(
        rng.random([len(coords[d]) for d in md]) < .5, dims=md,
        coords={d: coords[d] for d in md})
    t = {k: v.assign_coords(mask=mask) for k, v in t.items()}
  rest = [d for d in dims if d not in sd]
  adims = [d for d in BASE if d not in sd]
  agg = mo.Agg(rng, coords, dims=tuple(adims), weights=False,
               masked=mask is not None)
  m = D.RelativeIntensity() if sd == ('latitude', 'longitude') and (
      rng.random() < .5) else D.RelativeIntensity(spatial_dims=sd)
  ax = tuple(dims.index(d) for d in sd)
  value = {}
  for v in p:
    a, b = mo.canon(p[v], dims), mo.canon(t[v], dims)
    if mask is None:
      am, bm = a.mean(axis=ax), b.mean(axis=ax)
      live = None
    else:
      mk = np.broadcast_to(mo.canon(mask.drop_vars('mask', errors='ignore'),
                                    dims), a.shape)
      n = mk.sum(axis=ax)
      with np.errstate(all='ignore'):
        am = np.where(mk, a, 0).sum(axis=ax) / n
        bm = np.where(mk, b, 0).sum(axis=ax) / n
      live = n > 0
      am, bm = np.where(live, am, 0), np.where(live, bm, 0)
    s = np.abs((am + 1e-6) / (bm + 1e-6) - 1)
    # agg.mean wants base dims first; level (if any) trails already.
    order = [rest.index(d) for d in adims] + [
        rest.index(d) for d in rest if d not in adims]
    s = np.transpose(s, order)
    if live is not None:
      live = np.transpose(live, order)
    value[v] = agg.mean(s, live)
  ds = mo.evaluate(m, agg, p, t)
  for v in value:
    got = ds[f'm.{v}'].transpose(
        *agg.keep, *[d for d in dims if d not in BASE]).values
    expect_close(got, value[v],
                 f'relative intensity over {sd} mask={mask is not None} '
                 f'{agg.desc()}', 'rel_intensity', rtol=1e-7, atol=1e-9)
    obs.ev('values', got.size)
    obs.ev('rel_intensity')
  obs.mark('rel', sd, mask is not None, agg.reduce)


def anomaly(rng, obs):
  """ACC and activity with a climatology looked up at the valid time."""
  coords = gen.grid(rng, BASE)
  dims = list(BASE)
  kind = str(rng.choice(['hour', 'dayofyear', 'time']))
  inits, leads = coords['init_time'], coords['lead_time']
  vt = inits[:, None] + leads[None, :]
  sp = gen.shuffled(rng, ['latitude', 'longitude'])
  cc = {'latitude': coords['latitude'], 'longitude': coords['longitude']}
  if kind == 'time':
    tm = np.unique(vt.ravel())
    tm = rng.permutation(np.unique(np.concatenate(
        [tm, tm + np.timedelta64(1, 'h')])))
    cd = ['time'] + sp
    cc['time'] = tm
  elif kind == 'dayofyear':
    cd = ['dayofyear'] + sp
    cc['dayofyear'] = np.arange(1, 367)
  else:
    cd = ['hour', 'dayofyear'] + sp
    cc['dayofyear'] = np.arange(1, 367)
    cc['hour'] = np.arange(24)
  cd = gen.shuffled(rng, cd)
  names = ['a', 'b'][:int(rng.integers(1, 3))]
  clim = xr.Dataset({v: xr.DataArray(
      rng.normal(size=[len(cc[d]) for d in cd]), dims=cd,
      coords={d: cc[d] for d in cd}) for v in names + ['unused']})
  p = {v: gen.array(rng, coords, gen.shuffled(rng, dims), 'normal', name=v)
       for v in names}
  t = {v: gen.array(rng, coords, gen.shuffled(rng, dims), 'normal', name=v)
       for v in names}
  agg = mo.Agg(rng, coords)
  which = str(rng.choice(['acc', 'activity', 'cov', 'sqp', 'sqt']))
  m = {'acc': D.ACC, 'activity': D.PredictionActivity,
       'cov': D.AnomalyCovariance, 'sqp': D.SquaredPredictionAnomaly,
       'sqt': D.SquaredTargetAnomaly}[which](climatology=clim)
  value = {}
  for v in names:
    c = mo.lookup(clim[v], ['latitude', 'longitude'], vt, kind)
    pa = mo.canon(p[v], dims) - c
    ta = mo.canon(t[v], dims) - c
    cov, pp, tt = agg.mean(pa * ta), agg.mean(pa * pa), agg.mean(ta * ta)
    value[v] = {'acc': cov / np.sqrt(pp * tt), 'activity': np.sqrt(pp),
                'cov': cov, 'sqp': pp, 'sqt': tt}[which]
  _compare(obs, which, m, agg, p, t, tuple(dims), value, False, kind=kind)
  if kind != 'time':
    obs.ev('calendar_lookups', vt.size)


SCENARIOS = {
    'pointwise': (pointwise, 1200, 16000),
    'wind': (wind, 200, 2500),
    'relative_intensity': (relative_intensity, 250, 3000),
    'anomaly': (anomaly, 450, 6000),
}
MIN = {'values': 5000, 'exceed': 60, 'wind': 150, 'rel_intensity': 100,
       'acc': 50, 'activity': 50, 'calendar_lookups': 300, 'rmse': 60}
