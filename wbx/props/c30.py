"""C30: the evaluation programs deliver the scores their command line describes."""

import copy
import glob
import importlib.util
import os
import sys
import types

import numpy as np
import xarray as xr
from absl import flags
from wbx import gen
from wbx.core import check
from wbx.props import c08

RULE = ('the evaluation programs themselves, run in full (flags, real model '
        'configurations with local stores, loaders, pipeline, netCDF output): '
        'models (deterministic, with missing values, ensembles under two '
        'dimension names, single members, ensemble means, persistence, '
        'climatology, probabilistic climatology) x targets x stored layouts '
        '(dimension orders, descending latitudes, lat/lon names, more times '
        'and levels than evaluated, f4/f8) x time windows, steps and chunk '
        'sizes x temporal or not; every number of the output file is compared '
        'with a numpy evaluation of the same window; fingerprint = (program, '
        'model, target, options)')
ASSUMPTIONS = ['times are stored at least every 6 hours where they are needed',
               'stores have no missing values except for the model whose '
               'configuration allows them']
CASE_TIMEOUT = 300
ROOT = os.environ.get('WBX_REPO', '/repo')
H = np.timedelta64(1, 'h')
NS = 'datetime64[ns]'

# The regions of the scorecard: (south, north), (west, east).
REGIONS = {
    'global': (-90, 90, 0, 360), 'tropics': (-20, 20, 0, 360),
    'northern-hemisphere': (20, 90, 0, 360),
    'southern-hemisphere': (-90, -20, 0, 360),
    'europe': (35, 75, -12.5, 42.5), 'north-america': (25, 60, 240, 285),
    'north-atlantic': (25, 65, 290, 350), 'north-pacific': (25, 60, 145, 230),
    'east-asia': (25, 60, 102.5, 150), 'ausnz': (-45, -12.5, 120, 175),
    'arctic': (60, 90, 0, 360), 'antarctic': (-90, -60, 0, 360),
    'northern-africa': (5, 32.5, -12.5, 37.5),
    'southern-africa': (-30, 5, 12.5, 37.5),
    'south-america': (-40, 5, -75, -45), 'west-asia': (15, 60, 42.5, 102.5),
    'south-east-asia': (-12.5, 25, 95, 125)}
LEVELS = (500, 700, 850)


# --- Running a program ------------------------------------------------------


def run_program(path, args):
  """Executes a program with the given flags in this process."""
  before = set(flags.FLAGS)
  here = os.path.dirname(path)
  name = 'wbx_program_' + os.path.basename(path)[:-3]
  spec = importlib.util.spec_from_file_location(name, path)
  mod = importlib.util.module_from_spec(spec)
  sys.modules[name] = mod
  sys.path.insert(0, here)
  try:
    spec.loader.exec_module(mod)
    argv = flags.FLAGS(['program'] + args)
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
      mod.main(argv)
    except Exception as e:
      e.wbx_code_ran = True  # Not a failure of the harness.
      raise
    finally:
      sys.stdout.close()
      sys.stdout = out
  finally:
    sys.path.remove(here)
    del sys.modules[name]
    for f in set(flags.FLAGS) - before:
      delattr(flags.FLAGS, f)


def real_configs():
  path = os.path.join(ROOT, 'public_benchmark', 'public_configs.py')
  spec = importlib.util.spec_from_file_location('wbx_public_configs', path)
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  return mod


# --- Data ---------------------------------------------------------------------


def has_level(v):
  return v in ('geopotential', 'temperature', 'u_component_of_wind',
               'v_component_of_wind', 'wind_speed', 'specific_humidity')


def _values(rng, v, shape):
  if v.startswith('total_precipitation'):
    x = rng.gamma(.4, .004, shape)
    return np.where(rng.random(shape) < .3, 0.0, x)
  return 10 + rng.normal(size=shape) * 3


class World:
  """Canonical arrays [time..., level, latitude, longitude, (number)]."""

  def __init__(self, rng, variables, levels, n_extra=1):
    self.dt = str(rng.choice(['f4', 'f8']))
    nlat, nlon = int(rng.integers(4, 9)), int(rng.choice([4, 6, 8, 12]))
    if rng.random() < .5:
      self.lat = np.linspace(-90, 90, nlat)
    else:
      self.lat = np.linspace(-90, 90, nlat + 1)[1:] - 90 / nlat
    self.lon = np.arange(nlon) * 360 / nlon
    self.levels = np.array(sorted({*levels, 1000}))
    self.variables = list(variables)

  def field(self, rng, v, lead, tail=()):
    shape = list(lead) + ([len(self.levels)] if has_level(v) else []) + [
        len(self.lat), len(self.lon)] + list(tail)
    return _values(rng, v, shape).astype(self.dt)

  def dims(self, v, lead, tail=()):
    return (list(lead) + (['level'] if has_level(v) else []) +
            ['latitude', 'longitude'] + list(tail))

  def store(self, rng, path, arrays, lead, coords, tail=(), names=None,
            more=None, flip=None):
    """Writes arrays in a random layout."""
    ds = xr.Dataset(
        {v: (self.dims(v, lead, tail), a) for v, a in arrays.items()},
        coords=dict(coords, level=self.levels, latitude=self.lat,
                    longitude=self.lon))
    if more is not None:
      ds = ds.assign(more)
    if rng.random() < .5:
      ds = ds.isel(level=gen.shuffled(rng, range(len(self.levels))))
    if flip or (flip is None and rng.random() < .4):
      ds = ds.isel(latitude=slice(None, None, -1))
    ds = ds.transpose(*gen.shuffled(rng, ds.dims))
    if not any(v in ds for v in arrays if has_level(v)):
      pass
    ds.rename(names or {}).to_zarr(path, zarr_format=2, consolidated=True)


def members(w, regions, land):
  """{region name: (latitude, longitude) membership}."""
  out = {}
  for name, (a, b, c, d) in regions.items():
    la = (w.lat >= a) & (w.lat <= b)
    lo = ((w.lon - c) % 360 <= d - c) | (d - c == 360)
    out[name] = la[:, None] & lo[None, :]
  if land is not None:
    out.update({f'{k}_land': m & land for k, m in list(out.items())})
  return out


def average(w, regs, x, mask, keep_init):
  """{region: [(init), lead, (level)]} area-weighted mean of x."""
  area = c08.areas(w.lat)
  axes = (-2, -1) if keep_init else (0, -2, -1)
  out = []
  for m in regs.values():
    wt = np.broadcast_to(area[:, None] * m, x.shape)
    wt = np.where(mask, wt, 0.0) if mask is not None else wt
    s = np.sum(np.where(wt > 0, x, 0.0) * wt, axis=axes)
    n = np.sum(wt, axis=axes)
    with np.errstate(invalid='ignore', divide='ignore'):
      out.append(np.where(n > 0, s / n, np.nan))
  return np.array(out)


def seeps(p, t, wet, p1, dry_mm):
  """Score of each point; NaN where the climatology is too dry or too wet."""
  dry = dry_mm / 1000
  cat = lambda x: np.where(x <= dry, 0, np.where(x < wet, 1, 2))
  with np.errstate(divide='ignore'):
    z = np.zeros_like(p1)
    # Rows: forecast, columns: truth.
    mat = .5 * np.array([[z, 1 / (1 - p1), 4 / (1 - p1)],
                         [1 / p1, z, 3 / (1 - p1)],
                         [1 / p1 + 3 / (2 + p1), 3 / (2 + p1), z]])
  f, o = cat(p), cat(t)
  out = np.full(p.shape, np.nan)
  for i in range(3):
    for j in range(3):
      hit = (f == i) & (o == j)
      out = np.where(hit, np.broadcast_to(mat[i, j], p.shape), out)
  return np.where((p1 >= .1) & (p1 <= .85), out, np.nan)


def det_scores(w, regs, p, t, clim, masks, keep, precip):
  """{metric.variable: (array, tolerance scale)} of the deterministic suite."""
  out = {}
  for v in p:
    x, y, c = (a[v].astype(float) for a in (p, t, clim))
    m = masks.get(v)
    av = lambda z, m=m: average(w, regs, z, m, keep)
    e = x - y
    out[f'mse.{v}'] = av(e ** 2)
    out[f'rmse.{v}'] = np.sqrt(av(e ** 2))
    out[f'bias.{v}'] = av(e)
    pa, ta = x - c, y - c
    with np.errstate(invalid='ignore', divide='ignore'):
      out[f'acc.{v}'] = av(pa * ta) / np.sqrt(av(pa ** 2) * av(ta ** 2))
    out[f'prediction_activity.{v}'] = np.sqrt(av(pa ** 2))
  for u, v, n in (('u_component_of_wind', 'v_component_of_wind', 'wind'),
                  ('10m_u_component_of_wind', '10m_v_component_of_wind',
                   '10m_wind')):
    if u in p and v in p:
      m = masks.get(u)
      if m is not None:
        m = m & masks[v]
      z = sum((p[k].astype(float) - t[k].astype(float)) ** 2 for k in (u, v))
      out[f'vector_rmse.{n}'] = np.sqrt(average(w, regs, z, m, keep))
  for v in precip:
    z = seeps(p[v].astype(float), t[v].astype(float),
              clim[v + '_seeps_threshold'], clim[v + '_p1'],
              {'total_precipitation_6hr': .1,
               'total_precipitation_24hr': .25}[v])
    out[f'seeps.{v}'] = average(w, regs, np.nan_to_num(z), ~np.isnan(z), keep)
  return out


def ens_scores(w, regs, p, t, keep):
  """The probabilistic suite; members are the last axis."""
  out = {}
  for v in p:
    x, y = p[v].astype(float), t[v].astype(float)
    av = lambda z: average(w, regs, z, None, keep)
    n = x.shape[-1]
    mean, var = x.mean(-1), x.var(-1, ddof=1)
    skill = np.abs(x - y[..., None]).mean(-1)
    spread = np.abs(x[..., :, None] - x[..., None, :]).sum((-1, -2)) / (
        n * (n - 1))
    out[f'crps.{v}'] = av(skill - spread / 2)
    umse = av((mean - y) ** 2 - var / n)
    with np.errstate(invalid='ignore', divide='ignore'):
      out[f'unbiased_mean_rmse.{v}'] = np.sqrt(umse)
      out[f'unbiased_spread_skill.{v}'] = np.sqrt(av(var) / umse)
    out[f'mean_rmse.{v}'] = np.sqrt(av((mean - y) ** 2))
    # Around zero the estimate may have either sign.
    small = ~(np.abs(umse) > .02 * av((mean - y) ** 2))
    for k in ('unbiased_mean_rmse', 'unbiased_spread_skill'):
      out[f'{k}.{v}'] = np.where(small, np.inf, out[f'{k}.{v}'])
  return out


def compare(w, res, want, regs, init, leads, levels, keep, what, obs):
  check(set(res.data_vars) == set(want),
        f'{what}: scores {set(res.data_vars) ^ set(want)} missing or '
        'unexpected', 'scores')
  rtol, atol = (2e-4, 2e-4) if w.dt == 'f4' else (1e-7, 1e-9)
  for name, x in want.items():
    lev = has_level(name.split('.', 1)[1]) or name.endswith('.wind')
    dims = ['region'] + (['init_time'] if keep else []) + ['lead_time'] + (
        ['level'] if lev else [])
    da = res[name]
    check(set(da.dims) == set(dims), f'{what}: dimensions {da.dims} of {name}',
          'dims')
    check(set(da.region.values) == set(regs) and
          da.region.size == len(regs), f'{what}: regions', 'regions')
    for d, lab in (('init_time', init), ('lead_time', leads),
                   ('level', levels)):
      if d in dims:
        check(len(da[d]) == len(lab) and set(da[d].values) == set(lab),
              f'{what}: {d} of {name}: {da[d].values}, expected {lab}',
              'labels')
    sel = {'region': list(regs), 'lead_time': leads}
    if keep:
      sel['init_time'] = init
    if lev:
      sel['level'] = levels
    got = da.sel(sel).transpose(*dims).values
    if lev:
      x = x[..., [list(w.levels).index(l) for l in levels]]
    open_ = np.isinf(x)
    ok = open_ | np.isclose(got, x, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
      i = tuple(np.argwhere(~ok)[0])
      check(False, f'{what}: {name} of {list(regs)[i[0]]} at {i[1:]}: '
            f'{got[i]}, expected {x[i]} ({(~ok).sum()} of {ok.size})',
            'value')
    obs.ev('scores_compared', int((~open_ & ~np.isnan(x)).sum()))
    obs.ev('empty', int(np.isnan(x).sum()))
    obs.ev('metric_' + name.split('.')[0])


# --- The benchmark program ----------------------------------------------------


def _climatology(w, rng, variables, precip):
  arr = {v: w.field(rng, v, (4, 366)) for v in variables}
  more = {}
  for v in precip:
    dims = ('hour', 'dayofyear', 'latitude', 'longitude')
    shape = (4, 366, len(w.lat), len(w.lon))
    p1 = np.clip(rng.uniform(0, 1, shape[2:]) + rng.uniform(
        -.05, .05, shape), 0, 1).astype(w.dt)
    more[v + '_seeps_dry_fraction'] = (dims, p1)
    more[v + '_seeps_threshold'] = (dims, rng.uniform(
        .001, .01, shape).astype(w.dt))
  return arr, more


def benchmark(rng, obs):
  """One run of the benchmark program."""
  cfg = real_configs()
  det = cfg.deterministic_prediction_configs
  kind = str(rng.choice(['det', 'det', 'keisler', 'ens', 'ens', 'single',
                         'persistence', 'climatology', 'prob', 'year'],
                        p=[.2, .1, .1, .1, .1, .1, .1, .08, .07, .05]))
  if kind == 'ens':
    key = str(rng.choice(sorted(cfg.probabilistic_prediction_configs)))
  elif kind in ('persistence', 'climatology', 'prob'):
    key = str(rng.choice(sorted(cfg.climatology_configs)))
    key = ({'prob': 'probabilistic_climatology'}.get(kind, kind)
           + key[len('era5'):])
    if key.endswith('2016'):
      key = key[:-4] + '2018'
  else:
    pool = sorted(det)
    pool = [k for k in pool if ('single_member' in k) == (kind == 'single')
            and ('keisler' in k) == (kind == 'keisler')]
    key = str(rng.choice(pool))
  model, res, year = key.rsplit('_', 2)
  target = str(rng.choice(['era5', 'hres_t0']))
  given = (det.get(key) or cfg.probabilistic_prediction_configs.get(key) or
           (cfg.climatology_configs if kind == 'climatology' else
            {})[f'era5_{res}_{year}'] if kind not in ('persistence', 'prob')
           else cfg.target_configs[f'era5_{res}'])
  pconf = copy.deepcopy(given)
  tconf = copy.deepcopy(cfg.target_configs[f'{target}_{res}'])
  cconf = copy.deepcopy(cfg.climatology_configs[f'era5_{res}_{year}'])
  levels = pconf.get('levels', list(LEVELS))
  both = [v for v in pconf['variables'] if v in tconf['variables']]
  n = int(rng.integers(1, 5))
  used = gen.shuffled(rng, both)[:n]
  if rng.random() < .5:
    used += [v for v in ('u_component_of_wind', 'v_component_of_wind')
             if v in both]
  if rng.random() < .5:
    used += [v for v in both if v.startswith('total_prec')]
  used = sorted(set(used))
  if not any(has_level(v) for v in used):
    used.append('temperature')
  # The configurations name variables the other side does not have.
  pconf['variables'] = gen.shuffled(rng, used + [
      v for v in ('specific_humidity',) if v in pconf['variables']
      and v not in used and rng.random() < .3])
  common = sorted(used)
  drop = [v for v in pconf['variables'] if v not in used]
  tconf['variables'] = gen.shuffled(rng, used)
  precip = [v for v in common if v.startswith('total_prec')]
  w = World(rng, common, levels)

  # Times.
  y = int(year)
  day = int(rng.choice([0, 58, 180, 363]))
  start = np.datetime64(f'{y}-01-01', 'h') + day * 24 * H
  freq = 12
  args = []
  if kind == 'year':
    start = np.datetime64(f'{y}-01-01', 'h')
    stop = np.datetime64(f'{y + 1}-01-01', 'h')
    if y == 2022 or model == 'fuxi':
      stop = np.datetime64(f'{y}-12-16', 'h')
    tag = str(year)
    args.append('--init_time_chunk_size=400')
  else:
    if rng.random() < .4:
      freq = int(rng.choice([6, 12, 24]))
      args.append(f'--time_frequency={freq}')
    ni = int(rng.integers(1, 4))
    stop = start + ((ni - 1) * freq + int(rng.integers(1, freq + 1))) * H
    a = str(start)[:-3] if rng.random() < .3 else str(start)
    if str(start)[-2:] != '00':
      a = str(start)
    args += [f'--time_start={a}', f'--time_stop={stop}',
             f'--init_time_chunk_size={int(rng.integers(1, 4))}']
    tag = f'{a}_{stop}'
  init = np.arange(start, stop, freq * H).astype(NS)
  step = int(rng.choice([6, 6, 12]))
  all_leads = (np.arange(5) * 6 * H).astype('timedelta64[ns]')
  if kind == 'year':
    all_leads = all_leads[[0, 2]]
  default_leads = kind not in ('persistence', 'climatology', 'prob') and (
      kind == 'year' or rng.random() < .4)
  if default_leads:
    leads = all_leads
  else:
    a = int(rng.choice([0, 6]))
    b = int(rng.choice([12, 18, 24]))
    leads = (np.arange(a, b, step) * H).astype('timedelta64[ns]')
    args += [f'--lead_time_start={a}', f'--lead_time_stop={b}']
    if step != 6 or rng.random() < .5:
      args.append(f'--lead_time_frequency={step}')
  args.append(f'--lead_time_chunk_size={int(rng.integers(1, 8))}')
  keep = bool(rng.random() < .35) and kind != 'year'
  if keep:
    args.append('--temporal')
  valid = np.unique(np.concatenate(
      [(init[:, None] + all_leads).ravel(),
       (init[:, None] + leads).ravel(), init]))
  extra = (valid[-1] + np.arange(1, 3) * 6 * H).astype(NS)
  vt = np.concatenate([[valid[0] - 6 * H], valid, extra]).astype(NS)

  # Target store, with the land-sea mask as the programs expect it.
  tmp = obs.tmp
  tgt = {v: w.field(rng, v, (len(vt),)) for v in common}
  land = rng.random((len(w.lat), len(w.lon))) < .4
  lsm = {'land_sea_mask': (('latitude', 'longitude'), land.astype(w.dt))}
  w.store(rng, f'{tmp}/target.zarr', tgt, ['time'], {'time': vt}, more=lsm)
  at = lambda times: np.searchsorted(vt, times)
  vi = at(init[:, None] + leads)
  t = {v: a[vi] for v, a in tgt.items()}

  # Climatology store.
  clim, cmore = _climatology(w, rng, common, precip)
  w.store(rng, f'{tmp}/clim.zarr', clim, ['hour', 'dayofyear'],
          {'hour': np.arange(0, 24, 6), 'dayofyear': np.arange(1, 367)},
          more=cmore)
  vtimes = init[:, None] + leads
  doy = ((vtimes.astype('datetime64[D]') - vtimes.astype('datetime64[Y]'))
         .astype(int))
  hod = (vtimes - vtimes.astype('datetime64[D]')).astype(
      'timedelta64[h]').astype(int) // 6
  c = {v: a[hod, doy] for v, a in clim.items()}
  for v in precip:
    c[v + '_seeps_threshold'] = cmore[v + '_seeps_threshold'][1][
        hod, doy].astype(float)
    c[v + '_p1'] = cmore[v + '_seeps_dry_fraction'][1].astype(float).mean(
        (0, 1))

  # Prediction store.
  masks, p, path = {}, None, f'{tmp}/pred.zarr'
  era5 = f'{tmp}/target.zarr'
  if kind == 'persistence':
    # Always ERA5, whatever the target.
    other = {v: w.field(rng, v, (len(vt),)) for v in common}
    era5 = f'{tmp}/era5.zarr'
    w.store(rng, era5, other, ['time'], {'time': vt}, more=lsm)
    if target == 'era5':
      other, era5 = tgt, f'{tmp}/target.zarr'
    p = {v: np.broadcast_to(a[at(init)][:, None], t[v].shape)
         for v, a in other.items()}
  elif kind == 'climatology':
    p = {v: c[v] for v in common}
  elif kind == 'prob':
    years = np.arange(1990, 2020)
    off = (doy[..., None] * 24 + hod[..., None] * 6) * H
    ct = (np.array([np.datetime64(str(x)) for x in years]).astype(NS)
          + off.astype('timedelta64[ns]'))
    vt2 = np.unique(np.concatenate([ct.ravel(), vt]))
    other = {v: w.field(rng, v, (len(vt2),)) for v in common}
    era5 = f'{tmp}/era5.zarr'
    w.store(rng, era5, other, ['time'], {'time': vt2}, more=lsm)
    ix = np.searchsorted(vt2, ct)
    if target == 'era5':
      t = {v: a[np.searchsorted(vt2, vtimes)] for v, a in other.items()}
    p = {v: np.moveaxis(a[ix], 2, -1) for v, a in other.items()}
  else:
    ens = kind in ('ens', 'single')
    tail = ['number'] if ens else []
    if model == 'neuralgcm_ens' or (kind == 'single' and rng.random() < .7):
      tail = ['realization'] if model.startswith('neural') else [str(
          rng.choice(['number', 'sample', 'member', 'realization']))]
    if kind == 'ens' and model == 'ens':
      tail = ['number']
    nm = int(rng.integers(2, 5)) if ens else None
    pit = np.concatenate([[init[0] - 6 * H], init, [init[-1] + 6 * H]]).astype(
        NS)
    pit = np.unique(pit)
    raw = {v: w.field(rng, v, (len(pit), len(all_leads)),
                      [nm] if ens else []) for v in common + drop}
    if kind == 'keisler':
      for v in common:
        raw[v] = gen.holes(rng, raw[v], .1)
    coords = {'time': pit, 'prediction_timedelta': all_leads}
    if ens:
      coords[tail[0]] = np.arange(nm)
    names = {}
    # Renamed by the loaders unless the configuration gives its own names.
    if 'data_loader_kwargs' not in pconf and rng.random() < .3:
      names = {'latitude': 'lat', 'longitude': 'lon'}
    w.store(rng, path, raw, ['time', 'prediction_timedelta'], coords, tail,
            names)
    ii, li = np.searchsorted(pit, init), np.searchsorted(all_leads, leads)
    p = {v: raw[v][ii][:, li] for v in common}
    if kind == 'single':
      p = {v: a[..., 0] for v, a in p.items()}
    if kind == 'keisler':
      masks = {v: ~np.isnan(a) for v, a in p.items()}
      p = {v: np.where(masks[v], a, 0) for v, a in p.items()}

  # The configuration module.
  mod = types.ModuleType('wbx_benchmark_config')
  pconf['path'], tconf['path'], cconf['path'] = (
      path, f'{tmp}/target.zarr', f'{tmp}/clim.zarr')
  econf = copy.deepcopy(cfg.target_configs[f'era5_{res}'])
  econf['path'] = era5
  if target == 'era5':
    tconf['path'] = era5
  if kind in ('persistence', 'prob'):
    econf['variables'] = pconf['variables'] = tconf['variables']
  if kind == 'climatology':
    cconf['variables'] = common
  tc = {f'era5_{res}': econf, f'{target}_{res}': tconf}
  if target == 'era5' and kind in ('persistence', 'prob'):
    tc = {f'era5_{res}': econf}
  mod.target_configs = tc
  mod.climatology_configs = {f'era5_{res}_{year}': cconf}
  prob = kind in ('ens', 'prob')
  mod.deterministic_prediction_configs = {} if prob else {key: pconf}
  mod.probabilistic_prediction_configs = {key: pconf} if prob else {}
  sys.modules[mod.__name__] = mod
  obs.sample(args=' '.join(args))
  what = f'{model} vs {target} {res} {year} {" ".join(args)}'
  try:
    run_program(
        os.path.join(ROOT, 'public_benchmark', 'run_benchmark_evaluation.py'),
        [f'--config={mod.__name__}', f'--prediction={model}',
         f'--target={target}', f'--resolution={res}', f'--year={year}',
         f'--output_dir={tmp}', '--runner=DirectRunner'] + args)
  finally:
    del sys.modules[mod.__name__]
  name = f'{model}_vs_{target}_{res}_{tag}' + ('_temporal' if keep else '')
  files = [os.path.basename(f) for f in glob.glob(f'{tmp}/*.nc')]
  check(files == [name + '.nc'], f'{what}: files {files}, expected {name}.nc',
        'file')
  regs = members(w, REGIONS, land)
  if prob:
    want = ens_scores(w, regs, p, t, keep)
  else:
    want = det_scores(w, regs, p, t, c, masks, keep, precip)
  with xr.open_dataset(f'{tmp}/{name}.nc') as out:
    compare(w, out.load(), want, regs, init, leads, levels, keep, what, obs)
  obs.ev('benchmark_runs')
  obs.ev('kind_' + kind)
  obs.mark('benchmark', model, target, keep, default_leads, common)


# --- The example program ------------------------------------------------------


def example(rng, obs):
  """One run of the example program."""
  names = ['geopotential', 'temperature', '2m_temperature',
           'mean_sea_level_pressure', 'specific_humidity']
  common = sorted(gen.shuffled(rng, names)[:int(rng.integers(1, 4))])
  w = World(rng, common, LEVELS)
  start = np.datetime64('2020-02-28', 'h')
  freq = int(rng.choice([6, 12, 24]))
  ni = int(rng.integers(1, 5))
  stop = start + ((ni - 1) * freq + int(rng.integers(1, freq + 1))) * H
  init = np.arange(start, stop, freq * H).astype(NS)
  a, b, step = int(rng.choice([0, 6])), int(rng.choice([12, 18, 24])), int(
      rng.choice([6, 12]))
  leads = (np.arange(a, b, step) * H).astype('timedelta64[ns]')
  all_leads = (np.arange(5) * 6 * H).astype('timedelta64[ns]')
  vt = (start + np.arange(-1, 25) * 6 * H).astype(NS)
  tgt = {v: w.field(rng, v, (len(vt),)) for v in common}
  tmp = obs.tmp
  more = {'unused': (('latitude', 'longitude'),
                     np.zeros((len(w.lat), len(w.lon))))}
  flip = bool(rng.random() < .4)
  w.store(rng, f'{tmp}/t.zarr', tgt, ['time'], {'time': vt}, more=more,
          flip=flip)
  pit = np.unique(np.concatenate([[init[0] - 6 * H], init])).astype(NS)
  raw = {v: w.field(rng, v, (len(pit), len(all_leads))) for v in common}
  w.store(rng, f'{tmp}/p.zarr', raw, ['time', 'prediction_timedelta'],
          {'time': pit, 'prediction_timedelta': all_leads}, flip=flip)
  p = {v: x[np.searchsorted(pit, init)][:, np.searchsorted(all_leads, leads)]
       for v, x in raw.items()}
  t = {v: x[np.searchsorted(vt, init[:, None] + leads)]
       for v, x in tgt.items()}
  levels = list(w.levels)
  args = [f'--prediction_path={tmp}/p.zarr', f'--target_path={tmp}/t.zarr',
          f'--time_start={start}', f'--time_stop={stop}',
          f'--time_frequency={freq}', f'--lead_time_start={a}',
          f'--lead_time_stop={b}', f'--lead_time_frequency={step}',
          f'--variables={",".join(gen.shuffled(rng, common))}',
          f'--output_path={tmp}/out.nc', '--runner=DirectRunner']
  if any(has_level(v) for v in common) and rng.random() < .6:
    levels = gen.shuffled(rng, LEVELS)[:int(rng.integers(1, 3))]
    args.append(f'--levels={",".join(map(str, levels))}')
  if rng.random() < .6:
    args.append(f'--time_chunk_size={int(rng.integers(1, 4))}')
  if rng.random() < .6:
    args.append(f'--lead_time_chunk_size={int(rng.integers(1, 4))}')
  keep = bool(rng.random() < .4)
  if keep:
    args.append('--reduce_dims=' + ','.join(gen.shuffled(
        rng, ['latitude', 'longitude'])))
  state = bool(rng.random() < .5)
  if state:
    args.append(f'--aggregation_state_output_path={tmp}/state.nc')
  what = ' '.join(x for x in args if 'path' not in x)
  run_program(os.path.join(ROOT, 'evaluation_scripts',
                           'run_example_evaluation.py'), args)
  regs = members(w, {k: REGIONS[k] for k in ('global', 'northern-hemisphere')},
                 None)
  want = {}
  for v in common:
    e = (p[v].astype(float) - t[v].astype(float)) ** 2
    want[f'mse.{v}'] = average(w, regs, e, None, keep)
    want[f'rmse.{v}'] = np.sqrt(want[f'mse.{v}'])
  with xr.open_dataset(f'{tmp}/out.nc') as out:
    compare(w, out.load(), want, regs, init, leads, levels, keep, what, obs)
  if state:
    from weatherbenchX import aggregation
    with xr.open_dataset(f'{tmp}/state.nc') as ds:
      st = aggregation.AggregationState.from_dataset(ds.load())
    mean = st.mean_statistics()['SquaredError']
    res = xr.Dataset({f'mse.{v}': mean[v] for v in mean})
    compare(w, res, {k: x for k, x in want.items() if k.startswith('mse')},
            regs, init, leads, levels, keep, what + ' (state)', obs)
    obs.ev('states')
  obs.ev('example_runs')
  obs.mark('example', common, keep, state, len(args))


SCENARIOS = {
    'benchmark': (benchmark, 40, 500),
    'example': (example, 12, 150),
}
MIN = {'benchmark_runs': (40, 500), 'example_runs': (12, 150),
       'scores_compared': (10000, 150000), 'states': (3, 40)}
