"""C27: combining benchmark result files loses and mixes nothing."""

import contextlib
import importlib.util
import io
import os
import warnings

import numpy as np
import weatherbenchX
import xarray as xr
from absl import flags
from wbx import gen
from wbx.core import check, expect_raises

RULE = ('directories of generated result files (random models, years and '
        'resolutions; different variables, metrics, levels, lead times and '
        'regions per file; any order of dimensions; missing values; files of '
        'unknown models) combined by the real script into a store, whose '
        'every cell is compared to the files; fingerprint = (mode, files, '
        'layout)')
ASSUMPTIONS = [
    'a file that cannot be read counts as absent, as the script documents by '
    'printing it',
    'some file of the set has pressure levels',
    'names of models, metrics, regions and variables are those of the tables '
    'of the script']
CASE_TIMEOUT = 240

_module = None


def module():
  global _module
  if _module is None:
    root = os.path.dirname(os.path.dirname(os.path.abspath(
        weatherbenchX.__file__)))
    spec = importlib.util.spec_from_file_location(
        'wbx_combine_results',
        os.path.join(root, 'public_benchmark', 'combine_results.py'))
    _module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_module)
  return _module


def run(mode, src, dst):
  mod = module()
  flags.FLAGS.unparse_flags()
  flags.FLAGS(['combine', f'--mode={mode}', f'--input_dir={src}',
               f'--output_dir={dst}'])
  with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
    warnings.simplefilter('ignore')
    mod.main([])


# Names users of the combined store rely on.
METRICS = {
    'deterministic': {'rmse': 'RMSE', 'mae': 'MAE', 'bias': 'Bias',
                      'acc': 'ACC', 'mse': 'MSE', 'seeps': 'SEEPS',
                      'prediction_activity': 'Forecast Activity'},
    'probabilistic': {'crps': 'CRPS', 'spread_skill': 'Spread/Skill',
                      'unbiased_spread_skill': 'Unbiased Spread/Skill',
                      'unbiased_mean_rmse': 'Unbiased Mean RMSE',
                      'mean_rmse': 'Mean RMSE'}}
MODELS = {
    'deterministic': {
        'hres_vs_era5': 'IFS HRES vs ERA5',
        'hres_vs_hres_t0': 'IFS HRES vs Analysis',
        'pangu_vs_era5': 'Pangu-Weather vs ERA5',
        'pangu_hres_init_vs_era5': 'Pangu-Weather (oper.) vs ERA5',
        'graphcast_vs_era5': 'GraphCast vs ERA5',
        'climatology_vs_era5': 'Climatology vs ERA5',
        'persistence_vs_era5': 'Persistence vs ERA5',
        'fuxi_vs_era5': 'FuXi vs ERA5'},
    'probabilistic': {
        'ens_vs_hres_t0': 'IFS ENS vs Analysis',
        'ens_vs_era5': 'IFS ENS vs ERA5',
        'gencast_vs_era5': 'GenCast vs ERA5',
        'probabilistic_climatology_vs_era5':
            'Probabilistic Climatology vs ERA5'}}
REGIONS = {'global': 'Global', 'tropics': 'Tropics', 'europe': 'Europe',
           'northern-hemisphere': 'Northern Hemisphere',
           'southern-hemisphere': 'Southern Hemisphere',
           'ausnz': 'Australia/New Zealand', 'arctic': 'Arctic',
           'global_land': 'Global (Land)', 'tropics_land': 'Tropics (Land)',
           'europe_land': 'Europe (Land)',
           'north-america': 'North America'}
VARIABLES = {'geopotential': 'Geopotential', 'temperature': 'Temperature',
             'wind_speed': 'Wind Speed', '2m_temperature': '2m Temperature',
             '10m_wind_speed': '10m Wind Speed',
             'mean_sea_level_pressure': 'Sea Level Pressure',
             'total_precipitation_24hr': '24h Precipitation',
             'total_precipitation_6hr': '6h Precipitation',
             'specific_humidity': 'Specific Humidity'}
LEVEL = ('geopotential', 'temperature', 'wind_speed', 'specific_humidity')
YEARS, RESOLUTIONS = (2018, 2020, 2022), ('64x32', '240x121', '1440x721')


def result_file(rng, mode, rich):
  """One results dataset and its cells under the names of the store."""
  regions = gen.shuffled(rng, gen.subset(rng, list(REGIONS), .5) or ['global'])
  step = int(rng.choice([6, 12, 24]))
  lead = (np.arange(int(rng.integers(1, 5))) * step + int(
      rng.choice([0, 6]))).astype('m8[h]').astype('m8[ns]')
  levels = np.array(gen.subset(rng, [500, 700, 850], .6) or [500])
  dtype = np.float32 if rng.random() < .5 else np.float64
  variables = gen.shuffled(rng, gen.subset(rng, list(VARIABLES), .4))
  if rich and not any(v in LEVEL for v in variables):
    variables.append('geopotential')
  variables = variables or ['2m_temperature']
  out, cells = {}, {}
  coords = {'region': regions, 'lead_time': lead, 'level': levels}

  def add(name, v, metric):
    dims = ['region', 'lead_time'] + (['level'] if v in LEVEL or
                                      v == 'wind_vector' else [])
    dims = gen.shuffled(rng, dims)
    x = rng.normal(size=[len(coords[d]) for d in dims]).astype(dtype)
    x[rng.random(x.shape) < .05] = np.nan
    out[name] = (dims, x)
    for ix in np.ndindex(*x.shape):
      at = {d: coords[d][i] for d, i in zip(dims, ix)}
      cells[(VARIABLES.get(v) or {'wind_vector': 'Wind Vector',
                                  '10m_wind_vector': '10m Wind Vector'}[v],
             METRICS[mode][metric], REGIONS[at['region']], at['lead_time'],
             at.get('level'))] = float(x[ix])

  for v in variables:
    ms = gen.subset(rng, list(METRICS[mode]), .5) or [list(METRICS[mode])[0]]
    for m in gen.shuffled(rng, ms):
      add(f'{m}.{v}', v, m)
  if mode == 'deterministic':
    if rng.random() < .3:
      add('vector_rmse.wind', 'wind_vector', 'rmse')
    if rng.random() < .3:
      add('vector_rmse.10m_wind', '10m_wind_vector', 'rmse')
  used = {d for dims, _ in out.values() for d in dims}
  order = gen.shuffled(rng, list(out))
  ds = xr.Dataset({k: out[k] for k in order},
                  {d: c for d, c in coords.items() if d in used})
  if rng.random() < .2:
    ds = ds.assign_coords(lead_time_secs=('lead_time', rng.random(len(lead))))
  return ds, cells


def combine(rng, obs):
  """Every cell of every file, once, and nothing else."""
  mode = str(rng.choice(['deterministic', 'probabilistic']))
  src, dst = os.path.join(obs.tmp, 'in'), os.path.join(obs.tmp, 'out')
  os.makedirs(src)
  os.makedirs(dst)
  every = [(m, y, r) for m in MODELS[mode] for y in YEARS for r in RESOLUTIONS]
  k = int(rng.choice([1, 2, 3, 5, 9]))
  chosen = [every[i] for i in rng.permutation(len(every))[:k]]
  want, kept = {}, {}
  for i, (m, y, r) in enumerate(chosen):
    ds, cells = result_file(rng, mode, i == 0)
    ds.to_netcdf(os.path.join(src, f'{m}_{r}_{y}.nc'))
    for c, x in cells.items():
      want[c + (MODELS[mode][m], str(y), r)] = x
    kept[m, y, r] = dict(ds.sizes)
  noise = []
  if rng.random() < .4:  # must not enter
    ds, _ = result_file(rng, mode, True)
    other = {'deterministic': 'probabilistic',
             'probabilistic': 'deterministic'}[mode]
    for name in (f'unknown_vs_era5_{RESOLUTIONS[0]}_{YEARS[0]}.nc',
                 f'{list(MODELS[other])[0]}_{RESOLUTIONS[1]}_{YEARS[1]}.nc',
                 f'{list(MODELS[mode])[0]}_{RESOLUTIONS[0]}_2019.nc'):
      ds.to_netcdf(os.path.join(src, name))
      noise.append(name)
  before = {f: open(os.path.join(src, f), 'rb').read()
            for f in os.listdir(src)}
  what = f'{mode} {kept} noise={len(noise)}'
  obs.sample(what=what)
  run(mode, src, dst)
  check(os.listdir(dst) == [f'{mode}.zarr'], f'{what}: wrote '
        f'{os.listdir(dst)}', 'output')
  check({f: open(os.path.join(src, f), 'rb').read() for f in os.listdir(src)}
        == before, f'{what}: input files changed', 'input')
  got = xr.open_zarr(os.path.join(dst, f'{mode}.zarr'),
                     decode_timedelta=True).compute()
  names = {c[0] for c in want}
  check(set(got.data_vars) == names, f'{what}: variables '
        f'{sorted(got.data_vars)} want {sorted(names)}', 'variables')
  labels = {'model': 5, 'year': 6, 'resolution': 7, 'metric': 1, 'region': 2,
            'lead_time': 3, 'level': 4}
  for d, i in labels.items():
    w = {c[i] for c in want} - {None}
    # Labels of coordinates may also come from other variables of a file.
    g = list(got[d].values)
    check(len(set(g)) == len(g), f'{what}: repeated labels of {d}: {g}',
          'labels')
    check(set(g) >= w and (d == 'level' or set(g) == w),
          f'{what}: {d} {sorted(map(str, g))} want {sorted(map(str, w))}',
          'labels')
  hours = got['lead_time'].values / np.timedelta64(1, 'h')
  check(got['lead_time_h'].shape == hours.shape and bool(
      (got['lead_time_h'].values == hours).all()), f'{what}: lead_time_h {got["lead_time_h"].values} for {hours}',
        'hours')
  seen = 0
  for v in names:
    x = got[v]
    pos = {d: {c: i for i, c in enumerate(got[d].values)} for d in x.dims}
    need = set(labels) - ({'level'} if not any(
        c[0] == v and c[4] is not None for c in want) else set())
    check(set(x.dims) == need, f'{what}: {v} has {x.dims}', 'dims')
    full = np.full(x.shape, np.nan)
    for c, val in want.items():
      if c[0] == v:
        full[tuple(pos[d][c[labels[d]]] for d in x.dims)] = val
        seen += 1
    a = x.values.astype(float)
    bad = ~((a == full) | (np.isnan(a) & np.isnan(full)))
    check(not bad.any(), lambda: f'{what}: {v}: {bad.sum()} cells differ, '
          f'e.g. {[str(got[d].values[i]) for d, i in zip(x.dims, np.argwhere(bad)[0])]} '
          f'holds {a[bad][0]} want {full[bad][0]}', 'cells')
    obs.ev('empty_cells', int(np.isnan(full).sum()))
  obs.ev('cells', seen)
  obs.ev('files', k)
  obs.mark(what)


def refused(rng, obs):
  """Names the tables do not know are refused, not mislabelled."""
  src, dst = os.path.join(obs.tmp, 'in'), os.path.join(obs.tmp, 'out')
  os.makedirs(src)
  os.makedirs(dst)
  mode = str(rng.choice(['deterministic', 'probabilistic']))
  ds, _ = result_file(rng, mode, True)
  kind = int(rng.integers(2))
  if kind == 0:
    name = list(ds.data_vars)[0]
    ds = ds.rename({name: 'novel_metric.' + name.split('.')[1]})
  else:
    r = list(ds['region'].values)
    r[int(rng.integers(len(r)))] = 'atlantis'
    ds = ds.assign_coords(region=r)
  m = list(MODELS[mode])[0]
  ds.to_netcdf(os.path.join(src, f'{m}_{RESOLUTIONS[0]}_{YEARS[0]}.nc'))
  expect_raises(lambda: run(mode, src, dst), f'{mode}: unknown '
                f'{["metric", "region"][kind]}', 'unknown', Exception)
  check(not os.listdir(dst), 'a store was written anyway', 'unknown')
  obs.ev('refused')
  obs.mark('refused', mode, kind, str(ds.sizes))


SCENARIOS = {'combine': (combine, 60, 900), 'refused': (refused, 10, 100)}
MIN = {'cells': (10000, 150000), 'empty_cells': (10000, 150000),
       'files': (150, 2500), 'refused': (10, 100)}
