"""Catalogue of the shipped metrics with worlds (data) they are defined on."""

import dataclasses
from typing import Callable

import numpy as np
import xarray as xr
from wbx import gen
from weatherbenchX.metrics import categorical
from weatherbenchX.metrics import deterministic
from weatherbenchX.metrics import probabilistic
from weatherbenchX.metrics import spatial
from weatherbenchX.metrics import wrappers

VARS = ('2m_temperature', 'total_precipitation_6hr')
QUANTS = [0.1, 0.25, 0.5, 0.75, 0.9]


@dataclasses.dataclass
class World:
  predictions: dict
  targets: dict
  climatology: xr.Dataset
  seeps: xr.Dataset
  coords: dict
  n_ens: int


def _named(d):
  return {k: v.rename(k) for k, v in d.items()}


def climatology(rng, lat, lon, variables=VARS, kind='dayofyear_hour'):
  """Climatology on every day of year / hour 0,6,12,18 (or days only)."""
  q = np.array(QUANTS)
  out = {}
  dims = ['dayofyear', 'latitude', 'longitude']
  coords = {'dayofyear': np.arange(1, 367), 'latitude': lat, 'longitude': lon}
  if kind == 'dayofyear_hour':
    dims = ['hour'] + dims
    coords['hour'] = np.arange(0, 24)
  shape = tuple(len(coords[d]) for d in dims)
  for v in variables:
    out[v] = xr.DataArray(rng.normal(size=shape), dims=dims, coords=coords)
  del q
  return xr.Dataset(out)


def world(rng, kind, sizes=None, coords=None, dtype=float, order=True):
  base = ['init_time', 'lead_time', 'latitude', 'longitude']
  if coords is None:
    s = dict(init_time=int(rng.integers(1, 4)), lead_time=int(
        rng.integers(1, 4)), latitude=int(rng.integers(3, 6)),
             longitude=int(rng.integers(3, 6)))
    s.update(sizes or {})
    coords = gen.grid(rng, base, s)
  n = int(rng.integers(2, 6))
  pdims = gen.shuffled(rng, base) if order else list(base)
  tdims = gen.shuffled(rng, base) if order else list(base)
  c = dict(coords)
  if kind in ('ens', 'ens2', 'ensbin'):
    c['number'] = np.arange(n)
    pdims.insert(int(rng.integers(0, 5)), 'number')
  preds, targs = {}, {}
  for v in VARS:
    if kind in ('cont', 'ens', 'ens2'):
      k = 'unit' if v == VARS[1] else 'normal'
      preds[v] = gen.array(rng, c, pdims, k, dtype=dtype)
      if kind == 'ens2':
        ct = dict(coords, number=np.arange(int(rng.integers(2, 6))))
        td = list(tdims)
        td.insert(int(rng.integers(0, 5)), 'number')
        targs[v] = gen.array(rng, ct, td, k, dtype=dtype)
      else:
        targs[v] = gen.array(rng, coords, tdims, k, dtype=dtype)
    elif kind == 'bin':
      preds[v] = gen.array(rng, c, pdims, 'binary', dtype=dtype)
      targs[v] = gen.array(rng, coords, tdims, 'binary', dtype=dtype)
    elif kind == 'prob':
      p = rng.integers(0, n + 1, size=[len(c[d]) for d in pdims]) / n
      preds[v] = xr.DataArray(p.astype(dtype), dims=pdims,
                              coords={d: c[d] for d in pdims})
      targs[v] = gen.array(rng, coords, tdims, 'binary', dtype=dtype)
    elif kind == 'ensbin':
      preds[v] = gen.array(rng, c, pdims, 'binary', dtype=dtype)
      targs[v] = gen.array(rng, coords, tdims, 'binary', dtype=dtype)
    else:
      raise ValueError(kind)
  lat, lon = coords['latitude'], coords['longitude']
  clim = climatology(rng, lat, lon)
  v = VARS[1]
  seeps = xr.Dataset({
      f'{v}_seeps_threshold': xr.DataArray(
          0.001 + 0.8 * rng.random((24, 366, len(lat), len(lon))),
          dims=['hour', 'dayofyear', 'latitude', 'longitude']),
      f'{v}_seeps_dry_fraction': xr.DataArray(
          np.clip(rng.random((1, 1, len(lat), len(lon)))
                  + 0.02 * rng.random((24, 366, len(lat), len(lon))), .01, .99),
          dims=['hour', 'dayofyear', 'latitude', 'longitude']),
  }, coords={'hour': np.arange(24), 'dayofyear': np.arange(1, 367),
             'latitude': lat, 'longitude': lon})
  return World(_named(preds), _named(targs), clim, seeps, coords, n)


def quantile_climatology(rng, lat, lon, kind='normal'):
  out = {}
  for v in VARS:
    s = rng.random((366, len(lat), len(lon))) * 1.5 + 0.1
    m = 0.3 * rng.normal(size=(366, len(lat), len(lon)))
    z = np.array([-1.28, -0.67, 0.0, 0.67, 1.28])
    out[v] = xr.DataArray(
        m[None] + z[:, None, None, None] * s[None],
        dims=['quantile', 'dayofyear', 'latitude', 'longitude'],
        coords={'quantile': QUANTS, 'dayofyear': np.arange(1, 367),
                'latitude': lat, 'longitude': lon})
  return xr.Dataset(out)


@dataclasses.dataclass
class Entry:
  name: str
  kind: str                       # world kind
  make: Callable                  # (world, rng) -> Metric
  nan: str = 'propagates'         # or the reason it does not
  mask: bool = True               # carries the mask of the targets
  uses_targets: bool = True
  uses_predictions: bool = True
  jax: bool = True


D, C, P, S, W = deterministic, categorical, probabilistic, spatial, wrappers
THR = [0.2, 0.6]


def _qclim(w, rng):
  return quantile_climatology(
      np.random.default_rng(7), w.coords['latitude'], w.coords['longitude'])


def _thr_ds():
  t = np.array([-0.5, 0.1, 0.4, 0.9])
  return xr.Dataset({v: xr.DataArray(t, dims=['bins'], coords={'bins': t})
                     for v in VARS})


def _binarize(which='both', dim='threshold'):
  return W.ContinuousToBinary(which=which, threshold_value=list(THR),
                              threshold_dim=dim)


ENTRIES = [
    Entry('bias', 'cont', lambda w, r: D.Bias()),
    Entry('mae', 'cont', lambda w, r: D.MAE()),
    Entry('mse', 'cont', lambda w, r: D.MSE()),
    Entry('rmse', 'cont', lambda w, r: D.RMSE()),
    Entry('pred_avg', 'cont', lambda w, r: D.PredictionAverage(),
          uses_targets=False),
    Entry('target_avg', 'cont', lambda w, r: D.TargetAverage(),
          uses_predictions=False),
    Entry('pred_avg_copynan', 'cont',
          lambda w, r: D.PredictionAverage(copy_nans_from_targets=True)),
    Entry('wind', 'cont', lambda w, r: D.WindVectorRMSE(
        [VARS[0]], [VARS[1]], ['wind'])),
    Entry('rel_intensity', 'cont', lambda w, r: D.RelativeIntensity()),
    Entry('acc', 'cont', lambda w, r: D.ACC(w.climatology)),
    Entry('activity', 'cont', lambda w, r: D.PredictionActivity(w.climatology),
          uses_targets=False),
    Entry('exceed', 'cont', lambda w, r: D.ErrorExceedance([0.1, 0.5, 1.0])),
    Entry('csi_bin', 'cont', lambda w, r: W.WrappedMetric(
        C.CSI(), [_binarize()])),
    Entry('fss', 'cont', lambda w, r: W.WrappedMetric(
        S.FSS(3, True), [_binarize()]), jax=False),
    Entry('relu_rmse', 'cont', lambda w, r: W.WrappedMetric(
        D.RMSE(), [W.ReLU('both')])),
    Entry('subset_mae', 'cont', lambda w, r: W.SubselectVariables(
        D.MAE(), [VARS[1]])),
    Entry('seeps', 'cont', lambda w, r: C.SEEPS(
        [VARS[1]], w.seeps, dry_threshold_mm=100.0)),
    Entry('rps_cdf', 'cont', lambda w, r: W.WrappedMetric(
        C.RankedProbabilityScore('bins'),
        [W.ContinuousToCDF('both', [-0.5, 0.1, 0.4, 0.9], 'bins')])),
] + [
    Entry(n, 'bin', lambda w, r, c=c: c()) for n, c in [
        ('csi', C.CSI), ('accuracy', C.Accuracy), ('recall', C.Recall),
        ('far', C.FalseAlarmRate), ('precision', C.Precision),
        ('f1', C.F1Score), ('fb', C.FrequencyBias), ('hss', C.HSS),
        ('ets', C.ETS), ('sedi', C.SEDI)]
] + [
    Entry('reliability', 'prob', lambda w, r: C.Reliability()),
    Entry('rev', 'prob', lambda w, r: P.RelativeEconomicValue(
        ensemble_size=w.n_ens)),
    Entry('crps', 'ens', lambda w, r: P.CRPSEnsemble()),
    Entry('crps_sort', 'ens', lambda w, r: P.CRPSEnsemble(use_sort=True)),
    Entry('crps_unfair', 'ens', lambda w, r: P.CRPSEnsemble(fair=False)),
    Entry('umse', 'ens', lambda w, r: P.UnbiasedEnsembleMeanRMSE()),
    Entry('ssr', 'ens', lambda w, r: P.UnbiasedSpreadSkillRatio()),
    Entry('spread', 'ens', lambda w, r: P.EnsembleRootMeanVariance(),
          uses_targets=False),
    Entry('rank_hist', 'ens', lambda w, r: P.RankHistogram()),
    Entry('erps', 'ens', lambda w, r: P.EnsembleRankedProbabilityScore(
        [-0.5, 0.1, 0.4, 0.9], [-0.5, 0.1, 0.4, 0.9], 'bins', 'x')),
    Entry('erps_unfair', 'ens', lambda w, r: P.EnsembleRankedProbabilityScore(
        [-0.5, 0.1, 0.4, 0.9], [-0.5, 0.1, 0.4, 0.9], 'bins', 'x',
        fair=False)),
    Entry('ens_avg_rmse', 'ens', lambda w, r: P.EnsembleAveragedMetric(
        D.RMSE())),
    Entry('ens_mean_rmse', 'ens', lambda w, r: W.WrappedMetric(
        D.RMSE(), [W.EnsembleMean('predictions')])),
    Entry('ens_exceed', 'ens', lambda w, r: P.EnsembleErrorExceedance(
        [0.1, 0.5, 1.0])),
    Entry('covered', 'ens', lambda w, r: C.Covered('number')),
    Entry('confident', 'ens', lambda w, r: C.Confident('number', _qclim(w, r)),
          uses_targets=False),
    Entry('jaccard', 'ens', lambda w, r: C.JaccardDistant(
        'number', _qclim(w, r)), uses_targets=False),
    Entry('opportunism', 'ens', lambda w, r: C.Opportunism(
        'number', _qclim(w, r), is_confident=True, is_covered=True)),
    Entry('brier_weibull', 'ens', lambda w, r: W.WrappedMetric(
        D.MSE(), [_binarize(), W.WeibullEnsembleToProbabilistic(
            'predictions')])),
    Entry('crps_dist', 'ens2', lambda w, r: P.CRPSEnsembleDistance()),
    Entry('wasserstein', 'ens2', lambda w, r: P.WassersteinDistance(),
          jax=False),
]
BY_NAME = {e.name: e for e in ENTRIES}
