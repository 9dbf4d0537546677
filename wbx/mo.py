"""Helpers for metric oracles: named numpy arrays and the weighted mean."""

import datetime

import numpy as np
import xarray as xr
from wbx import gen
from wbx.props import c04
from weatherbenchX import aggregation
from weatherbenchX import weighting

BASE = ('init_time', 'lead_time', 'latitude', 'longitude')


def canon(da, dims):
  """Values of da with exactly the dimensions dims (broadcast if absent)."""
  extra = [d for d in da.dims if d not in dims]
  assert not extra, extra
  have = [d for d in dims if d in da.dims]
  a = da.transpose(*have).values
  return a[tuple(slice(None) if d in have else np.newaxis for d in dims)]


class Agg:
  """A random aggregation and the mean it should compute."""

  def __init__(self, rng, coords, keep_p=0.35, weights=True, must_keep=(),
               dims=BASE, skipna=False, masked=False):
    self.dims = tuple(dims)
    self.keep = tuple(d for d in dims if d in must_keep
                      or rng.random() < keep_p)
    self.reduce = tuple(d for d in dims if d not in self.keep)
    self.weighted = bool(weights and 'latitude' in self.dims
                         and rng.random() < 0.5)
    self.coords = coords
    self.kw = dict(
        reduce_dims=list(gen.shuffled(rng, list(self.reduce))),
        weigh_by=[weighting.GridAreaWeighting()] if self.weighted else None,
        skipna=skipna, masked=masked)
    self.skipna = skipna

  def aggregator(self):
    return aggregation.Aggregator(**self.kw)

  def weights(self, ndim):
    if not self.weighted:
      return np.ones([1] * ndim)
    w = c04.lat_weights(self.coords['latitude'])
    shape = [1] * ndim
    i = self.dims.index('latitude')
    shape[i] = len(w)
    return w.reshape(shape)

  def mean(self, a, mask=None):
    """a: array over self.dims + any trailing dims -> keep dims + trailing."""
    a = np.asarray(a, float)
    w = np.broadcast_to(self.weights(a.ndim), a.shape).copy()
    if mask is not None:
      m = np.asarray(mask).reshape(
          np.asarray(mask).shape + (1,) * (a.ndim - np.ndim(mask)))
      m = np.broadcast_to(m, a.shape)
      w = np.where(m, w, 0.0)
      a = np.where(m, a, 0.0)
    if self.skipna:
      w = np.where(np.isnan(a), 0, w)
      a = np.where(np.isnan(a), 0, a)
    ax = tuple(self.dims.index(d) for d in self.reduce)
    with np.errstate(all='ignore'):
      return (a * w).sum(axis=ax) / w.sum(axis=ax)

  def desc(self):
    return f'reduce={self.kw["reduce_dims"]} weighted={self.weighted}'


def evaluate(metric, agg, p, t):
  return aggregation.compute_metric_values_for_single_chunk(
      {'m': metric}, agg.aggregator(), p, t)


def result(ds, name, agg, trailing=()):
  """Values of one result with dims (kept dims..., trailing...)."""
  return ds[name].transpose(*agg.keep, *trailing).values


def pyday(t):
  """(day of year, hour) of a numpy datetime via the calendar."""
  d = datetime.datetime.fromtimestamp(
      int(np.datetime64(t, 's').astype('int64')), datetime.timezone.utc)
  return d.timetuple().tm_yday, d.hour


def lookup(clim, dims, valid, kind):
  """Climatology values at an array of valid times (scalar calendar lookup).

  clim: DataArray with time-like dims, then `dims`; returns array
  valid.shape + shape of dims.
  """
  out = np.empty(valid.shape + tuple(clim.sizes[d] for d in dims))
  if kind == 'time':
    a = clim.transpose('time', *dims).values
    times = {np.datetime64(x, 'ns').astype('int64').item(): i
             for i, x in enumerate(clim.time.values)}
  elif kind == 'dayofyear':
    a = clim.transpose('dayofyear', *dims).values
    doys = {int(x): i for i, x in enumerate(clim.dayofyear.values)}
  else:
    a = clim.transpose('dayofyear', 'hour', *dims).values
    doys = {int(x): i for i, x in enumerate(clim.dayofyear.values)}
    hrs = {int(x): i for i, x in enumerate(clim.hour.values)}
  for i in np.ndindex(valid.shape):
    if kind == 'time':
      out[i] = a[times[np.datetime64(valid[i], 'ns').astype('int64').item()]]
    else:
      d, h = pyday(valid[i])
      out[i] = a[doys[d]] if kind == 'dayofyear' else a[doys[d], hrs[h]]
  return out


def dataarray(a, dims, coords, order, name=None):
  da = xr.DataArray(a, dims=dims, coords={d: coords[d] for d in dims},
                    name=name)
  return da.transpose(*order)
