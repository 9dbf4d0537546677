"""C13: the fractions skill score uses the exact neighbourhood fractions."""

import numpy as np
import xarray as xr
from wbx import gen
from wbx import mo
from wbx.core import check, expect_close, expect_raises
from weatherbenchX.metrics import spatial as S

RULE = ('binary fields (any density, dtype, dimension order, extra threshold '
        'dimension) x odd window sizes and lists x longitude wrapping x masks '
        '(any dims incl. both spatial ones, on targets, predictions or both); '
        'every window fraction is recounted by loops and the score recomputed '
        'from them; fingerprint = (grid, sizes, wrap, mask, aggregation)')
ASSUMPTIONS = ['masks have both spatial dimensions',
               'fractions are float32 by design: tolerance 2e-5']
BASE = mo.BASE


def _fractions(x, size, wrap):
  """x: (..., lat, lon) -> fractions, and which windows lie in the domain."""
  nlat, nlon = x.shape[-2:]
  h = (size - 1) // 2
  out = np.zeros(x.shape)
  inside = np.zeros((nlat, nlon), bool)
  for i in range(nlat):
    for j in range(nlon):
      rows = range(i - h, i + h + 1)
      cols = range(j - h, j + h + 1)
      if rows[0] < 0 or rows[-1] >= nlat:
        continue
      if not wrap and (cols[0] < 0 or cols[-1] >= nlon):
        continue
      inside[i, j] = True
      acc = 0
      for r in rows:
        for c in cols:
          acc = acc + x[..., r, c % nlon]
      out[..., i, j] = acc / size ** 2
  return out, inside


def _all_ones(m, size, wrap):
  """m: bool (..., lat, lon): windows inside the domain without a masked
  point."""
  f, inside = _fractions(m.astype(float), size, wrap)
  return inside & (f > 1 - .5 / size ** 2)


def fss(rng, obs):
  big = rng.random() < .3
  coords = gen.grid(rng, BASE, dict(
      init_time=int(rng.integers(1, 3)), lead_time=int(rng.integers(1, 3)),
      latitude=int(rng.integers(3, 10 if big else 7)),
      longitude=int(rng.integers(2, 10 if big else 7))))
  dims = list(BASE)
  if rng.random() < .3:
    coords['threshold'] = np.array([.1, .5])
    dims.append('threshold')
  odd = [1, 3, 3, 5, 7]
  many = bool(rng.random() < .4)
  sizes = (sorted({int(s) for s in rng.choice(odd, int(rng.integers(1, 4)))})
           if many else [int(rng.choice(odd))])
  if many:
    sizes = gen.shuffled(rng, sizes)
  arg = (sizes if rng.random() < .7 else tuple(sizes)) if many else sizes[0]
  wrap = bool(rng.random() < .5)
  p, t, X = {}, {}, {}
  for v in ('a', 'b'):
    for side, d in (('p', p), ('t', t)):
      x = rng.random([len(coords[k]) for k in dims]) < rng.choice(
          [0, .1, .5, .9, 1])
      d[v] = mo.dataarray(x.astype(str(rng.choice(['bool', 'f4', 'f8', 'int'])
                                       )), dims, coords,
                          gen.shuffled(rng, dims), v)
      X[side, v] = np.moveaxis(x.astype(float), (2, 3), (-2, -1))
  where = str(rng.choice(['none', 'none', 't', 'p', 'both']))
  mfull = None
  if where != 'none':
    md = sorted({'latitude', 'longitude'} | set(gen.subset(
        rng, ['init_time', 'lead_time'], .3)))
    md = gen.shuffled(rng, md)
    mk = xr.DataArray(rng.random([len(coords[d]) for d in md]) < rng.choice(
        [.8, .95]), dims=md, coords={d: coords[d] for d in md})
    mfull = np.broadcast_to(mo.canon(mk, BASE), [len(coords[d]) for d in BASE])
    for d, nm in ((p, 'p'), (t, 't')):
      if where in (nm, 'both'):
        for v in d:
          d[v] = d[v].assign_coords(mask=mk)
  agg = mo.Agg(rng, coords, keep_p=.2, masked=where != 'none')
  m = S.FSS(arg, wrap)
  ds = mo.evaluate(m, agg, p, t)
  stats = {k: s.compute(p, t) for k, s in m.statistics.items()}
  trailing = (['threshold'] if 'threshold' in dims else [])
  lost = 0
  for v in ('a', 'b'):
    for si, size in enumerate(sizes):
      fp, inside = _fractions(X['p', v], size, wrap)
      ft, _ = _fractions(X['t', v], size, wrap)
      # back to BASE + trailing
      back = lambda a: np.moveaxis(a, (-2, -1), (2, 3))
      live = None
      if mfull is not None:
        live = _all_ones(mfull, size, wrap)
        lost += int((~live).sum())
      for k, want in (('SquaredFractionsError', (fp - ft) ** 2),
                      ('SquaredPredictionFraction', fp ** 2),
                      ('SquaredTargetFraction', ft ** 2)):
        got = stats[k][v]
        if many:
          got = got.isel(neighborhood_size=si)
        if live is not None:
          check('mask' in got.coords, f'{k}: mask lost', 'mask_lost')
          gm = np.broadcast_to(mo.canon(
              got.mask.reset_coords(drop=True), BASE), live.shape)
          expect_close(gm.astype(float), live.astype(float),
                       f'{k}: mask of windows, size={size} wrap={wrap} '
                       f'mask dims {mk.dims}', 'window_mask')
        got = got.transpose(*BASE, *trailing).values
        w = back(want)
        if live is not None:
          l = live.reshape(live.shape + (1,) * (w.ndim - 4))
          got, w = np.where(l, got, 0), np.where(l, w, 0)
        expect_close(got, w, f'{k} size={size} wrap={wrap} dims '
                     f'{p[v].dims}', 'fraction', rtol=2e-5, atol=2e-6)
        obs.ev('windows', w.size)
      A = agg.mean(back((fp - ft) ** 2), live)
      B = agg.mean(back(fp ** 2), live)
      C = agg.mean(back(ft ** 2), live)
      with np.errstate(all='ignore'):
        want = 1 - A / (B + C)
      got = ds[f'm.{v}']
      if many:
        got = got.isel(neighborhood_size=si)
      got = got.transpose(*agg.keep, *trailing).values
      ok = ~((B + C > 0) & (B + C < 1e-7))
      expect_close(np.where(ok, got, 0), np.where(ok, want, 0),
                   f'FSS size={size} wrap={wrap} mask={where} {agg.desc()}',
                   'fss', rtol=1e-4, atol=1e-4)
      obs.ev('scores', int(ok.sum()))
      obs.ev(f'size_{size}')
    if many:
      check('neighborhood_size' in ds[f'm.{v}'].dims and list(
          ds['neighborhood_size'].values) == list(sizes),
            f'window labels {ds[f"m.{v}"].coords}', 'labels')
  obs.ev('masked_windows', lost)
  if wrap:
    obs.ev('wrapped')
  obs.mark('fss', tuple(len(coords[d]) for d in dims), tuple(sizes), wrap,
           where, agg.reduce, agg.weighted)
  obs.sample(grid=[len(coords[d]) for d in dims], sizes=sizes, wrap=wrap,
             mask=where)


def even(rng, obs):
  coords = gen.grid(rng, BASE, dict(latitude=5, longitude=5))
  a = {'a': gen.array(rng, coords, list(BASE), 'binary')}
  for arg in (2, 4, [3, 2], [4]):
    for k, s in S.FSS(arg).statistics.items():
      expect_raises(lambda: s.compute(a, a), f'even window {arg} in {k}',
                    'even', ValueError)
      obs.ev('even_rejected')


def identities(rng, obs):
  """Perfect forecasts score one, disjoint far-away events zero; shifting in
  longitude does not matter when wrapping."""
  n = int(rng.integers(4, 9))
  coords = gen.grid(rng, BASE, dict(latitude=n, longitude=n))
  x = gen.array(rng, coords, list(BASE), 'binary', name='a')
  y = gen.array(rng, coords, list(BASE), 'binary', name='a')
  size = int(rng.choice([1, 3]))
  agg = mo.Agg(rng, coords, keep_p=0, weights=False)
  one = mo.evaluate(S.FSS(size), agg, {'a': x}, {'a': x})['m.a']
  if not np.isnan(one):
    expect_close(one, 1.0, 'perfect forecast', 'perfect', rtol=1e-6)
    obs.ev('perfect')
  k = int(rng.integers(1, n))
  r = lambda d: d.copy(data=np.roll(d.values, k, axis=3))
  a = mo.evaluate(S.FSS(size, True), agg, {'a': x}, {'a': y})['m.a']
  b = mo.evaluate(S.FSS(size, True), agg, {'a': r(x)}, {'a': r(y)})['m.a']
  expect_close(a, b, 'FSS after a common longitude shift', 'shift', rtol=1e-4,
               atol=1e-5)
  obs.ev('shifted')


SCENARIOS = {'fss': (fss, 350, 5000), 'even': (even, 2, 10),
             'identities': (identities, 40, 400)}
MIN = {'windows': 50000, 'scores': 500, 'size_1': 50, 'size_3': 50,
       'size_5': 50, 'size_7': 50, 'masked_windows': 500, 'wrapped': 100,
       'even_rejected': 12, 'shifted': 30}
