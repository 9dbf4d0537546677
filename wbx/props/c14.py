"""C14: input transforms apply their definition to the stated inputs only."""

import numpy as np
import xarray as xr
from wbx import gen
from wbx import mo
from wbx.core import check, expect_close, expect_raises
from weatherbenchX.metrics import base
from weatherbenchX.metrics import categorical as C
from weatherbenchX.metrics import deterministic as D
from weatherbenchX.metrics import wrappers as W

RULE = ('random prediction/target variables (with and without an ensemble, '
        'levels, missing values, infinities, float32/64/int) through random '
        'chains of 1-4 transforms on predictions, targets or both; a probe '
        'statistic records what finally reaches the wrapped statistic and '
        'every element and label is compared with the documented element-wise '
        'definition; time dependent thresholds at random init/lead or valid '
        'times; fingerprint = chain of (transform, which, option)')
ASSUMPTIONS = [
    'WeibullEnsembleToProbabilistic with skipna is not checked for missing members '
    '(the number of members is always the full ensemble, pinned by a test)',
    'missing thresholds in ContinuousToBinary are not checked (documented only '
    'for the input)']


class Probe(base.Statistic):
  """Hands the inputs that reach it to the monitor."""

  def __init__(self, side):
    self._side = side

  @property
  def unique_name(self):
    return f'probe_{self._side}'

  def compute(self, predictions, targets):
    return predictions if self._side == 'predictions' else targets


class ProbeMetric(base.Metric):

  @property
  def statistics(self):
    return {'p': Probe('predictions'), 't': Probe('targets')}

  def values_from_mean_statistics(self, statistic_values):
    return statistic_values['p']


class Field:
  """Named numpy array with coordinates (None for no coordinate)."""

  def __init__(self, dims, arr, coords):
    self.dims, self.arr, self.coords = tuple(dims), np.asarray(arr), dict(
        coords)

  def size(self, d):
    return self.arr.shape[self.dims.index(d)]


def _cmp(da, f, what, exact=True):
  check(isinstance(da, xr.DataArray), f'{what}: not a DataArray', 'type')
  check(set(da.dims) == set(f.dims),
        f'{what}: dims {da.dims}, expected {f.dims}', 'dims')
  got = da.transpose(*f.dims)
  check(got.shape == f.arr.shape,
        f'{what}: shape {got.shape}, expected {f.arr.shape}', 'shape')
  for d in f.dims:
    c = f.coords.get(d)
    if c is not None:
      check(d in got.coords and got[d].shape == np.shape(c)
            and bool(np.all(got[d].values == np.asarray(c))),
            f'{what}: labels of {d} are {got[d].values}, expected {c}',
            'labels')
  a, b = got.values.astype(float), f.arr.astype(float)
  if exact:
    ok = (a == b) | (np.isnan(a) & np.isnan(b))
    if not ok.all():
      i = tuple(int(x[0]) for x in np.nonzero(~ok))
      check(False, f'{what}: at {dict(zip(f.dims, i))} {a[i]} instead of '
            f'{b[i]} ({int((~ok).sum())} of {ok.size} differ)', 'values')
  else:
    expect_close(a, b, what, 'values', rtol=2e-6, atol=1e-6)


# --- Generators of transforms: fn(rng, state, which, obs) -> (transform,
# {side: {var: Field}} updater, exact, tag). ---------------------------------
# They return None if not applicable.


def _sides(which):
  return ['predictions', 'targets'] if which == 'both' else [which]


def _fields(state, which):
  return [f for s in _sides(which) for f in state[s].values()]


def _map(state, which, fn):
  out = dict(state)
  for s in _sides(which):
    out[s] = {v: fn(v, f) for v, f in state[s].items()}
  return out


def _all_values(fields):
  v = np.concatenate([np.asarray(f.arr, float).ravel() for f in fields])
  v = v[np.isfinite(v)]
  return v if v.size else np.array([0.0])


def _thresholds(rng, fields, n, increasing=True):
  v = _all_values(fields)
  pool = list(rng.choice(v, size=2 * n)) + list(rng.normal(size=n) * 2)
  t = sorted({float(x) for x in pool})
  t = [t[i] for i in sorted(rng.choice(len(t), size=min(n, len(t)),
                                       replace=False))]
  if not increasing:
    t = gen.shuffled(rng, t)
  return [float(x) for x in t]


def _newdim(state, rng, base_name):
  used = {d for s in state.values() for f in s.values() for d in f.dims}
  for c in [base_name, base_name + '_2', base_name + '_3', base_name + '_4']:
    if c not in used:
      return c


def _as_given(rng, t):
  k = rng.choice(['list', 'tuple', 'array'])
  return {'list': list(t), 'tuple': tuple(t), 'array': np.array(t)}[k], k


def _nd_thresholds(rng, fields, dim, n, ds, variables, increasing=True):
  """DataArray/Dataset thresholds over dim plus common labelled dims."""
  common = [d for d in fields[0].dims
            if all(d in f.dims and f.coords.get(d) is not None
                   and len(f.coords[d]) == len(fields[0].coords[d])
                   and np.all(np.asarray(f.coords[d]) ==
                              np.asarray(fields[0].coords[d]))
                   for f in fields)]
  extra = [d for d in gen.subset(rng, common, .5)
           if d not in ('init_time', 'lead_time', 'valid_time')][:2]
  dims = gen.shuffled(rng, [dim] + extra)
  coords = {d: np.asarray(fields[0].coords[d]) for d in extra}
  coords[dim] = np.round(np.arange(n) * .5 + 10, 2)

  def one():
    sh = [len(coords[d]) for d in dims]
    vals = rng.choice(_all_values(fields), size=sh) + rng.choice(
        [0, 0, .5], size=sh)
    if increasing:
      vals = np.sort(vals, axis=dims.index(dim))
      step = np.arange(n) * 1e-3
      vals = vals + step.reshape([-1 if d == dim else 1 for d in dims])
    return xr.DataArray(vals, dims=dims, coords=coords)

  if ds:
    th = xr.Dataset({v: one() for v in list(variables) + ['unused']})
    pick = lambda v: th[v]
  else:
    th = one()
    pick = lambda v: th
  return th, pick, extra


def _expand_nd(f, th, dim):
  """Thresholds as array broadcastable to f.dims + (dim,)."""
  a = th.transpose(*[d for d in f.dims if d in th.dims], dim).values
  shape = [f.size(d) if d in th.dims else 1 for d in f.dims] + [a.shape[-1]]
  return a.reshape(shape)


def g_binary(rng, state, which):
  fields = _fields(state, which)
  dim = _newdim(state, rng, 'threshold')
  if dim is None:
    return None
  kind = rng.choice(['scalar', 'list', 'list', 'nd', 'ds'])
  n = int(rng.integers(1, 4))
  if kind == 'scalar':
    t = _thresholds(rng, fields, 1)[0]
    tr, per, coords = W.ContinuousToBinary(which, t, dim), None, [t]
  elif kind == 'list':
    ts = _thresholds(rng, fields, n, increasing=rng.random() < .5)
    giv, k = _as_given(rng, ts)
    kind = k
    tr, per, coords = W.ContinuousToBinary(which, giv, dim), None, ts
  else:
    th, pick, extra = _nd_thresholds(rng, fields, dim, n, kind == 'ds',
                                     list(state['predictions']), False)
    tr = W.ContinuousToBinary(which, th, dim, unique_name_suffix='nd')
    per, coords = pick, None

  def fn(v, f):
    x = f.arr.astype(float)[..., None]
    if per is None:
      t = np.asarray(coords, float)
      c = coords
    else:
      t = _expand_nd(f, per(v), dim)
      c = per(v)[dim].values
    r = np.where(np.isnan(x), np.nan, (x > t).astype(float))
    return Field(f.dims + (dim,), r, {**f.coords, dim: c})

  return tr, _map(state, which, fn), True, f'binary.{kind}'


def _cdf(x, t, right):
  r = (x <= t) if right else (x < t)
  return np.where(np.isnan(x) | np.isnan(t), np.nan, r.astype(float))


def g_cdf(rng, state, which, bins=False):
  fields = _fields(state, which)
  dim = _newdim(state, rng, 'bin' if bins else 'cdf')
  if dim is None:
    return None
  kind = rng.choice(['list', 'list', 'nd', 'ds'])
  n = int(rng.integers(2 if bins else 1, 5))
  right = bins or bool(rng.random() < .6)
  cls = W.ContinuousToBins if bins else W.ContinuousToCDF
  kw = {} if bins else {'right_inclusive': right}
  if kind == 'list':
    ts = _thresholds(rng, fields, n)
    if len(ts) < 2:
      ts = [ts[0], ts[0] + 1]
    if rng.random() < .3:
      ts = [-np.inf] + ts + [np.inf]
    giv, kind = _as_given(rng, ts)
    tr, per, coords = cls(which, giv, dim, **kw), None, ts
  else:
    th, pick, extra = _nd_thresholds(rng, fields, dim, n, kind == 'ds',
                                     list(state['predictions']))
    if rng.random() < .3:
      if kind == 'nd':
        th = th.where(rng.random(th.shape) > .2)
      else:
        th = th.map(lambda a: a.where(rng.random(a.shape) > .2))
      kw['enforce_monotonicity'] = False
      pick = (lambda v: th[v]) if kind == 'ds' else (lambda v: th)
      kind += '.nan'
    tr = cls(which, th, dim, unique_name_suffix='nd', **kw)
    per, coords = pick, None

  def fn(v, f):
    x = f.arr.astype(float)[..., None]
    if per is None:
      t = np.asarray(coords, float)
      c = np.asarray(coords, float)
    else:
      t = _expand_nd(f, per(v), dim)
      c = per(v)[dim].values
    if not bins:
      return Field(f.dims + (dim,), _cdf(x, t, right), {**f.coords, dim: c})
    lo, hi = t[..., :-1], t[..., 1:]
    r = ((x > lo) & (x <= hi)).astype(float)
    r = np.where(np.isnan(x) | np.isnan(lo) | np.isnan(hi), np.nan, r)
    if per is not None and 'nan' not in kind:
      pass
    lab = [f'{a:.2f} < p <= {b:.2f}' for a, b in zip(c[:-1], c[1:])]
    g = Field(f.dims + (dim,), r, {**f.coords, dim: lab})
    g.edges = {**getattr(f, 'edges', {}), dim: (c[:-1], c[1:])}
    return g

  return tr, _map(state, which, fn), True, ('bins.' if bins else 'cdf.') + kind


def g_bins(rng, state, which):
  return g_cdf(rng, state, which, bins=True)


def _mean(a, axis, skipna):
  n = np.isnan(a)
  if skipna:
    c = (~n).sum(axis=axis)
    with np.errstate(all='ignore'):
      return np.where(c > 0, np.where(n, 0, a).sum(axis=axis) / c, np.nan)
  return np.where(n.any(axis=axis), np.nan,
                  np.where(n, 0, a).sum(axis=axis) / a.shape[axis])


def g_ensmean(rng, state, which):
  fields = _fields(state, which)
  have = [('number' in f.dims) for f in fields]
  if any(np.isinf(f.arr.astype(float)).any() for f in fields):
    return None
  skip_missing = not all(have) or bool(rng.random() < .3)
  if not any(have) and rng.random() < .8:
    return None
  skipna = bool(rng.random() < .5)
  tr = W.EnsembleMean(which, 'number', skipna=skipna,
                      skip_if_ensemble_dim_missing=skip_missing)

  def fn(v, f):
    if 'number' not in f.dims:
      return f
    i = f.dims.index('number')
    c = dict(f.coords)
    c.pop('number', None)
    g = Field(f.dims[:i] + f.dims[i + 1:],
              _mean(f.arr.astype(float), i, skipna), c)
    g.edges = getattr(f, 'edges', {})
    return g

  return tr, _map(state, which, fn), False, f'ensmean.{skipna}.{all(have)}'


def g_weibull(rng, state, which):
  if which != 'predictions':
    return None
  fields = _fields(state, which)
  if not all('number' in f.dims for f in fields) or any(
      np.isinf(f.arr.astype(float)).any() for f in fields):
    return None

  def fn(v, f):
    i = f.dims.index('number')
    c = dict(f.coords)
    c.pop('number', None)
    n = f.arr.shape[i]
    return Field(f.dims[:i] + f.dims[i + 1:],
                 f.arr.astype(float).sum(axis=i) / (n + 1), c)

  return (W.WeibullEnsembleToProbabilistic(
      which, ensemble_dim='number'), _map(state, which, fn), False, 'weibull')


def g_inline(rng, state, which):
  k = int(rng.integers(3))
  f0 = [lambda x: -x, lambda x: 3.0 * x + 1.0, lambda x: x * x][k]
  tr = W.Inline(which, f0, f'inline{k}')

  def fn(v, f):
    g = Field(f.dims, f0(f.arr.astype(float)), f.coords)
    g.edges = getattr(f, 'edges', {})
    return g

  return tr, _map(state, which, fn), False, f'inline.{k}'


def g_relu(rng, state, which):
  def fn(v, f):
    x = f.arr.astype(float)
    g = Field(f.dims, np.where(np.isnan(x), np.nan, np.where(x > 0, x, 0)),
              f.coords)
    g.edges = getattr(f, 'edges', {})
    return g
  return W.ReLU(which), _map(state, which, fn), True, 'relu'


def g_shift(rng, state, which):
  fields = _fields(state, which)
  dim = _newdim(state, rng, 'shift')
  if dim is None:
    return None
  kind = rng.choice(['scalar', 'list', 'ds'])
  n = int(rng.integers(1, 4))
  if kind == 'ds':
    th, pick, extra = _nd_thresholds(rng, fields, dim, n, True,
                                     list(state['predictions']), False)
    tr, per, coords = W.ShiftAlongNewDim(which, th, dim, 'sh'), pick, None
  else:
    ts = _thresholds(rng, fields, 1 if kind == 'scalar' else n, False)
    giv, kind = (ts[0], kind) if kind == 'scalar' else _as_given(rng, ts)
    tr, per, coords = W.ShiftAlongNewDim(which, giv, dim, 'sh'), None, ts

  def fn(v, f):
    x = f.arr.astype(float)[..., None]
    if per is None:
      t, c = np.asarray(coords, float), coords
    else:
      t, c = _expand_nd(f, per(v), dim), per(v)[dim].values
    return Field(f.dims + (dim,), x + t, {**f.coords, dim: c})

  return tr, _map(state, which, fn), False, f'shift.{kind}'


def g_rename(rng, state, which):
  fields = _fields(state, which)
  dims = [d for d in fields[0].dims if all(d in f.dims for f in fields)
          and d not in ('number', 'init_time', 'lead_time')]
  if not dims:
    return None
  ren = {d: d + '_new' for d in gen.shuffled(rng, dims)[:2]}
  if any(r in f.dims for f in fields for r in ren.values()):
    return None
  tr = W.Rename(which, ren)

  def fn(v, f):
    return Field([ren.get(d, d) for d in f.dims], f.arr,
                 {ren.get(d, d): c for d, c in f.coords.items()})

  return tr, _map(state, which, fn), True, 'rename'


def g_select(rng, state, which):
  fields = _fields(state, which)
  dims = [d for d in fields[0].dims
          if all(d in f.dims and f.coords.get(d) is not None
                 and list(f.coords[d]) == list(fields[0].coords[d])
                 and len(set(np.asarray(f.coords[d]).tolist())) == f.size(d)
                 for f in fields)]
  dims = gen.shuffled(rng, dims)
  if not dims:
    return None
  sel, isel, steps, kw, ikw = None, None, [], {}, {}
  tag = []
  d = dims[0]
  lab = np.asarray(fields[0].coords[d])
  numeric = lab.dtype.kind in 'if' and np.isfinite(
      lab.astype(float)).all()
  if rng.random() < .75:
    mode = str(rng.choice(['scalar', 'list', 'slice', 'nearest']))
    if mode == 'slice' and not (numeric and len(lab) > 1 and (
        np.all(np.diff(lab) > 0))):
      mode = 'list'
    if mode == 'nearest' and not (numeric and (np.all(np.diff(lab) > 0) or
                                               np.all(np.diff(lab) < 0))):
      mode = 'scalar'
    if mode == 'scalar':
      i = int(rng.integers(len(lab)))
      sel = {d: lab[i]}
      steps.append((d, i))
    elif mode == 'list':
      ix = [int(i) for i in rng.integers(len(lab),
                                         size=int(rng.integers(1, 4)))]
      ix = list(dict.fromkeys(ix))
      sel = {d: lab[ix]}
      steps.append((d, ix))
    elif mode == 'slice':
      lo, hi = sorted(int(i) for i in rng.integers(len(lab), size=2))
      sel = {d: slice(lab[lo], lab[hi])}
      steps.append((d, list(range(lo, hi + 1))))
    else:
      i = int(rng.integers(len(lab)))
      gap = np.min(np.abs(np.diff(lab.astype(float)))) if len(lab) > 1 else 1.
      sel = {d: float(lab[i]) + .3 * gap * float(rng.choice([-1, 1]))}
      kw = {'method': 'nearest'}
      steps.append((d, i))
    tag.append(mode)
  if sel is None or rng.random() < .4:
    e = dims[1] if len(dims) > 1 else d
    if e == d and sel is not None:
      return None
    n = len(fields[0].coords[e])
    if rng.random() < .5:
      i = int(rng.integers(-n, n))
      isel = {e: i}
      steps.append((e, i % n))
    else:
      i = int(rng.integers(n))
      isel = {e: slice(i, None)}
      steps.append((e, list(range(i, n))))
    if rng.random() < .4:
      isel['nonexistent'] = 0
      ikw = {'missing_dims': 'ignore'}
    tag.append('isel')
  tr = W.Select(which, sel=sel, isel=isel, sel_kwargs=kw or None,
                isel_kwargs=ikw or None)

  def fn(v, f):
    a, dd, c = f.arr, list(f.dims), dict(f.coords)
    for d, ix in steps:
      a = np.take(a, ix, axis=dd.index(d))
      if isinstance(ix, int):
        dd.remove(d)
        c.pop(d)
      else:
        c[d] = np.asarray(c[d])[ix]
    return Field(dd, a, c)

  return tr, _map(state, which, fn), True, 'select.' + '+'.join(tag)


def g_stack(rng, state, which):
  fields = _fields(state, which)
  dims = [d for d in fields[0].dims if all(d in f.dims for f in fields)]
  # Stacking needs the dims to be indexed; unlabelled dims are fine for xarray
  # but then there is nothing to drop.
  dims = [d for d in dims if all(f.coords.get(d) is not None for f in fields)]
  if not dims:
    return None
  k = int(rng.integers(1, min(3, len(dims)) + 1))
  dd = gen.shuffled(rng, dims)[:k]
  new = str(rng.choice(['stacked', dd[0], 'member']))
  if any(new in f.dims and new not in dd for f in fields):
    new = 'stacked'
  if any(new in f.dims and new not in dd for f in fields):
    return None
  tr = W.StackToNewDimension(which, dd, new)

  def fn(v, f):
    rest = [d for d in f.dims if d not in dd]
    a = np.transpose(f.arr, [f.dims.index(d) for d in rest + dd])
    a = a.reshape(a.shape[:len(rest)] + (-1,))
    return Field(rest + [new], a, {d: f.coords.get(d) for d in rest})

  return tr, _map(state, which, fn), True, f'stack.{k}.{new in dd}'


GENS = [g_binary, g_cdf, g_bins, g_ensmean, g_weibull, g_inline, g_relu,
        g_shift, g_rename, g_select, g_stack]


def _world(rng, ensemble=None, inf=True):
  dims = ['init_time', 'lead_time', 'latitude', 'longitude']
  if rng.random() < .3:
    dims.append('level')
  coords = gen.grid(rng, dims, hi=4)
  state, data = {}, {}
  dt = str(rng.choice(['float64', 'float64', 'float32', 'int64']))
  for s in ('predictions', 'targets'):
    state[s], data[s] = {}, {}
    ens = (rng.random() < (.7 if s == 'predictions' else .25)
           if ensemble is None else ensemble and s == 'predictions')
    n = int(rng.integers(1, 6))
    for v in ('a', 'b'):
      dd = list(dims) + (['number'] if ens else [])
      cc = dict(coords)
      if ens:
        cc['number'] = np.arange(n)
      kind = str(rng.choice(['normal', 'ties', 'ints']))
      x = gen.values(rng, [len(cc[d]) for d in dd], kind)
      if dt == 'int64':
        x = np.round(x)
      elif rng.random() < .5:
        x[rng.random(x.shape) < .15] = np.nan
        if inf and rng.random() < .15:
          x[rng.random(x.shape) < .1] = np.inf
      x = x.astype(dt)
      state[s][v] = Field(dd, x, {d: cc[d] for d in dd})
      data[s][v] = mo.dataarray(x, dd, cc, gen.shuffled(rng, dd), v)
  return state, data


def _reach(metric, data):
  return {name: stat.compute(dict(data['predictions']), dict(data['targets']))
          for name, stat in metric.statistics.items()}


def _compare_state(got, state, what, exact):
  for k, s in (('p', 'predictions'), ('t', 'targets')):
    check(set(got[k]) == set(state[s]),
          f'{what}: variables {set(got[k])} of {s}', 'variables')
    for v, f in state[s].items():
      _cmp(got[k][v], f, f'{what}: {s} {v}', exact)
      for d, (lo, hi) in getattr(f, 'edges', {}).items():
        if d not in f.dims:
          continue
        for side, e in (('left', lo), ('right', hi)):
          nm = f'{d}_{side}'
          check(nm in got[k][v].coords and np.array_equal(
              got[k][v][nm].values.astype(float), np.asarray(e, float)),
              f'{what}: edge coordinate {nm} missing or wrong', 'edges')


def chain(rng, obs):
  """Random chains of transforms; the probe must see the composition."""
  state, data = _world(rng)
  start = state
  before = {s: {v: d.copy(deep=True) for v, d in data[s].items()}
            for s in data}
  n = int(rng.choice([1, 1, 2, 3, 4]))
  trs, tags, exact = [], [], True
  for _ in range(60):
    if len(trs) == n:
      break
    which = str(rng.choice(['predictions', 'targets', 'both']))
    if max(f.arr.size for f in _fields(state, which)) > 6000:
      break
    g = GENS[int(rng.integers(len(GENS)))](rng, state, which)
    if g is None:
      continue
    tr, new, ex, tag = g
    # Thresholding values that carry rounding would be ill-conditioned.
    if not exact and tag.split('.')[0] in ('binary', 'cdf', 'bins', 'relu'):
      continue
    trs.append(tr)
    state, exact = new, exact and ex
    tags.append(f'{tag}>{which[0]}')
    obs.ev('transform.' + tag.split('.')[0])
    obs.ev('which.' + which)
  what = '; '.join(tags)
  obs.ev('chain', len(trs))
  obs.mark(what)
  obs.sample(chain=what)
  suffix = 'sfx' if rng.random() < .3 else None
  m = W.WrappedMetric(ProbeMetric(), trs, unique_name_suffix=suffix)
  got = _reach(m, data)
  _compare_state(got, state, what, exact)
  again = _reach(m, data)
  _compare_state(again, state, what + ' (second use)', exact)
  for s in data:
    for v in data[s]:
      check(data[s][v].identical(before[s][v]), f'{what}: input modified',
            'modified')
  # The single statistics applied by hand, in the order of the list.
  if len(trs) == 2:
    inner = W.WrappedMetric(ProbeMetric(), [trs[1]])
    outer = W.WrappedMetric(inner, [trs[0]])
    _compare_state(_reach(outer, data), state, what + ' (nested)', exact)
    obs.ev('nested')
  if suffix:
    for k, stat in m.statistics.items():
      side = 'predictions' if k == 'p' else 'targets'
      check(stat.unique_name == f'probe_{side}_sfx',
            f'unique name {stat.unique_name} with suffix sfx', 'suffix')
  names = {stat.unique_name for stat in m.statistics.values()}
  check(len(names) == 2, f'{what}: wrapped statistics share a unique name',
        'unique')
  del start


def time_thresholds(rng, obs):
  """Thresholds that depend on time are those of the forecast's own time."""
  form = str(rng.choice(['init_lead', 'init_lead', 'valid']))
  thr = str(rng.choice(['valid_time', 'init_lead', 'doy_lead'] if form ==
                       'init_lead' else ['valid_time', 'doy']))
  bins = bool(rng.random() < .5)
  right = bins or bool(rng.random() < .5)
  nb = int(rng.integers(2, 4))
  lat = gen.latitudes(rng, int(rng.integers(1, 4)))
  inits = gen.init_times(rng, int(rng.integers(1, 5)))
  leads = gen.lead_times(rng, int(rng.integers(1, 4)))
  if form == 'init_lead':
    dims, cc = ['init_time', 'lead_time', 'latitude'], {
        'init_time': inits, 'lead_time': leads, 'latitude': lat}
    valid = inits[:, None] + leads[None, :]
  else:
    dims, cc = ['valid_time', 'latitude'], {'valid_time': inits,
                                            'latitude': lat}
    valid = inits
  tlat = bool(rng.random() < .5)
  names = ('a', 'b')
  ds = bool(rng.random() < .5)

  def coords_of():
    c = {}
    if thr == 'valid_time':
      extra = np.datetime64('2019-01-01', 'ns') + np.arange(3).astype(
          'timedelta64[D]')
      c['valid_time'] = np.unique(np.concatenate([valid.ravel(), extra]))
      if rng.random() < .5:
        c['valid_time'] = c['valid_time'][rng.permutation(
            len(c['valid_time']))]
    elif thr == 'init_lead':
      c['init_time'] = np.concatenate(
          [inits, [inits[-1] + np.timedelta64(999, 'D')]])
      c['lead_time'] = np.concatenate(
          [leads[::-1], [leads[-1] + np.timedelta64(99, 'D')]])
    else:
      c['dayofyear'] = np.arange(1, 367)
      if thr == 'doy_lead':
        c['lead_time'] = np.concatenate(
            [leads[::-1], [leads[-1] + np.timedelta64(99, 'D')]])
    if tlat:
      c['latitude'] = lat
    c['q'] = np.arange(nb) / 10.0 + .1
    return c

  tc = coords_of()
  td = gen.shuffled(rng, list(tc))

  def one():
    a = rng.choice([-1., -.5, 0, .5, 1], size=[len(tc[d]) for d in td])
    a = np.sort(a, axis=td.index('q')) + (np.arange(nb) * 1e-3).reshape(
        [-1 if d == 'q' else 1 for d in td])
    return xr.DataArray(a, dims=td, coords=tc)

  th = xr.Dataset({v: one() for v in names}) if ds else one()
  cls = W.ContinuousToBins if bins else W.ContinuousToCDF
  kw = {} if bins else {'right_inclusive': right}
  tr = cls('both', th, 'q', unique_name_suffix='t', **kw)
  state, data = {}, {}
  for s in ('predictions', 'targets'):
    state[s], data[s] = {}, {}
    for v in names:
      x = rng.choice([-1., -.5, 0, .5, 1, 1.001, np.nan],
                     size=[len(cc[d]) for d in dims])
      data[s][v] = mo.dataarray(x, dims, cc, gen.shuffled(rng, dims), v)
      t = (th[v] if ds else th).transpose(*[
          d for d in td if d not in ('latitude', 'q')], *(
              ['latitude'] if tlat else []), 'q')
      tv = t.values
      tdims = t.dims

      def at(ix):
        """Threshold row [latitude, q] for the time indices ix."""
        if form == 'init_lead':
          it, lt = inits[ix[0]], leads[ix[1]]
          vt = it + lt
        else:
          vt = it = inits[ix[0]]
        i = []
        for d in tdims:
          if d == 'valid_time':
            i.append(int(np.nonzero(tc[d] == vt)[0][0]))
          elif d == 'init_time':
            i.append(int(np.nonzero(tc[d] == it)[0][0]))
          elif d == 'lead_time':
            i.append(int(np.nonzero(tc[d] == lt)[0][0]))
          elif d == 'dayofyear':
            i.append(mo.pyday(it)[0] - 1)
        r = tv[tuple(i)]
        return r if tlat else np.broadcast_to(r, (len(lat), nb))

      nt = 2 if form == 'init_lead' else 1
      r = np.empty(x.shape + ((nb - 1) if bins else nb,))
      for ix in np.ndindex(x.shape[:nt]):
        row = at(ix)
        xx = x[ix][:, None]
        if bins:
          o = ((xx > row[:, :-1]) & (xx <= row[:, 1:])).astype(float)
        else:
          o = ((xx <= row) if right else (xx < row)).astype(float)
        r[ix] = np.where(np.isnan(xx), np.nan, o)
      state[s][v] = Field(dims + ['q'], r, {
          **cc, 'q': None if bins else tc['q']})
  got = _reach(W.WrappedMetric(ProbeMetric(), [tr]), data)
  what = f'{cls.__name__} thresholds by {thr} for {form} chunk'
  obs.ev('time.' + thr)
  obs.mark('timethr', form, thr, bins, right, tlat, ds)
  _compare_state(got, state, what, True)


def documented_example(rng, obs):
  """The module's example: CSI of ensemble probabilities of an event."""
  coords = gen.grid(rng, mo.BASE, hi=4)
  n = int(rng.integers(1, 6))
  shape = [len(coords[d]) for d in mo.BASE]
  x = gen.values(rng, shape + [n], 'normal')
  y = gen.values(rng, shape, 'normal')
  thr = sorted({round(float(v), 2) for v in rng.normal(size=2)})
  prob = [.23, .71] if rng.random() < .5 else [.41]  # No k / n.
  pd = list(mo.BASE) + ['realization']
  p = {'a': mo.dataarray(x, pd, {**coords, 'realization': np.arange(n)},
                         gen.shuffled(rng, pd), 'a')}
  t = {'a': mo.dataarray(y, mo.BASE, coords, gen.shuffled(rng, mo.BASE), 'a')}
  metric = W.WrappedMetric(C.CSI(), [
      W.ContinuousToBinary('both', thr, 'threshold_value'),
      W.EnsembleMean('predictions', ensemble_dim='realization'),
      W.ContinuousToBinary('predictions', prob, 'threshold_probability'),
  ])
  agg = mo.Agg(rng, coords)
  got = mo.evaluate(metric, agg, p, t)
  pe = np.stack([np.stack([(np.stack([x[..., k] > th for k in range(n)]
                                     ).sum(0) / n) > pr for pr in prob], -1)
                 for th in thr], -2)
  te = np.stack([y > th for th in thr], -1)[..., None]
  tp, fp, fn = (agg.mean(pe & te), agg.mean(pe & ~te), agg.mean(~pe & te))
  with np.errstate(all='ignore'):
    want = tp / (tp + fp + fn)
  have = mo.result(got, 'm.a', agg,
                   ('threshold_value', 'threshold_probability'))
  expect_close(have, want, 'CSI of ensemble probability', 'example',
               rtol=1e-5, atol=1e-6)
  obs.ev('example', have.size)
  obs.mark('example', n, len(thr), len(prob), agg.keep)


def subselect(rng, obs):
  """SubselectVariables: exactly the listed variables, values unchanged."""
  names = ['a', 'b', 'c', 'd']
  coords = gen.grid(rng, mo.BASE, hi=4)
  p = {v: gen.array(rng, coords, name=v) for v in names}
  t = {v: gen.array(rng, coords, name=v) for v in names}
  sub = gen.shuffled(rng, names)[:int(rng.integers(1, 4))]
  agg = mo.Agg(rng, coords)
  for cls in (D.MSE, D.RMSE, D.Bias, D.ACC if False else D.MAE):
    got = mo.evaluate(W.SubselectVariables(cls(), sub), agg, p, t)
    ref = mo.evaluate(cls(), agg, p, t)
    check(set(got.data_vars) == {f'm.{v}' for v in sub},
          f'variables {set(got.data_vars)} for {sub}', 'subselect.vars')
    for v in sub:
      expect_close(got[f'm.{v}'].values, ref[f'm.{v}'].values,
                   f'{cls.__name__} of selected {v}', 'subselect.values')
  st = W.SubselectVariablesForStatistic(D.SquaredError(), sub).compute(p, t)
  check(set(st) == set(sub), 'statistic variables', 'subselect.vars')
  obs.ev('subselect', 5)
  obs.mark('subselect', len(sub))


def refused(rng, obs):
  """Configurations documented as invalid are refused."""
  coords = gen.grid(rng, ['latitude', 'longitude'])
  da = gen.array(rng, coords, name='a')
  nd = xr.DataArray([[0., 1.]], dims=['x', 'th'], coords={'th': [0, 1]})
  k = int(rng.integers(9))
  if k == 0:
    for f in (lambda: W.ReLU('prediction'), lambda: W.EnsembleMean('all'),
              lambda: W.Select('none', isel={'x': 0}),
              lambda: W.ContinuousToBinary('pred', 0.5, 'th')):
      expect_raises(f, 'unknown input', 'refuse.which', ValueError)
  elif k == 1:
    for c in (W.ContinuousToBinary, W.ContinuousToBins, W.ContinuousToCDF):
      expect_raises(lambda: c('both', nd, 'th'), 'no suffix', 'refuse.suffix',
                    ValueError)
      expect_raises(lambda: c('both', nd.to_dataset(name='a'), 'th'),
                    'no suffix', 'refuse.suffix', ValueError)
  elif k == 2:
    for c in (W.ContinuousToBins, W.ContinuousToCDF):
      for bad in ([1., 0.], [0., 0., 1.], [0., 2., 1.]):
        expect_raises(lambda: c('both', bad, 'th').transform_fn(da),
                      'not increasing', 'refuse.monotone', ValueError)
  elif k == 3:
    ds = xr.Dataset({'a': ('x', [0., 1.])})
    expect_raises(lambda: W.ShiftAlongNewDim('both', ds, 'th', 's'
                                             ).transform_fn(da),
                  'shift dim missing', 'refuse.shift', RuntimeError)
  elif k == 4:
    expect_raises(
        lambda: W.WeibullEnsembleToProbabilistic('both'),
        'targets to probabilities', 'refuse.weibull', AssertionError)
  elif k == 5:
    expect_raises(lambda: W.EnsembleMean('both').transform_fn(da),
                  'no ensemble', 'refuse.ens', ValueError)
    check(W.EnsembleMean('both', skip_if_ensemble_dim_missing=True
                         ).transform_fn(da).equals(da), 'skipped mean',
          'ens.skip')
  elif k == 6:
    expect_raises(lambda: W.ContinuousToBinary(
        'both', nd.to_dataset(name='zz').isel(x=0), 'th', 's'
        ).transform_fn(da), 'variable without thresholds', 'refuse.var',
                  AssertionError)
  elif k == 7:
    expect_raises(lambda: W.ContinuousToBinary(
        'both', nd.isel(x=0), 'other', 's').transform_fn(da),
                  'threshold dim missing', 'refuse.dim', AssertionError)
  else:
    # Not enforced: values are then compared one by one.
    r = W.ContinuousToCDF('both', [1., 0.], 'th', enforce_monotonicity=False
                          ).transform_fn(da).transpose(*da.dims, 'th').values
    w = np.stack([da.values <= 1., da.values <= 0.], -1).astype(float)
    check(np.array_equal(r, w), 'unordered thresholds', 'unordered')
  obs.ev('refuse')
  obs.mark('refuse', k)


SCENARIOS = {
    'chain': (chain, 700, 9000),
    'time_thresholds': (time_thresholds, 200, 2500),
    'documented_example': (documented_example, 50, 500),
    'subselect': (subselect, 20, 150),
    'refused': (refused, 60, 200),
}
MIN = {'chain': (800, 8000), 'time.valid_time': (30, 300),
       'time.init_lead': (20, 200), 'time.doy_lead': (20, 200),
       'time.doy': (10, 100), 'example': (50, 500), 'nested': (30, 300),
       'which.both': (100, 1000), 'which.predictions': (100, 1000),
       'which.targets': (100, 1000)}
for _n in ('binary', 'cdf', 'bins', 'ensmean', 'weibull', 'inline', 'relu',
           'shift', 'rename', 'select', 'stack'):
  MIN['transform.' + _n] = (15, 150)
