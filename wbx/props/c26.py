"""C26: evaluation is pure: inputs unchanged, results repeatable."""

import copy
import hashlib
import os
import pickle
import subprocess
import sys
import threading

import numpy as np
import xarray as xr
from wbx import catalog
from wbx import gen
from wbx import infer
from wbx.core import Violation, check, expect_close
from wbx.props import c02
from wbx.props import c04
from weatherbenchX import aggregation
from weatherbenchX import binning
from weatherbenchX import weighting
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.statistical_inference import autodiff
from weatherbenchX.statistical_inference import baseline_comparison
from weatherbenchX.statistical_inference import bootstrap
from weatherbenchX.statistical_inference import t_test

RULE = ('every catalogue metric on random worlds (masks, missing values, '
        'sets/lists of options), aggregated with random weights and bins; a '
        'content fingerprint of all data handed over (values, coordinates, '
        'names, attributes, container keys and element identity) is taken '
        'before and compared after each call; results compared bit for bit '
        'between repeats, after other data, after pickling, between threads '
        'sharing the objects, and with a fresh process of another hash seed; '
        'fingerprint = (metrics, history, options)')
ASSUMPTIONS = ['across processes and metric orders, sums are compared to '
               'rounding because the order of set iteration may differ']
CASE_TIMEOUT = 300


def digest(x, deep=True):
  """Content fingerprint of nested data; container identity by contents."""
  h = hashlib.blake2b(digest_size=16)
  _digest(x, h)
  return h.hexdigest()


def _digest_var(v, h):
  h.update(repr((v.dims, str(v.dtype), v.shape,
                 sorted(map(str, v.attrs.items())))).encode())
  a = np.asarray(v.values)
  h.update(repr(a.tolist()).encode() if a.dtype.kind == 'O'
           else np.ascontiguousarray(a).tobytes())


def _digest(x, h):
  if isinstance(x, xr.DataArray):
    h.update(f'A{x.name!r}'.encode())
    _digest_var(x.variable, h)
    for c in sorted(x.coords, key=str):
      h.update(f'c{c!r}'.encode())
      _digest_var(x.coords[c].variable, h)
  elif isinstance(x, xr.Dataset):
    h.update(repr(('D', list(x.data_vars), sorted(map(str, x.coords)),
                   sorted(map(str, x.attrs.items())))).encode())
    for v in x.variables:
      h.update(repr(v).encode())
      _digest_var(x.variables[v], h)
  elif isinstance(x, dict):
    h.update(repr(('M', list(x))).encode())
    for v in x.values():
      _digest(v, h)
  elif isinstance(x, (list, tuple)):
    h.update(f'L{len(x)}'.encode())
    for v in x:
      _digest(v, h)
  else:
    h.update(repr(x).encode())


class Frozen:
  """Remembers what a set of named inputs looked like."""

  def __init__(self, **inputs):
    self.inputs = inputs
    self.before = {k: digest(v) for k, v in inputs.items()}
    self.ids = {k: {n: id(e) for n, e in v.items()}
                for k, v in inputs.items() if type(v) is dict}

  def verify(self, what, obs):
    for k, v in self.inputs.items():
      check(digest(v) == self.before[k], f'{what}: {k} was modified',
            f'changed.{k}')
      if k in self.ids:
        check({n: id(e) for n, e in v.items()} == self.ids[k],
              f'{what}: elements of {k} were replaced', f'changed.{k}')
      obs.ev('inputs_verified')


def states_equal(a, b, what, key, exact=True, rtol=1e-9, atol=1e-12):
  for part in ('sum_weighted_statistics', 'sum_weights'):
    x, y = getattr(a, part), getattr(b, part)
    check(set(x) == set(y), f'{what}: statistics {set(x) ^ set(y)}', key)
    for s in x:
      check(set(x[s]) == set(y[s]), f'{what}: variables of {s}', key)
      for v in x[s]:
        arrays_equal(x[s][v], y[s][v], f'{what}: {part} {s}.{v}', key, exact,
                     rtol, atol)


def trees_equal(a, b, what, key, exact=True, rtol=1e-9, atol=1e-12):
  check(set(a) == set(b), f'{what}: entries {set(a) ^ set(b)}', key)
  for k in a:
    if isinstance(a[k], xr.DataArray):
      arrays_equal(a[k], b[k], f'{what}: {k}', key, exact, rtol, atol)
    else:
      trees_equal(a[k], b[k], f'{what}: {k}', key, exact, rtol, atol)


def arrays_equal(a, b, what, key, exact=True, rtol=1e-9, atol=1e-12):
  if set(a.dims) != set(b.dims):
    raise Violation(f'{what}: dims {a.dims} and {b.dims}', key)
  if a.dims != b.dims:
    check(not exact, f'{what}: dims {a.dims} and {b.dims}', key)
    b = b.transpose(*a.dims)
  check(set(map(str, a.coords)) == set(map(str, b.coords)),
        f'{what}: coordinates {set(map(str, a.coords)) ^ set(map(str, b.coords))}',
        key)
  for c in a.coords:
    if exact:
      check(a.coords[c].variable.identical(b.coords[c].variable),
            f'{what}: coordinate {c}', key)
  if exact:
    x, y = np.asarray(a.values), np.asarray(b.values)
    ok = (x.shape == y.shape and x.dtype == y.dtype and
          np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'))
    check(ok, lambda: f'{what}: values differ by {np.nanmax(np.abs(x.astype(float) - y.astype(float))) if x.shape == y.shape else (x.shape, y.shape)}',
          key)
  else:
    f32 = 'f4' in (a.dtype.str[1:], b.dtype.str[1:])
    expect_close(a.values, b.values, what, key, rtol=3e-5 if f32 else rtol,
                 atol=1e-5 if f32 else atol)


def _pick(rng, kind, n, masked=False):
  own = [e for e in catalog.ENTRIES if e.kind == kind]
  if masked:
    own = [e for e in own if e.name not in ('seeps', 'rel_intensity')]
  return gen.shuffled(rng, own)[:n]


def _world(rng, kind, base=None, dtype=float):
  """A world; `base` gives the sizes to share spatial coordinates with."""
  if base is None:
    return catalog.world(rng, kind, dtype=dtype)
  coords = dict(base.coords)
  coords['init_time'] = coords['init_time'] + np.timedelta64(
      int(rng.integers(1, 40)) * 24, 'h')
  if rng.random() < .5:
    coords['lead_time'] = coords['lead_time'][:max(
        1, len(coords['lead_time']) - 1)]
  w = catalog.world(rng, kind, coords=coords, dtype=dtype)
  w.climatology, w.seeps = base.climatology, base.seeps
  return w


def _agg(rng, w, entries, masked):
  space = ['latitude', 'longitude']
  if any(e.name == 'rel_intensity' for e in entries):
    space = []
  reduce_dims = gen.subset(rng, ['init_time', 'lead_time'], .6) + gen.subset(
      rng, space, .8)
  weigh, bins = [], []
  if rng.random() < .5:
    weigh.append(weighting.GridAreaWeighting())
  if 'latitude' in reduce_dims and rng.random() < .4:
    weigh.append(c04.RandomWeight(xr.DataArray(
        rng.random(len(w.coords['latitude'])), dims=['latitude'],
        coords={'latitude': w.coords['latitude']})))
  if 'latitude' in space and rng.random() < .4:
    bins.append(binning.Regions({'n': ((0, 90), (0, 360)),
                                 's': ((-90, 0), (0, 360)),
                                 'w': ((-90, 90), (-90, 90))}))
  if 'init_time' in reduce_dims and rng.random() < .4:
    bins.append(binning.ByTimeUnit('hour', 'init_time', add_global_bin=bool(
        rng.random() < .5)))
  mk = masked or any(e.name == 'seeps' for e in entries)
  rd = gen.shuffled(rng, reduce_dims)
  return aggregation.Aggregator(
      reduce_dims=set(rd) if rng.random() < .4 else rd, bin_by=bins or None,
      weigh_by=weigh or None, masked=mk, skipna=bool(rng.random() < .2))


def _setup(rng, n=2):
  kind = str(rng.choice(['cont', 'cont', 'cont', 'ens', 'ens', 'bin', 'prob',
                         'ens2']))
  dtype = np.float32 if rng.random() < .2 else float
  w = _world(rng, kind, dtype=dtype)
  masked = kind == 'cont' and rng.random() < .3
  if masked:
    c02._mask_targets(rng, w)
  if rng.random() < .25 and kind in ('cont', 'ens'):
    for v in w.targets.values():
      v.values[rng.random(v.shape) < .05] = np.nan
  entries = _pick(rng, kind, int(rng.integers(1, n + 1)), masked)
  metrics = {e.name: e.make(w, rng) for e in entries}
  agg = _agg(rng, w, entries, masked)
  return kind, dtype, w, entries, metrics, agg


def _stats(metrics, p, t):
  return metrics_base.compute_unique_statistics_for_all_metrics(metrics, p, t)


def _evaluable(metrics, state):
  """Metrics all of whose statistics were kept by the aggregation."""
  have = {s for s, v in state.sum_weighted_statistics.items() if v}
  return {n: m for n, m in metrics.items()
          if {s.unique_name for s in m.statistics.values()} <= have}


def _values(metrics, state):
  ms = _evaluable(metrics, state)
  return dict(state.metric_values(ms).data_vars) if ms else {}


def repeat(rng, obs):
  """One object, used again and again, with other work in between."""
  kind, dtype, w, entries, metrics, agg = _setup(rng, 3)
  names = sorted(metrics)
  desc = f'{names} {kind} reduce={agg.reduce_dims}'
  frozen = Frozen(predictions=w.predictions, targets=w.targets,
                  climatology=w.climatology, seeps=w.seeps)
  first_stats = _stats(metrics, w.predictions, w.targets)
  frozen.verify(f'{desc}: computing statistics', obs)
  fs = Frozen(statistics=first_stats)
  first = agg.aggregate_statistics(first_stats)
  fs.verify(f'{desc}: aggregating', obs)
  frozen.verify(f'{desc}: aggregating', obs)
  fst = Frozen(sums=first.sum_weighted_statistics, weights=first.sum_weights)
  vals = _values(metrics, first)
  fst.verify(f'{desc}: metric values', obs)
  fs.verify(f'{desc}: metric values', obs)
  keep = copy.deepcopy(first_stats), copy.deepcopy(
      (first.sum_weighted_statistics, first.sum_weights)), {
          k: v.copy(deep=True) for k, v in vals.items()}

  other = _world(rng, kind, base=w, dtype=dtype)
  history = []
  steps = gen.shuffled(rng, ['same', 'other', 'forms', 'pickle', 'reorder',
                             'alone', 'self', 'states'])
  m2, a2 = metrics, agg
  for step in steps:
    history.append(step)
    what = f'{desc} after {history}'
    if step == 'same':
      got = _stats(m2, w.predictions, w.targets)
      trees_equal(keep[0], got, what, 'repeat.statistics')
      states_equal(aggregation.AggregationState(*keep[1]),
                   a2.aggregate_statistics(got), what, 'repeat.states')
    elif step == 'other':
      fo = Frozen(predictions=other.predictions, targets=other.targets)
      st = a2.aggregate_statistics(
          _stats(m2, other.predictions, other.targets))
      _values(m2, st)
      fo.verify(what, obs)
      # The result for the other data does not depend on this history.
      fresh = {e.name: e.make(w, np.random.default_rng(0)) for e in entries}
      states_equal(aggregation.Aggregator(
          agg.reduce_dims, agg.bin_by, agg.weigh_by, agg.masked, agg.skipna
      ).aggregate_statistics(_stats(fresh, other.predictions, other.targets)),
                   st, what, 'repeat.history')
    elif step == 'forms' and kind != 'ens2' and not any(
        'mask' in v.coords for v in w.targets.values()):
      # Datasets instead of dicts, with one more variable nobody asked for.
      p, t = dict(w.predictions), dict(w.targets)
      dp = xr.Dataset({k: p[k] for k in gen.shuffled(rng, list(p))})
      dt = xr.Dataset({k: t[k] for k in gen.shuffled(rng, list(t))})
      fd = Frozen(predictions=dp, targets=dt)
      got = _stats(m2, dp, dt)
      fd.verify(what + ' (datasets)', obs)
      trees_equal(keep[0], got, what, 'repeat.dataset', exact=False)
      obs.ev('dataset_inputs')
    elif step == 'pickle':
      m2, a2 = pickle.loads(pickle.dumps((m2, a2)))
      got = pickle.loads(pickle.dumps(_stats(m2, w.predictions, w.targets)))
      trees_equal(keep[0], got, what, 'pickle.statistics')
      st = pickle.loads(pickle.dumps(a2.aggregate_statistics(got)))
      states_equal(aggregation.AggregationState(*keep[1]), st, what,
                   'pickle.states')
      trees_equal(keep[2], _values(m2, st), what, 'pickle.values')
      obs.ev('pickled')
    elif step == 'reorder':
      order = gen.shuffled(rng, names)
      got = _stats({n: m2[n] for n in order}, w.predictions, w.targets)
      trees_equal(keep[0], got, what, 'repeat.order', exact=False)
    elif step == 'alone':
      n = str(rng.choice(names))
      got = _stats({n: m2[n]}, w.predictions, w.targets)
      trees_equal({k: keep[0][k] for k in got}, got, what, 'repeat.alone',
                  exact=False)
    elif step == 'self' and kind != 'ens2' and set(
        w.predictions[catalog.VARS[0]].dims) == set(
            w.targets[catalog.VARS[0]].dims):
      # The same objects as predictions and targets.
      same = _stats(m2, w.targets, w.targets)
      copies = {k: v.copy(deep=True) for k, v in w.targets.items()}
      trees_equal(_stats(m2, copies, w.targets), same, what, 'repeat.self')
      frozen.verify(what, obs)
      obs.ev('same_object_inputs')
    elif step == 'states':
      # Merging, converting and evaluating leave the operands alone.
      s = aggregation.AggregationState(*keep[1])
      z = s + aggregation.AggregationState.zero()
      _ = first + first
      _values(m2, _)
      sum([first, first], aggregation.AggregationState.zero())
      states_equal(s, z, what, 'repeat.zero', exact=False)
      if not isinstance(agg.bin_by, str):
        first.mean_statistics()
    frozen.verify(what, obs)
    fs.verify(what, obs)
    fst.verify(what, obs)
    obs.ev('steps')
  trees_equal(keep[2], _values(metrics, first), f'{desc} after {history}',
              'repeat.values')
  obs.ev('metrics_monitored', len(names))
  for n in names:
    obs.mark('metric', n, kind)
  obs.mark('repeat', names, tuple(steps[:3]))
  obs.sample(desc=desc, history=history)


def objects(rng, obs):
  """Weights, bins and aggregators on raw statistics."""
  da, dtype = c04.make_stat(rng)
  if rng.random() < .5:
    da, _ = c04.add_mask(rng, da)
  agg, o = c04.make_aggregator(rng, da)
  desc = f'{da.dims} {dtype} {o["reduce_dims"]}'
  stats = {'s': {'v': da}, 't': {'v': da, 'w': da.rename('w')}}
  fz = Frozen(statistics=stats)
  own = Frozen(**{f'w{i}': w.da for i, w in enumerate(agg.weigh_by or [])
                  if hasattr(w, 'da')},
               **{f'b{i}': b.da for i, b in enumerate(agg.bin_by or [])})
  a = agg.aggregate_statistics(stats)
  fz.verify(desc, obs)
  own.verify(desc, obs)
  b = agg.aggregate_statistics(stats)
  states_equal(a, b, desc, 'object.repeat')
  # The same array under two names gives the same aggregate.
  for s, v in (('t', 'v'), ('t', 'w')):
    if v in a.sum_weights.get(s, {}):
      x = a.sum_weighted_statistics[s][v]
      arrays_equal(a.sum_weighted_statistics['s']['v'].rename(x.name), x,
                   f'{desc}: {s}.{v}', 'object.shared')
  c = pickle.loads(pickle.dumps(agg)).aggregate_statistics(
      pickle.loads(pickle.dumps(stats)))
  states_equal(a, c, desc, 'object.pickle', exact=False)
  if rng.random() < .5:
    ds = {s: xr.Dataset(v) for s, v in stats.items()} if (
        'mask' not in da.coords) else None
    if ds:
      fd = Frozen(**ds)
      states_equal(a, agg.aggregate_statistics(ds), desc, 'object.dataset',
                   exact=False)
      fd.verify(desc, obs)
  # Bins and weights by themselves.
  sizes = dict(da.sizes)
  parts = []
  if 'latitude' in sizes and 'longitude' in sizes:
    parts.append(binning.Regions({'a': ((-30, 60), (10, 200))}))
    land = xr.DataArray(rng.random((sizes['latitude'], sizes['longitude'])),
                        dims=['latitude', 'longitude'],
                        coords={k: da[k] for k in ('latitude', 'longitude')})
    parts.append(binning.Regions(
        {'a': ((-30, 60), (10, 200))},
        land_sea_mask=(land > .5).drop_vars('mask', errors='ignore')))
  if 'latitude' in sizes:
    parts.append(weighting.GridAreaWeighting())
  if 'init_time' in sizes:
    parts.append(binning.ByTimeUnit(
        str(rng.choice(['hour', 'month', 'dayofyear'])), 'init_time'))
  d0 = str(da.dims[0])
  da = da.assign_coords(group=(d0, rng.integers(0, 3, sizes[d0])),
                        height=(d0, rng.random(sizes[d0])))
  fz = Frozen(statistics=da)
  parts.append(binning.ByExactCoord('group'))
  parts.append(binning.ByCoordBins('height', np.array([0.1, 0.4, 0.8])))
  for p in parts:
    fp = Frozen(**{k: v for k, v in vars(p).items()
                   if isinstance(v, (xr.DataArray, xr.Dataset, dict))})
    call = (p.weights if isinstance(p, weighting.Weighting)
            else p.create_bin_mask)
    r1 = call(da)
    keep = r1.copy(deep=True)
    r1 = r1.copy(deep=True) if not r1.values.flags.writeable else r1
    other = da.isel({str(da.dims[0]): slice(0, 1)}) if (
        da.dims[0] not in ('latitude', 'longitude')) else da
    call(other)
    r2 = call(da)
    arrays_equal(keep, r2, f'{type(p).__name__} on {desc}', 'object.part')
    r3 = (pickle.loads(pickle.dumps(p)).weights if isinstance(
        p, weighting.Weighting)
          else pickle.loads(pickle.dumps(p)).create_bin_mask)(da)
    arrays_equal(keep, r3, f'pickled {type(p).__name__} on {desc}',
                 'object.part')
    fp.verify(f'{type(p).__name__} on {desc}', obs)
    fz.verify(f'{type(p).__name__} on {desc}', obs)
    obs.ev('parts_monitored')
  obs.ev('aggregations')
  obs.mark('objects', da.dims, dtype, o['masked'], o['skipna'])


def threads(rng, obs):
  """Several threads share metrics and aggregator objects."""
  kind, dtype, w, entries, metrics, agg = _setup(rng, 2)
  worlds = [w] + [_world(rng, kind, base=w, dtype=dtype) for _ in range(3)]
  frozen = [Frozen(predictions=x.predictions, targets=x.targets,
                   climatology=x.climatology, seeps=x.seeps) for x in worlds]
  serial = [agg.aggregate_statistics(_stats(metrics, x.predictions, x.targets))
            for x in worlds]
  out, errors = {}, []
  barrier = threading.Barrier(len(worlds))

  def work(i):
    try:
      barrier.wait(30)
      for r in range(2):
        out[i, r] = agg.aggregate_statistics(
            _stats(metrics, worlds[i].predictions, worlds[i].targets))
    except Exception as e:  # pylint: disable=broad-except
      errors.append((i, e))

  old = sys.getswitchinterval()
  sys.setswitchinterval(1e-5)
  try:
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(worlds))]
    for t in ts:
      t.start()
    for t in ts:
      t.join()
  finally:
    sys.setswitchinterval(old)
  desc = f'{sorted(metrics)} {kind}'
  check(not errors, f'{desc}: {errors}', 'threads.raised')
  for (i, r), st in out.items():
    states_equal(serial[i], st, f'{desc}: thread {i} round {r}',
                 'threads.differ')
    obs.ev('thread_results')
  for f in frozen:
    f.verify(f'{desc}: threads', obs)
  obs.mark('threads', sorted(metrics), kind)


_CHILD = '''
import pickle, sys
sys.path.insert(0, {verif!r})
from wbx import run
run._install_nocache_hook()
sys.path.insert(0, {repo!r})
from wbx.props import c26
with open(sys.argv[1], 'rb') as f:
  jobs = pickle.load(f)
out = []
for metrics, agg, p, t, stats, state in jobs:
  s = c26._stats(metrics, p, t)
  a = agg.aggregate_statistics(s)
  b = agg.aggregate_statistics(stats)
  out.append((s, a, b, state, c26._values(metrics, state),
              [x.unique_name for m in metrics.values()
               for x in m.statistics.values()]))
with open(sys.argv[2], 'wb') as f:
  pickle.dump(out, f)
'''


def process(rng, obs):
  """Everything is sent to a fresh process with another hash seed."""
  jobs, mine, descs = [], [], []
  for _ in range(12):
    kind, dtype, w, entries, metrics, agg = _setup(rng, 3)
    stats = _stats(metrics, w.predictions, w.targets)
    state = agg.aggregate_statistics(stats)
    jobs.append((metrics, agg, w.predictions, w.targets, stats, state))
    mine.append((stats, state, _values(metrics, state),
                 [x.unique_name for m in metrics.values()
                  for x in m.statistics.values()]))
    descs.append(f'{sorted(metrics)} {kind}')
  a, b = os.path.join(obs.tmp, 'in.pkl'), os.path.join(obs.tmp, 'out.pkl')
  with open(a, 'wb') as f:
    pickle.dump(jobs, f)
  from wbx import core  # pylint: disable=g-import-not-at-top
  verif = os.path.dirname(os.path.dirname(os.path.abspath(core.__file__)))
  env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))))
  r = subprocess.run(
      [sys.executable, '-B', '-c', _CHILD.format(verif=verif, repo=core.REPO),
       a, b], env=env, cwd=obs.tmp, capture_output=True, text=True,
      timeout=250, check=False)
  check(r.returncode == 0, f'child failed: {r.stderr[-1500:]}',
        'process.raised')
  with open(b, 'rb') as f:
    out = pickle.load(f)
  for d, (stats, state, vals, uniq), (s, st, st2, back, v, u) in zip(
      descs, mine, out):
    check(uniq == u, f'{d}: names {uniq} became {u}', 'process.names')
    trees_equal(stats, s, d, 'process.statistics', exact=False)
    states_equal(state, st, d, 'process.states', exact=False)
    states_equal(state, st2, d, 'process.sent_statistics', exact=False)
    states_equal(state, back, d, 'process.sent_states')
    trees_equal(vals, v, d, 'process.values', exact=False, rtol=1e-6,
                atol=1e-6)
    obs.ev('jobs_in_child')
    obs.mark('process', d)


def inference(rng, obs):
  """Inference methods leave the states alone and repeat exactly."""
  metrics, state, second, desc = infer.make(rng, second=True)
  fz = Frozen(sums=state.sum_weighted_statistics, weights=state.sum_weights,
              sums2=second.sum_weighted_statistics, weights2=second.sum_weights)
  which = str(rng.choice(['iid', 'geer', 'ewc', 'boot', 'stationary', 'auto',
                          'baseline']))

  def once():
    np.random.seed(5)
    if which == 'auto':
      return autodiff.per_unit_values_linearized_around_mean_statistics(
          metrics, state, infer.UNIT)
    if which == 'baseline':
      m = baseline_comparison.for_metrics(metrics)
      c = baseline_comparison.combine_aggregation_states(state, second)
      sm = c.sum_along_dims([infer.UNIT])
      return dict(sm.metric_values(m).data_vars)
    cls = {'iid': t_test.IID, 'geer': t_test.GeerAR2Corrected,
           'ewc': t_test.LazarusHACEWC, 'boot': bootstrap.IIDBootstrap,
           'stationary': bootstrap.StationaryBootstrap}[which]
    kw = {}
    if which in ('boot', 'stationary'):
      kw = dict(n_replicates=6)
    if which == 'stationary':
      kw['mean_block_length'] = 2.0
    m = cls(metrics, state, infer.UNIT, **kw)
    return m.point_estimates(), m.standard_error_estimates()

  try:
    a = once()
  except (ValueError, NotImplementedError) as e:
    fz.verify(f'{which} {desc}', obs)
    obs.ev('refused')
    del e
    return
  fz.verify(f'{which} {desc}', obs)
  b = once()
  fz.verify(f'{which} {desc}', obs)
  _nested_equal(a, b, f'{which} {desc}', 'inference.repeat')
  obs.ev('inference_runs')
  obs.mark('inference', which, sorted(metrics))


def _nested_equal(a, b, what, key):
  if isinstance(a, tuple):
    for x, y in zip(a, b):
      _nested_equal(x, y, what, key)
  elif isinstance(a, xr.DataArray):
    arrays_equal(a, b, what, key)
  else:
    check(set(a) == set(b), f'{what}: {set(a) ^ set(b)}', key)
    for k in a:
      _nested_equal(a[k], b[k], f'{what}: {k}', key)


SCENARIOS = {
    'repeat': (repeat, 120, 1600),
    'objects': (objects, 120, 1500),
    'threads': (threads, 24, 240),
    'process': (process, 3, 24),
    'inference': (inference, 28, 280),
}
MIN = {
    'inputs_verified': (1000, 10000), 'steps': (500, 5000),
    'metrics_monitored': (100, 1000), 'aggregations': (50, 500),
    'parts_monitored': (40, 400), 'thread_results': (60, 600),
    'jobs_in_child': (18, 150), 'inference_runs': (10, 100),
    'pickled': (60, 600), 'dataset_inputs': (30, 300),
    'same_object_inputs': (20, 200),
}
