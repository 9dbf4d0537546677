"""C17: sparse observations are matched to forecasts exactly once."""

import collections
import os

import numpy as np
import pandas as pd
from wbx import gen
from wbx.core import check, expect_raises, Violation
from weatherbenchX.data_loaders import sparse_parquet as S

RULE = ('station records (several per station and hour, observation times off '
        'the nominal hour, on interval ends and across day/month/year ends, '
        'NaN, quality flags, empty files) written in hour/day/month '
        'partitions; exact, tolerance and interval requests with all loader '
        'options; result rows compared as multisets with a scan over all '
        'records; fingerprint = (options, partition, request kind, counts)')
ASSUMPTIONS = [
    'all files of the requested period exist, as the loader documents',
    'observation times are within file_tolerance of their partition',
    'without a column to decide, any one of the duplicates may be kept']

H = np.timedelta64(1, 'h')
M = np.timedelta64(1, 'm')
NS = 'datetime64[ns]'
STARTS = ['2019-12-31T12', '2020-02-28T20', '2021-06-30T18', '2022-03-05T00']


def _ns(x):
  return int(np.datetime64(x, 'ns').astype('int64'))


def _td(x):
  return int(np.timedelta64(x, 'ns').astype('int64'))


def records(rng, hours, jitter, empty_hours=True):
  """DataFrame of reports with raw (METAR-like) column names."""
  start = np.datetime64(str(rng.choice(STARTS)), 'h')
  rows = []
  ns = int(rng.integers(1, 6))
  # Station identifiers also encode the place.
  place = {k: (round(float(rng.uniform(-90, 90)), 2),
               round(float(rng.uniform(-180, 180)), 2),
               float(rng.choice([0.0, 12.5, 3000.0, 9999.0, 9998.9])))
           for k in range(ns)}
  for h in range(hours):
    if empty_hours and rng.random() < .15:
      continue
    for k in range(ns):
      for _ in range(int(rng.choice([0, 1, 1, 1, 2, 3]))):
        nominal = (start + h * H).astype(NS)
        off = int(rng.choice([0, 0, 0, -30, 30, -59, 59, int(
            rng.integers(-59, 60))])) if jitter else 0
        rows.append(dict(
            timeNominal=nominal, timeObs=nominal + off * M,
            stationName=f'S{k:02d}', latitude=place[k][0],
            longitude=place[k][1], elevation=place[k][2],
            temperature=float(np.round(rng.normal(280, 10), 3)),
            windSpeed=float(np.round(rng.random() * 20, 3)),
            uid=float(len(rows))))
  cols = ['timeNominal', 'timeObs', 'stationName', 'latitude', 'longitude',
          'elevation', 'temperature', 'windSpeed', 'uid']
  df = pd.DataFrame(rows, columns=cols)
  for c in ('temperature', 'windSpeed'):
    frac = float(rng.choice([0, .1, .4]))
    df.loc[rng.random(len(df)) < frac, c] = np.nan
    flags = rng.choice(['S', 'V', 'C', 'G', 'Z', 'B', 'X', 'Q', 'k', 'K', 'z'],
                       len(df))
    df[c + 'DD'] = flags.astype(object)
  for c in ('timeNominal', 'timeObs'):
    df[c] = df[c].astype(NS)
  return start, df


def write(df, root, part, first, last):
  """One file per partition between two times, by nominal time."""
  unit = {'hour': 'h', 'day': 'D', 'month': 'M'}[part]
  t = np.arange(np.datetime64(first, unit), np.datetime64(last, unit) + 1)
  key = df['timeNominal'].values.astype(f'datetime64[{unit}]')
  n_empty = 0
  for x in t:
    ts = x.astype('datetime64[h]').item()
    d = os.path.join(root, f'year={ts.year}', f'month={ts.month}')
    name = f'{ts.year}-{ts.month:02d}'
    if part != 'month':
      d = os.path.join(d, f'day={ts.day}')
      name += f'-{ts.day:02d}'
    if part == 'hour':
      d = os.path.join(d, f'hour={ts.hour}')
      name += f'T{ts.hour:02d}'
    os.makedirs(d, exist_ok=True)
    sub = df[key == x]
    n_empty += len(sub) == 0
    sub.to_parquet(os.path.join(d, name + '.parquet'), index=False)
  return n_empty


def _matches(df, tcol, lo, hi, closed):
  t = df[tcol].values.astype('int64')
  if hi is None:
    return df[t == lo]
  return df[(t >= lo) & ((t <= hi) if closed else (t < hi))]


def _request(rng, start, hours, mode):
  """Init times and lead times whose windows stay near the records."""
  n = int(rng.integers(1, 4))
  init = (start + np.sort(rng.choice(max(hours - 4, n), n, replace=False)) * H
          ).astype(NS)
  if mode == 'interval':
    a = int(rng.choice([-60, 0, 0, 30, 90, 120]))
    b = a + int(rng.choice([15, 60, 90, 180, 360]))
    return init, slice(np.timedelta64(a, 'm').astype('timedelta64[ns]'),
                       np.timedelta64(b, 'm').astype('timedelta64[ns]'))
  if mode == 'nolead':
    return init, None
  k = int(rng.integers(1, 4))
  lead = (np.sort(rng.choice(6, k, replace=False)) * H).astype(
      'timedelta64[ns]')
  if rng.random() < .2:
    init = init + 30 * M
  return init, lead


def _groups(df, init, lead, opts):
  """Requested groups: (init, lead | None, valid, matching records)."""
  out = []
  for i in init:
    if isinstance(lead, slice):
      lo, hi = _ns(i) + _td(lead.start), _ns(i) + _td(lead.stop)
      out.append((_ns(i), 'interval', None, _matches(
          df, opts['time_dim'], lo, hi, opts['closed'])))
      continue
    for l in [None] if lead is None else lead:
      v = _ns(i) + (0 if l is None else _td(l))
      if opts['tol'] is None:
        sub = _matches(df, opts['time_dim'], v, None, None)
      else:
        sub = _matches(df, opts['time_dim'], v + _td(opts['tol'][0]),
                       v + _td(opts['tol'][1]), opts['closed'])
      out.append((None if l is None else _ns(i), None if l is None else _td(l),
                  v, sub))
  return out


def _value(x):
  return 'nan' if (isinstance(x, float) and np.isnan(x)) else x


def _expected_rows(groups, opts, names, coord_cols):
  """List of rows; with duplicates removed, a list of alternatives each."""
  sure, choice = collections.Counter(), []
  for i, l, v, sub in groups:
    rows = []
    for r in sub.to_dict('records'):
      t = _ns(np.datetime64(r[opts['time_dim']]))
      lead = t - i if l == 'interval' else l
      vals = tuple(_value(r[c]) for c in names)
      row = ((i, lead, t) + tuple(_value(r[c]) for c in coord_cols) + vals)
      rows.append((r, row, any(x == 'nan' for x in vals)))
    if not opts['dedupe']:
      for _, row, bad in rows:
        if not (opts['dropna'] and bad):
          sure[row] += 1
      continue
    by = collections.defaultdict(list)
    for r, row, bad in rows:
      by[r['stationName']].append((r, row, bad))
    for st, cand in sorted(by.items()):
      if opts['closest'] is not None:
        d = [abs(_ns(np.datetime64(r[opts['closest']])) - v)
             for r, _, _ in cand]
        cand = [c for c, x in zip(cand, d) if x == min(d)]
      choice.append({None if (opts['dropna'] and bad) else row
                     for _, row, bad in cand})
  return sure, choice


def _rows(ds, names, coord_cols, rename, has_lead):
  cols = {c: ds[rename.get(c, c)].values for c in list(coord_cols) + names}
  n = len(ds['index'])
  vt = ds['valid_time'].values.astype(NS).astype('int64')
  it = lt = [None] * n
  if has_lead:
    it = [int(x) for x in ds['init_time'].values.astype(NS).astype('int64')]
    lt = [int(x) for x in ds['lead_time'].values.astype(
        'timedelta64[ns]').astype('int64')]
  out = []
  for k in range(n):
    vals = []
    for c in list(coord_cols) + names:
      x = cols[c][k]
      x = x if isinstance(x, str) else float(x)
      vals.append(_value(x))
    out.append((it[k], lt[k], int(vt[k])) + tuple(vals))
  return out


def _compare(got, sure, choice, what, obs):
  cnt = collections.Counter(got)
  if not choice:
    if cnt != sure:
      extra, missing = cnt - sure, sure - cnt
      key = 'duplicated' if any(r in sure for r in extra) else (
          'unexpected' if extra else 'missing')
      raise Violation(
          f'{what}: {sum(extra.values())} unexpected rows '
          f'{list(extra.items())[:2]}, {sum(missing.values())} missing rows '
          f'{list(missing.items())[:2]}', key)
  else:
    left = cnt
    for alt in choice:
      hit = [r for r in alt if r is not None and left[r] > 0]
      if hit:
        left[hit[0]] -= 1
        obs.ev('groups_deduplicated')
        continue
      check(None in alt, f'{what}: no row for {sorted(map(str, alt))[:3]}',
            'missing')
    left = +left
    check(not left, f'{what}: unexpected rows {list(left.items())[:2]}',
          'duplicate_kept')
  obs.ev('rows', len(got))


def _options(rng, mode):
  tol = None
  if mode == 'tolerance':
    a = int(rng.choice([-60, -30, -15, 0, 5]))
    b = a + int(rng.choice([10, 30, 60, 90]))
    tol = (a * M, b * M)
  sym = tol is None and mode == 'tolerance'
  dedupe = mode != 'interval' and rng.random() < .5
  return dict(
      mode=mode, tol=tol, sym=sym, closed=bool(rng.random() < .5),
      time_dim=str(rng.choice(['timeObs', 'timeObs', 'timeNominal'])),
      dedupe=bool(dedupe),
      closest=(str(rng.choice(['timeObs', 'timeNominal']))
               if dedupe and rng.random() < .8 else None),
      dropna=bool(rng.random() < .5), split=bool(rng.random() < .5))


def _check_chunk(chunk, groups, opts, names, coord_cols, rename, has_lead,
                 what, obs):
  if opts['split']:
    check(isinstance(chunk, dict), f'{what}: not split into variables',
          'split')
    check(set(chunk) == {rename.get(c, c) for c in names},
          f'{what}: variables {list(chunk)}', 'variables')
    for c in names:
      sure, choice = _expected_rows(groups, opts, [c], coord_cols)
      ds = chunk[rename.get(c, c)]
      ds = ds.to_dataset(name=rename.get(c, c))
      check(len(np.unique(ds.index)) == len(ds.index), 'repeated index labels',
            'index')
      _compare(_rows(ds, [c], coord_cols, rename, has_lead), sure, choice,
               f'{what}: {c}', obs)
  else:
    check(set(chunk.data_vars) == {rename.get(c, c) for c in names},
          f'{what}: variables {list(chunk)}', 'variables')
    sure, choice = _expected_rows(groups, opts, names, coord_cols)
    check(len(np.unique(chunk.index)) == len(chunk.index),
          'repeated index labels', 'index')
    _compare(_rows(chunk, names, coord_cols, rename, has_lead), sure, choice,
             what, obs)


def _mode(rng):
  return str(rng.choice(['exact', 'exact', 'tolerance', 'tolerance',
                         'interval', 'nolead']))


def _kwargs(rng, opts):
  kw = dict(time_dim=opts['time_dim'], split_variables=opts['split'],
            dropna=opts['dropna'], include_slice_end_time=opts['closed'])
  if opts['tol'] is not None:
    a, b = opts['tol']
    kw['tolerance'] = b if a == -b else (a, b)
  if opts['dedupe']:
    kw.update(remove_duplicates=True,
              pick_closest_duplicate_by=opts['closest'])
  if opts['time_dim'] == 'timeNominal' and rng.random() < .5:
    kw['file_tolerance'] = np.timedelta64(0, 'h')
  elif rng.random() < .2:
    kw['file_tolerance'] = np.timedelta64(int(rng.integers(60, 130)), 'm')
  return kw


def generic(rng, obs):
  """Any columns, renames, coordinate columns, preprocessing."""
  mode = _mode(rng)
  opts = _options(rng, mode)
  part = str(rng.choice(['hour', 'day', 'month']))
  hours = int(rng.integers(4, 20))
  start, df = records(rng, hours, True)
  init, lead = _request(rng, start, hours, mode)
  n_empty = write(df, obs.tmp, part, start - 12 * H, start + (hours + 24) * H)
  names = gen.shuffled(rng, ['temperature', 'windSpeed', 'uid'])[
      :int(rng.integers(1, 4))]
  coord_cols = gen.shuffled(rng, ['stationName', 'latitude', 'elevation'])[
      :int(rng.integers(0, 4))]
  if opts['dedupe'] and 'stationName' not in coord_cols:
    coord_cols.append('stationName')    # tells which duplicate was kept
  rename, kw = {}, _kwargs(rng, opts)
  if rng.random() < .5:
    rename = {c: f'r_{c}' for c in names + coord_cols if rng.random() < .6}
    kw['rename_variables'] = dict(rename, unrelated='x')
  pre = rng.random() < .3
  if pre:
    # Keeps a subset of the records, as a user's preprocessing may.
    kw['preprocessing_fn'] = lambda d: d[d['uid'] % 3 != 0].copy()
    df = df[df['uid'] % 3 != 0]
  if opts['dedupe']:
    kw['observation_dim'] = 'stationName'
  variables = [rename.get(c, c) for c in names]
  variables = tuple(variables) if rng.random() < .2 else variables
  ldr = S.SparseObservationsFromParquet(
      path=obs.tmp, partitioned_by=part, variables=variables,
      coordinate_variables=[rename.get(c, c) for c in coord_cols], **kw)
  what = f'{part} {mode} {opts} init={init} lead={lead}'
  groups = _groups(df, init, lead, opts)
  chunk = ldr.load_chunk(init, lead)
  _check_chunk(chunk, groups, opts, names, coord_cols, rename,
               lead is not None, what, obs)
  # The same observations, one forecast at a time.
  if len(init) > 1 and not opts['dedupe']:
    for i in init:
      one = ldr.load_chunk(np.array([i]), lead)
      _check_chunk(one, _groups(df, [i], lead, opts), opts, names, coord_cols,
                   rename, lead is not None, 'one at a time ' + what, obs)
      obs.ev('single_chunks')
  obs.ev(f'mode_{mode}')
  obs.ev(f'part_{part}')
  obs.ev('empty_files', n_empty)
  obs.ev('matched', sum(len(g[3]) for g in groups))
  obs.ev('unmatched_groups', sum(len(g[3]) == 0 for g in groups))
  obs.mark('generic', mode, part, opts, len(names), len(df), pre)


BAD = ('Z', 'B', 'X', 'Q', 'k')
RENAME = {'temperature': '2m_temperature', 'windSpeed': '10m_wind_speed',
          'timeObs': 'timeObs'}


def metar(rng, obs):
  """Quality flags, longitudes and fill values of the METAR archive."""
  mode = _mode(rng)
  opts = _options(rng, mode)
  part = str(rng.choice(['hour', 'day', 'month']))
  hours = int(rng.integers(4, 16))
  start, df = records(rng, hours, True)
  init, lead = _request(rng, start, hours, mode)
  write(df, obs.tmp, part, start - 12 * H, start + (hours + 24) * H)
  names = gen.shuffled(rng, ['temperature', 'windSpeed'])[
      :int(rng.integers(1, 3))]
  kw = _kwargs(rng, opts)
  if part == 'month' and rng.random() < .5:
    pass                        # the default
  else:
    kw['partitioned_by'] = part
  mask = opts['split'] and not opts['dropna'] and rng.random() < .5
  if mask:
    kw['add_nan_mask'] = True
  user = rng.random() < .3
  if user:
    kw['preprocessing_fn'] = lambda d: d[d['uid'] % 4 != 0].copy()
    df = df[df['uid'] % 4 != 0]
  rename = {c: RENAME[c] for c in names}
  ldr = S.METARFromParquet(path=obs.tmp, variables=[rename[c] for c in names],
                           **kw)
  df = df.copy()
  bad = 0
  for c in names:
    flagged = df[c + 'DD'].isin(BAD)
    bad += int((flagged & df[c].notna()).sum())
    df.loc[flagged, c] = np.nan
  df['longitude'] = [x + 360 if x < 0 else x for x in df['longitude']]
  df['elevation'] = [x if x < 9999 else np.nan for x in df['elevation']]
  groups = _groups(df, init, lead, opts)
  chunk = ldr.load_chunk(init, lead)
  cols = ['latitude', 'longitude', 'elevation', 'stationName']
  _check_chunk(chunk, groups, opts, names, cols, rename, lead is not None,
               f'METAR {part} {mode} {opts} init={init} lead={lead}', obs)
  if mask:
    for v, da in chunk.items():
      check(np.array_equal(da.mask.values, ~np.isnan(da.values)), 'mask',
            'mask')
      obs.ev('masked', int((~da.mask).sum()))
  obs.ev('flagged', bad)
  obs.ev(f'mode_{mode}')
  obs.mark('metar', mode, part, opts, names)


def intervals_tile(rng, obs):
  """Consecutive half-open intervals partition the observations."""
  part = str(rng.choice(['hour', 'day', 'month']))
  hours = int(rng.integers(6, 20))
  start, df = records(rng, hours, True)
  write(df, obs.tmp, part, start - 12 * H, start + (hours + 24) * H)
  ldr = S.SparseObservationsFromParquet(
      path=obs.tmp, partitioned_by=part, variables=['uid'],
      time_dim='timeObs')
  cuts = np.unique(np.concatenate([[0, hours * 60], rng.integers(
      0, hours * 60, 4), 60 * rng.integers(0, hours, 3)]))
  init = np.array([start]).astype(NS)
  seen = collections.Counter()
  for a, b in zip(cuts[:-1], cuts[1:]):
    c = ldr.load_chunk(init, slice(np.timedelta64(int(a), 'm').astype(
        'timedelta64[ns]'), np.timedelta64(int(b), 'm').astype(
            'timedelta64[ns]')))
    seen.update(float(x) for x in c['uid'].values)
  t = df['timeObs'].values
  lo, hi = start.astype(NS), (start + hours * H).astype(NS)
  want = collections.Counter(
      float(x) for x in df['uid'].values[(t >= lo) & (t < hi)])
  check(seen == want, f'{part}: intervals at minutes {cuts}: '
        f'{list((seen - want).items())[:3]} repeated, '
        f'{list((want - seen).items())[:3]} lost', 'tiling')
  obs.ev('tiled', len(want))
  obs.mark('tile', part, cuts.tolist())


def refused(rng, obs):
  """Ambiguous or impossible requests are errors."""
  start, df = records(rng, 6, True)
  write(df, obs.tmp, 'day', start - 12 * H, start + 24 * H)
  init = np.array([start]).astype(NS)
  sl = slice(np.timedelta64(0, 'ns'), np.timedelta64(3600 * 10**9, 'ns'))
  mk = lambda **kw: S.SparseObservationsFromParquet(**dict(dict(
      path=obs.tmp, partitioned_by='day', variables=['uid'],
      time_dim='timeObs'), **kw))
  expect_raises(lambda: mk(partitioned_by='year'), 'unknown partition',
                'accepted', ValueError)
  expect_raises(lambda: mk(tolerance=(H, H)), 'empty tolerance', 'accepted',
                ValueError)
  expect_raises(lambda: mk(tolerance=(2 * H, H)), 'inverted tolerance',
                'accepted', ValueError)
  expect_raises(lambda: mk(tolerance=(H, 2 * H, 3 * H)), 'three tolerances',
                'accepted', ValueError)
  expect_raises(lambda: mk(remove_duplicates=True), 'no station column',
                'accepted', ValueError)
  expect_raises(lambda: mk(tolerance=H).load_chunk(init, sl),
                'tolerance with an interval', 'accepted')
  expect_raises(lambda: mk(remove_duplicates=True, observation_dim=
                           'stationName').load_chunk(init, sl),
                'duplicate removal with an interval', 'accepted')
  expect_raises(lambda: mk(variables=['nope']).load_chunk(init, None),
                'unknown variable', 'accepted', KeyError)
  far = init + np.timedelta64(90, 'D')
  expect_raises(lambda: mk().load_chunk(far, None), 'no file for the time',
                'accepted', FileNotFoundError)
  obs.ev('refused', 9)
  obs.mark('refused')


SCENARIOS = {
    'generic': (generic, 160, 4000),
    'metar': (metar, 80, 2000),
    'intervals_tile': (intervals_tile, 20, 400),
    'refused': (refused, 4, 40),
}
MIN = dict(rows=1500, matched=700, groups_deduplicated=300, single_chunks=60,
           unmatched_groups=20, flagged=200, masked=20, tiled=200,
           mode_exact=30, mode_tolerance=30, mode_interval=15, mode_nolead=15,
           part_hour=20, part_day=20, part_month=20, empty_files=100,
           refused=30)
