"""C01: time chunking is an exact partition with truthful offsets."""

import itertools

import numpy as np
from wbx.core import check, expect_raises
from weatherbenchX import time_chunks

RULE = ('random init/lead time sets (regular, irregular, unsorted, several '
        'datetime units, interval lead times) x chunk sizes {None,0,1..n+2}; '
        'non-trivial = more than one chunk; fingerprint = (sizes, chunk sizes, '
        'kind)')
ASSUMPTIONS = ['init and lead times passed to one evaluation are distinct, so '
               'that a pair identifies a position']


def _times(rng, n, base, unit):
  if rng.random() < 0.5:
    step = int(rng.integers(1, 13))
    vals = np.arange(n) * step
  else:
    vals = rng.choice(5000, size=n, replace=False)
    if rng.random() < 0.7:
      vals = np.sort(vals)
  if base is None:
    return vals.astype(f'timedelta64[{unit}]')
  return np.datetime64(base, unit) + vals.astype(f'timedelta64[{unit}]')


def _size(rng, n):
  r = rng.random()
  if r < 0.15:
    return None
  if r < 0.25:
    return 0
  return int(rng.integers(1, n + 3))


def _key(chunk):
  init, lead = chunk
  l = (('slice', str(lead.start), str(lead.stop), lead.step)
       if isinstance(lead, slice) else tuple(lead.astype('int64').tolist()))
  return tuple(np.asarray(init).astype('datetime64[ns]').astype(
      'int64').tolist()), l


def partition(rng, obs):
  n_i = int(rng.integers(1, 26))
  n_l = int(rng.integers(1, 16))
  unit = str(rng.choice(['h', 'm', 's', 'ms', 'ns', 'D']))
  base = rng.choice(['1979-12-31', '2020-02-28', '2024-02-29T23'])
  init = _times(rng, n_i, base, unit)
  interval = rng.random() < 0.25
  if interval:
    a, b = sorted(rng.integers(0, 100, size=2).tolist())
    lead = slice(np.timedelta64(a, 'h'), np.timedelta64(b, 'h'))
    cl = [None, 0][int(rng.integers(2))]
    n_l = 1
  else:
    lead = _times(rng, n_l, None, unit)
    cl = _size(rng, n_l)
  ci = _size(rng, n_i)
  init_before = init.copy()
  tc = time_chunks.TimeChunks(init, lead, ci, cl)
  want_ci = ci if ci else n_i
  want_cl = cl if cl else n_l
  init_ns = init.astype('datetime64[ns]')
  lead_ns = None if interval else lead.astype('timedelta64[ns]')

  # Expected chunk list, built independently.
  want = []
  for i0 in range(0, n_i, want_ci):
    for l0 in range(0, n_l, want_cl):
      ic = init_ns[i0:i0 + want_ci]
      lc = lead if interval else lead_ns[l0:l0 + want_cl]
      want.append((i0, l0, (ic, lc)))
  want_keys = [_key(c) for _, _, c in want]

  got = list(tc)
  check([_key(c) for c in got] == want_keys,
        lambda: f'iteration yields {[_key(c) for c in got][:4]}... instead of '
        f'{want_keys[:4]}... n_init={n_i} n_lead={n_l} sizes={ci},{cl}',
        'iter')
  check(len(tc) == len(want), f'len {len(tc)} != {len(want)}', 'len')
  check(_key((tc.init_times, tc.lead_times)) == _key(
      (init_ns, lead if interval else lead_ns)), 'time properties', 'props')
  # Interleaved iterators must be independent (histories of use).
  it1, it2 = iter(tc), iter(tc)
  seq1, seq2 = [], []
  while len(seq1) < len(want) or len(seq2) < len(want):
    if len(seq2) >= len(want) or (len(seq1) < len(want) and rng.random() < .5):
      seq1.append(_key(next(it1)))
    else:
      seq2.append(_key(next(it2)))
  check(seq1 == want_keys and seq2 == want_keys, 'interleaved iteration',
        'reiter')
  for i in rng.permutation(len(want))[:40]:
    check(_key(tc[int(i)]) == want_keys[i], f'tc[{i}] differs from the {i}-th '
          'iterated chunk', 'getitem')
  for bad in (-1, len(want), len(want) + 7):
    expect_raises(lambda b=bad: tc[b], f'tc[{bad}] of {len(want)}', 'index',
                  IndexError)
  offs = list(tc.iter_with_chunk_offsets())
  check(len(offs) == len(want), 'offset iteration length', 'offsets')
  seen = set()
  for (off, chunk), (i0, l0, _) in zip(offs, want):
    ic, lc = chunk
    check(off.init_time == i0 and (off.lead_time or 0) == l0,
          f'chunk offset {off} but the chunk starts at init {i0} lead {l0} '
          f'(n={n_i}x{n_l} sizes {ci},{cl})', 'offsets')
    check(np.array_equal(init_ns[off.init_time:off.init_time + len(ic)], ic),
          'init offset does not locate the chunk', 'offsets')
    if not interval:
      check(np.array_equal(lead_ns[off.lead_time:off.lead_time + len(lc)], lc),
            'lead offset does not locate the chunk', 'offsets')
      for p in itertools.product(ic.astype('int64').tolist(),
                                 lc.astype('int64').tolist()):
        check(p not in seen, f'pair {p} covered twice', 'dup')
        seen.add(p)
    else:
      check(isinstance(lc, slice) and lc.start == lead.start
            and lc.stop == lead.stop, 'interval changed', 'slice')
      for p in ic.astype('int64').tolist():
        check(p not in seen, f'init {p} covered twice', 'dup')
        seen.add(p)
  check(len(seen) == (n_i if interval else n_i * n_l),
        f'covered {len(seen)} pairs of {n_i}x{n_l}', 'lost')
  check(np.array_equal(init, init_before), 'caller array modified', 'mutated')
  obs.ev('chunks_checked', len(want))
  obs.ev('pairs_covered', len(seen))
  if interval:
    obs.ev('interval_lead_times')
  if len(want) > 1:
    obs.mark(n_i, n_l, ci, cl, interval)
    obs.sample(n_init=n_i, n_lead=n_l, sizes=[ci, cl], chunks=len(want),
               interval=interval)


def rejects(rng, obs):
  init = _times(rng, int(rng.integers(1, 9)), '2020-01-01', 'h')
  lead = _times(rng, int(rng.integers(1, 9)), None, 'h')
  h = lambda x: np.timedelta64(x, 'h')
  neg = -int(rng.integers(1, 9))
  T = time_chunks.TimeChunks
  k = int(rng.integers(1, 5))
  for what, f in {
      'negative init chunk': lambda: T(init, lead, neg, None),
      'negative lead chunk': lambda: T(init, lead, None, neg),
      'slice without start': lambda: T(init, slice(None, h(6))),
      'slice without stop': lambda: T(init, slice(h(0), None)),
      'slice with step': lambda: T(init, slice(h(0), h(12), h(6))),
      'slice with chunk size': lambda: T(init, slice(h(0), h(12)), None, k),
      'lead times of the wrong kind': lambda: T(init, 'x'),
  }.items():
    expect_raises(f, what, 'reject:' + what.replace(' ', '_'),
                  (ValueError, TypeError))
    obs.ev('rejections_seen')


SCENARIOS = {'partition': (partition, 1500, 40000), 'rejects': (rejects, 40, 400)}
MIN = {'chunks_checked': (5000, 100000), 'rejections_seen': 100,
       'interval_lead_times': 50}
