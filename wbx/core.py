"""Core of the runtime-monitoring framework.

A *property module* declares scenarios: functions `fn(rng, obs)` which drive the
real code with generated workloads while a monitor (an oracle that is
independent of the code under test) watches what comes out.  A monitor reports
a breach by raising Violation; everything it saw is counted through `obs`, so
that the verdict is three-valued: held (with minimum observed counts), violated,
or inconclusive (the monitor was never really reached).
"""

import collections
import hashlib
import json
import os

import numpy as np

REPO = os.environ.get('WBX_REPO', '/repo')


class Violation(Exception):
  """The monitored property was broken on this execution."""

  def __init__(self, msg, key='violation', detail=None):
    super().__init__(msg)
    self.msg = str(msg)
    self.key = key
    self.detail = detail


class Obs:
  """What the monitors saw in one case / one run."""

  def __init__(self):
    self.events = collections.Counter()
    self.distinct = set()
    self.samples = []
    self.nontrivial = set()

  def ev(self, name, n=1):
    self.events[name] += int(n)

  def mark(self, *key):
    """Marks this case as non-trivial with a fingerprint of what was seen."""
    self.nontrivial.add(fingerprint(key))

  def sample(self, **kw):
    if len(self.samples) < 2:
      self.samples.append(jsonable(kw))


def fingerprint(x):
  h = hashlib.blake2b(digest_size=10)
  h.update(repr(jsonable(x)).encode())
  return h.hexdigest()


def jsonable(x, depth=0):
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  if isinstance(x, np.generic):
    return jsonable(x.item()) if not isinstance(
        x, (np.datetime64, np.timedelta64)) else str(x)
  if isinstance(x, np.ndarray):
    if x.size > 64:
      return {'shape': list(x.shape), 'dtype': str(x.dtype),
              'blake': hashlib.blake2b(
                  np.ascontiguousarray(x).tobytes(), digest_size=6).hexdigest()}
    return [jsonable(v, depth + 1) for v in x.tolist()] if x.dtype.kind not in 'mM' else [
        str(v) for v in x.ravel()]
  if isinstance(x, dict):
    return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [jsonable(v, depth + 1) for v in x]
  return str(x)[:300]


def check(cond, msg, key='violation', detail=None):
  if not cond:
    raise Violation(msg() if callable(msg) else msg, key, detail)


def max_err(a, b):
  a = np.asarray(a, dtype=float)
  b = np.asarray(b, dtype=float)
  with np.errstate(all='ignore'):
    d = np.abs(a - b)
  both = (np.isnan(a) & np.isnan(b)) | (a == b)
  d = np.where(both, 0, d)
  return np.nanmax(d) if d.size and not np.isnan(d).all() else (
      0.0 if not d.size else float('nan'))


def close(a, b, rtol=1e-9, atol=1e-12):
  """Elementwise equal within tolerance; NaN only equals NaN, inf only inf."""
  a = np.asarray(a)
  b = np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype.kind in 'mMOUS' or b.dtype.kind in 'mMOUS':
    if a.dtype.kind in 'mM':
      return bool(np.all((a == b) | (np.isnat(a) & np.isnat(b))))
    return bool(np.all(a == b))
  a = a.astype(float)
  b = b.astype(float)
  with np.errstate(all='ignore'):
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    inf = np.isinf(a) | np.isinf(b)
    ok = np.where(inf, a == b, ok)
  return bool(np.all(ok))


def expect_close(got, want, what, key='mismatch', rtol=1e-9, atol=1e-12,
                 detail=None):
  got_a = np.asarray(got)
  want_a = np.asarray(want)
  if not close(got_a, want_a, rtol, atol):
    if got_a.shape != want_a.shape:
      m = f'{what}: shape {got_a.shape} but expected {want_a.shape}'
    else:
      m = (f'{what}: got {short(got_a)} but expected {short(want_a)} '
           f'(shape {got_a.shape}, max abs err {safe_err(got_a, want_a)})')
    raise Violation(m, key, detail)


def safe_err(a, b):
  try:
    return max_err(a, b)
  except Exception:  # pylint: disable=broad-except
    return 'n/a'


def short(a, n=8):
  a = np.asarray(a)
  flat = a.ravel()
  s = np.array2string(flat[:n], precision=8, separator=',')
  return s + ('...' if flat.size > n else '')


def expect_raises(fn, what, key='accepted', exc=Exception):
  try:
    r = fn()
  except exc as e:
    return e
  raise Violation(f'{what}: expected an error, got {str(r)[:200]}', key)


def load_known(path):
  """known_findings.txt -> {pid: {key: text}}."""
  known = collections.defaultdict(dict)
  if not os.path.exists(path):
    return known
  with open(path) as f:
    for line in f:
      line = line.strip()
      if not line.startswith('known:'):
        continue
      parts = line.split(None, 3)
      pid = parts[1].split('=', 1)[1]
      key = parts[2].split('=', 1)[1]
      known[pid][key] = parts[3] if len(parts) > 3 else ''
  return known


def dump_json(path, obj):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  tmp = f'{path}.{os.getpid()}.tmp'
  with open(tmp, 'w') as f:
    json.dump(obj, f, indent=1, sort_keys=True)
    f.write('\n')
  os.replace(tmp, path)
