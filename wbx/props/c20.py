"""C20: files appear complete and atomically or not at all."""

import ctypes
import json
import os
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time
import uuid

import fsspec
import numpy as np
import xarray as xr
from wbx import gen
from wbx import pipe
from wbx.core import Violation
from wbx.core import check
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import beam_utils
from weatherbenchX import time_chunks
from weatherbenchX.metrics import deterministic

RULE = ('writes of 0 B to 4 MB over absent and existing files, in existing and '
        'missing directories: killed at traced lines, failed at file-system '
        'operations and part way through the data, interleaved line by line '
        'by a seeded scheduler, raced by processes with polling readers, '
        'within whole pipelines; watched by a kernel event log; fingerprint = '
        '(scenario, fault point, outcome) or the interleaving')
ASSUMPTIONS = [
    'the file system provides an atomic rename (documented assumption); an '
    'operating-system error of the rename itself is not injected, since '
    'fsspec falls back to copying then',
    'durability across power loss (fsync) is not part of the property']

# ---------------------------------------------------------------- payloads


def payload(rng, size=None):
  """Self-describing content: any prefix or mixture is recognisable."""
  if size is None:
    size = int(rng.choice([0, 1, 17, 4096, 8192, 8193, 70_000, 300_000,
                           1_500_000, 4_000_000]))
  return rng.integers(0, 256, size, dtype=np.uint8).tobytes()


def read(path):
  try:
    with open(path, 'rb') as f:
      return f.read()
  except FileNotFoundError:
    return None


def describe(x):
  return 'absent' if x is None else f'{len(x)} bytes'


def target(rng, obs):
  """A destination: directory depth, name and previous content."""
  base = obs.tmp
  shm = None
  if rng.random() < 0.3 and os.access('/dev/shm', os.W_OK):
    # On another file system than the temporary directory.
    shm = tempfile.mkdtemp(prefix='wbx_c20_', dir='/dev/shm')
    base = shm
  depth = int(rng.integers(0, 3))
  d = os.path.join(base, *[f'd{i}' for i in range(depth)])
  if rng.random() < 0.6:
    os.makedirs(d, exist_ok=True)
  name = str(rng.choice(['out.nc', 'r', 'ä b.nc', 'tmp.nc', '.hidden',
                         'a' * 120 + '.nc', 'x.tar.gz']))
  path = os.path.join(d, name)
  old = None
  if os.path.isdir(d) and rng.random() < 0.7:
    old = payload(rng)
    with open(path, 'wb') as f:
      f.write(old)
  others = {}
  if os.path.isdir(d):
    for n in ('other.nc', 'tmp.other', 'out.nc.bak'):
      if n != name and rng.random() < 0.5:
        others[n] = payload(rng, 50)
        with open(os.path.join(d, n), 'wb') as f:
          f.write(others[n])
  return path, old, others, shm


def check_others(path, others, what):
  for n, c in others.items():
    check(read(os.path.join(os.path.dirname(path), n)) == c,
          f'{what}: unrelated file {n} changed', 'unrelated')


def leftovers(path, others):
  d = os.path.dirname(path)
  if not os.path.isdir(d):
    return []
  return sorted(set(os.listdir(d)) - set(others) - {os.path.basename(path)})


def fork(fn):
  """Runs fn() in a forked child; returns (exit status, its report)."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      signal.alarm(60)
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      try:
        out = fn()
      except BaseException as e:  # pylint: disable=broad-except
        out = {'raised': type(e).__name__, 'text': str(e)[:200]}
      os.write(w, json.dumps(out).encode())
    finally:
      os._exit(0)
  os.close(w)
  buf = b''
  while True:
    b = os.read(r, 65536)
    if not b:
      break
    buf += b
  os.close(r)
  _, status = os.waitpid(pid, 0)
  return status, (json.loads(buf) if buf else None)


# ---------------------------------------------------------------- crash points


def _line_tracer(hook, skip=()):
  """A trace function calling hook() at every line executed."""
  def local(frame, event, arg):
    if frame.f_code.co_filename.startswith('<frozen importlib'):
      return None  # holds import locks
    if skip:
      f = frame
      for _ in range(12):
        if f is None:
          break
        if f.f_code in skip:
          return None
        f = f.f_back
    if event == 'line':
      hook()
    return local
  return local


def _crash_child(path, data, at):
  """Writes, dying without any cleanup at the at-th line executed."""
  n = [0]

  def hook():
    n[0] += 1
    if n[0] == at:
      os._exit(42)

  def go():
    sys.settrace(_line_tracer(hook))
    beam_utils.atomic_write(path, data)
    sys.settrace(None)
    return {'lines': n[0]}
  return go


def crash(rng, obs):
  """Killed at every traced line: old or new content, nothing between."""
  path, old, others, shm = target(rng, obs)
  try:
    data = payload(rng)
    while data == old:
      data = payload(rng)
    # A dry run on a twin path of the same length counts the lines.
    twin = path[:-1] + ('1' if path[-1] != '1' else '2')
    _, rep = fork(_crash_child(twin, data, -1))
    check('lines' in rep, f'write failed: {rep}', 'write')
    check(read(twin) == data, 'dry run wrote something else', 'content')
    os.unlink(twin)
    total = rep['lines']
    seen = []
    for at in sorted(set(
        rng.integers(1, total + 1, 10).tolist()
        + rng.integers(max(1, total - 30), total + 1, 8).tolist())):
      if old is None:
        if os.path.exists(path):
          os.unlink(path)
      else:
        with open(path, 'wb') as f:
          f.write(old)
      status, _ = fork(_crash_child(path, data, at))
      if os.waitstatus_to_exitcode(status) not in (0, 42):
        raise RuntimeError(f'child died with {status}')
      now = read(path)
      check(now == old or now == data,
            lambda: f'killed at line {at} of {total}: destination has '
            f'{describe(now)}, old {describe(old)}, new {describe(data)}',
            'partial')
      if os.waitstatus_to_exitcode(status) == 42:
        obs.ev('crash_points')
        obs.ev('crash_kept_old' if now == old else 'crash_has_new')
        seen.append((at, now == old))
        obs.mark('crash', at, now == old, old is None, len(data))
      check_others(path, others, f'crash at {at}')
    # What a crash left behind does not disturb the next write.
    beam_utils.atomic_write(path, data)
    check(read(path) == data, 'write after crashes', 'content')
    check_others(path, others, 'after crashes')
    obs.ev('recoveries')
    obs.sample(old=describe(old), new=describe(data), lines=total, seen=seen[:8])
  finally:
    if shm:
      shutil.rmtree(shm, ignore_errors=True)


# ---------------------------------------------------------------- faults

_AUDIT = {'hook': None}


def _audit(event, args):
  h = _AUDIT['hook']
  if h is not None:
    h(event, args)


_INSTALLED = []


def _install_audit():
  if os.getpid() not in _INSTALLED:
    _INSTALLED.append(os.getpid())
    sys.addaudithook(_audit)


FS_EVENTS = {'open', 'os.rename', 'os.remove', 'os.mkdir', 'os.link',
             'os.symlink', 'os.truncate', 'shutil.move', 'shutil.copyfile',
             'os.chmod'}


def _paths(args):
  return [os.fsdecode(a) for a in args if isinstance(a, (str, bytes))]


def _fault_child(path, data, root, at, action):
  """Writes, with a fault at the at-th file-system operation below root."""
  def go():
    log = []
    n = [0]

    def hook(event, args):
      if event not in FS_EVENTS:
        return
      if not any(p.startswith(root) for p in _paths(args)):
        return
      n[0] += 1
      if n[0] == at:
        log.append(['FAULT', event])
        if action == 'exit':
          os._exit(42)
        if event in ('os.rename', 'shutil.move', 'shutil.copyfile'):
          raise KeyboardInterrupt
        raise OSError(5, 'injected')
      log.append([event] + _paths(args)[:2])

    _install_audit()
    _AUDIT['hook'] = hook
    try:
      beam_utils.atomic_write(path, data)
      raised = None
    except BaseException as e:  # pylint: disable=broad-except
      raised = type(e).__name__
    _AUDIT['hook'] = None
    return {'n': n[0], 'raised': raised, 'log': log}
  return go


def faults(rng, obs):
  """Every file-system operation failing once, and every full disk."""
  path, old, others, shm = target(rng, obs)
  root = shm or obs.tmp
  fresh_dir = not os.path.isdir(os.path.dirname(path))

  def reset():
    if old is None:
      if os.path.exists(path):
        os.unlink(path)
      for n in leftovers(path, others):
        os.unlink(os.path.join(os.path.dirname(path), n))
    else:
      with open(path, 'wb') as f:
        f.write(old)
    if fresh_dir and os.path.dirname(path) != root:
      shutil.rmtree(os.path.join(root, 'd0'), ignore_errors=True)

  try:
    data = payload(rng)
    while data == old:
      data = payload(rng)
    at = 0
    while True:
      at += 1
      reset()
      status, rep = fork(_fault_child(path, data, root, at, 'raise'))
      check(status == 0 and rep is not None, f'child died {status}', 'died')
      now = read(path)
      if rep['n'] < at:
        check(rep['raised'] is None, f'raised without a fault: {rep}', 'write')
        check(now == data, f'wrote {describe(now)}', 'content')
        check(not leftovers(path, others),
              f'extra files {leftovers(path, others)}', 'leftover')
        obs.ev('fault_free')
        break
      what = f'fault at operation {at} {rep["log"][-1]}'
      event = [e for e in rep['log'] if e[0] == 'FAULT'][0][1]
      check_others(path, others, what)
      obs.ev('op_faults')
      obs.mark('fault', at, event, rep['raised'], old is None)
      if rep['raised'] is None:
        check(now == data, f'{what}: returned normally but the destination '
              f'has {describe(now)}', 'swallowed')
      else:
        renamed = any(e[0] == 'os.rename' and len(e) > 2 and e[2] == path
                      for e in rep['log'])
        check(now == old or (renamed and now == data),
              f'{what}: raised but the destination has {describe(now)}, old '
              f'{describe(old)}', 'partial')
        if event != 'os.remove':
          check(not leftovers(path, others),
                f'{what}: extra files {leftovers(path, others)}', 'leftover')
      if at > 60:
        raise RuntimeError('too many operations')
    # The disk fills up after `limit` bytes of the data.
    for _ in range(4):
      if not data:
        break
      limit = int(rng.integers(0, len(data)))
      reset()

      def full():
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        try:
          beam_utils.atomic_write(path, data)
          return {'raised': None}
        except OSError as e:
          return {'raised': type(e).__name__}

      status, rep = fork(full)
      now = read(path)
      what = f'file size limit {limit} of {len(data)}'
      check(rep is not None and rep['raised'] is not None,
            f'{what}: no error', 'swallowed')
      check(now == old, f'{what}: destination has {describe(now)}, old '
            f'{describe(old)}', 'partial')
      check(not leftovers(path, others),
            f'{what}: extra files {leftovers(path, others)}', 'leftover')
      check_others(path, others, what)
      obs.ev('full_disk')
      obs.mark('full', limit * 8 // len(data), old is None)
  finally:
    if shm:
      shutil.rmtree(shm, ignore_errors=True)


# ---------------------------------------------------------------- schedules


# Runs under a lock, so threads are not stopped inside.
LOCKED = (type(fsspec.AbstractFileSystem).__call__.__code__,)


class Sched:
  """Runs functions in threads, one line at a time, in a seeded order."""

  def __init__(self, rng, fns, observer):
    self.rng = random.Random(int(rng.integers(2**31)))
    self.fns = fns
    self.observer = observer
    self.trace = []
    self.overlap = False

  def run(self):
    n = len(self.fns)
    go = [threading.Semaphore(0) for _ in range(n)]
    # Set while a thread is waiting for its turn, or done. A thread that is
    # neither is running or waits for a lock which a parked thread holds.
    parked = [threading.Event() for _ in range(n)]
    done = [False] * n
    errors = [None] * n

    def body(i):
      def hook():
        parked[i].set()
        go[i].acquire()
      hook()
      sys.settrace(_line_tracer(hook, LOCKED))
      try:
        self.fns[i]()
      except BaseException as e:  # pylint: disable=broad-except
        errors[i] = e
      finally:
        sys.settrace(None)
        done[i] = True
        parked[i].set()

    threads = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(n)]
    for t in threads:
      t.start()
    steps = 0
    cur = 0
    stalled = time.time() + 60
    while not all(done):
      ready = [i for i in range(n) if parked[i].is_set() and not done[i]]
      if not ready:
        if time.time() > stalled:
          raise RuntimeError('scheduler stalled')
        time.sleep(0.001)
        continue
      stalled = time.time() + 60
      # Runs of random length per thread: both coarse and fine interleaving.
      if cur not in ready or self.rng.random() < self.p_switch:
        cur = self.rng.choice(ready)
      self.trace.append(cur)
      parked[cur].clear()
      go[cur].release()
      if not parked[cur].wait(0.5):
        self.overlap = True  # waits for a lock, or the machine is slow
      steps += 1
      self.observer(steps, [d and p.is_set() for d, p in zip(done, parked)])
    for t in threads:
      t.join()
    return errors, steps


def schedules(rng, obs):
  """Writers interleaved line by line: an atomic register."""
  path, old, others, shm = target(rng, obs)
  try:
    os.makedirs(os.path.dirname(path), exist_ok=True)
    n = int(rng.integers(2, 4))
    datas = []
    while len(datas) < n:
      d = payload(rng, int(rng.choice([0, 5, 9000, 100_000, 400_000])))
      if d not in datas and d != old:
        datas.append(d)
    names = {old: 'old'}
    names.update({d: i for i, d in enumerate(datas)})
    hist = []
    last = [None, None]
    done_at = [None] * n

    def observer(step, done):
      for i in range(n):
        if done[i] and done_at[i] is None:
          done_at[i] = step
      try:
        st = os.stat(path)
        sig = (st.st_ino, st.st_size, st.st_mtime_ns)
      except FileNotFoundError:
        sig = None
      if sig != last[0] or not hist:
        now = read(path)
        last[0] = sig
        check(now in names,
              f'step {step}: destination has {describe(now)} which nobody '
              f'wrote', 'partial')
        if not hist or hist[-1][1] != names[now]:
          hist.append((step, names[now]))

    # Imports inside functions are done before the threads start.
    beam_utils.atomic_write(os.path.join(obs.tmp, 'warm_up'), b'')
    os.unlink(os.path.join(obs.tmp, 'warm_up'))
    s = Sched(rng, [lambda d=d: beam_utils.atomic_write(path, d)
                    for d in datas], observer)
    s.p_switch = float(rng.choice([0.03, 0.2, 0.7]))
    errors, steps = s.run()
    for i, e in enumerate(errors):
      check(e is None, f'writer {i} failed next to another writer: '
            f'{type(e).__name__} {e}', 'interference')
    values = [v for _, v in hist]
    check(len(values) == len(set(values)),
          f'contents came back after being replaced: {hist}', 'order')
    check(values[-1] != 'old', 'no write took effect', 'lost')
    for i in range(n):
      # Once a writer is done the previous content can never be seen again.
      after = [v for st, v in hist if st > done_at[i]]
      check('old' not in after, f'old content after writer {i}: {hist}',
            'order')
      before = [v for st, v in hist if st <= done_at[i]]
      if s.overlap:
        continue  # two changes may have happened between observations
      obs.ev('register_checks')
      check(i in values, f'writer {i} returned but its content never '
            f'appeared: {hist}', 'lost')
      check(i in before, f'writer {i} returned before its content appeared: '
            f'{hist}', 'late')
    check(not leftovers(path, others),
          f'extra files {leftovers(path, others)}', 'leftover')
    check_others(path, others, 'writers')
    obs.ev('interleavings')
    obs.ev('interleaved_steps', steps)
    switches = sum(a != b for a, b in zip(s.trace, s.trace[1:]))
    obs.ev('switches', switches)
    obs.mark('interleaving', tuple(s.trace))
    obs.sample(writers=[len(d) for d in datas], old=describe(old),
               steps=steps, switches=switches, history=hist)
  finally:
    if shm:
      shutil.rmtree(shm, ignore_errors=True)


# ---------------------------------------------------------------- kernel log


class Inotify:
  """The kernel's ordered log of what happened to the entries of a directory."""

  NAMES = {0x2: 'MODIFY', 0x8: 'CLOSE_WRITE', 0x40: 'MOVED_FROM',
           0x80: 'MOVED_TO', 0x100: 'CREATE', 0x200: 'DELETE'}

  def __init__(self, directory):
    libc = ctypes.CDLL(None, use_errno=True)
    self.fd = libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
    if self.fd < 0:
      raise RuntimeError('inotify unavailable')
    if libc.inotify_add_watch(self.fd, os.fsencode(directory), 0x3CA) < 0:
      raise RuntimeError('inotify_add_watch failed')
    self.log = []

  def drain(self):
    while True:
      try:
        b = os.read(self.fd, 1 << 20)
      except BlockingIOError:
        return self.log
      i = 0
      while i < len(b):
        _, mask, cookie, n = struct.unpack_from('iIII', b, i)
        name = os.fsdecode(b[i + 16:i + 16 + n].rstrip(b'\0'))
        i += 16 + n
        if mask & 0x4000:
          raise RuntimeError('inotify queue overflow')
        self.log.append((self.NAMES.get(mask & 0xfff, hex(mask)), cookie, name))

  def close(self):
    os.close(self.fd)


def check_log(log, names, existed):
  """Trace specification: a destination only changes by a complete rename."""
  exists = dict(existed)
  dirty = {}
  moved = {}
  changes = 0
  for k, (ev, cookie, name) in enumerate(log):
    if name in names:
      if ev == 'MODIFY':
        raise Violation(f'{name} was modified in place: event {k} of '
                        f'{log[:30]}', 'in_place')
      if ev in ('DELETE', 'MOVED_FROM'):
        raise Violation(f'{name} was removed: event {k} of {log[:30]}',
                        'removed')
      if ev == 'MOVED_TO':
        check(not moved.get(cookie, False),
              f'{name} was renamed into place before it was complete: event '
              f'{k} of {log[:30]}', 'early')
        exists[name] = True
        changes += 1
      if ev == 'CREATE':
        changes += 1
    else:
      if ev in ('MODIFY', 'CREATE'):
        dirty[name] = True
      elif ev == 'CLOSE_WRITE':
        dirty[name] = False
      elif ev == 'MOVED_FROM':
        moved[cookie] = dirty.get(name, False)
  return changes


def kernel_log(rng, obs):
  """Sequences of writes under the kernel's event log."""
  d = obs.tmp
  if rng.random() < 0.3 and os.access('/dev/shm', os.W_OK):
    d = tempfile.mkdtemp(prefix='wbx_c20_', dir='/dev/shm')
  try:
    names = ['out.nc', 'state.nc'][:int(rng.integers(1, 3))]
    existed = {}
    for n in names:
      if rng.random() < 0.5:
        with open(os.path.join(d, n), 'wb') as f:
          f.write(payload(rng))
        existed[n] = True
    ino = Inotify(d)
    k = int(rng.integers(1, 6))
    final = {}
    for _ in range(k):
      n = names[int(rng.integers(len(names)))]
      data = payload(rng)
      p = os.path.join(d, n)
      if rng.random() < 0.3:
        p = 'file://' + p
      kind = int(rng.integers(3))
      beam_utils.atomic_write(
          p, [data, bytearray(data), memoryview(data)][kind],
          **({'auto_mkdir': bool(rng.integers(2))} if rng.random() < 0.5
             else {}))
      final[n] = data
      # One second read after the event: what was announced is readable.
      check(read(os.path.join(d, n)) == data, f'{n} after write', 'content')
    changes = check_log(ino.drain(), names, existed)
    check(changes >= k, f'{changes} changes logged for {k} writes', 'lost')
    ino.close()
    for n, data in final.items():
      check(read(os.path.join(d, n)) == data, f'{n} at the end', 'content')
    check(set(os.listdir(d)) == set(existed) | set(final),
          f'extra files {os.listdir(d)}', 'leftover')
    obs.ev('logged_writes', k)
    obs.ev('kernel_events', len(ino.log))
    obs.mark('log', tuple(e[0] for e in ino.log))
    obs.sample(log=ino.log[:12])
  finally:
    if d != obs.tmp:
      shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- processes


def processes(rng, obs):
  """Processes writing one file over and over while readers poll it."""
  d = obs.tmp
  shm = None
  if rng.random() < 0.3 and os.access('/dev/shm', os.W_OK):
    shm = d = tempfile.mkdtemp(prefix='wbx_c20_', dir='/dev/shm')
  path = os.path.join(d, 'result.nc')
  try:
    n = int(rng.integers(2, 5))
    sizes = [int(x) for x in rng.choice(
        [10, 5000, 200_000, 1_000_000, 3_000_000], n)]
    datas = [bytes([65 + i]) * 3 + payload(rng, s) for i, s in enumerate(sizes)]
    old = payload(rng, 1000) if rng.random() < 0.5 else None
    if old is not None:
      with open(path, 'wb') as f:
        f.write(old)
    allowed = set(datas) | {old}
    kill = rng.random() < 0.5
    writes = int(rng.integers(3, 9))
    r, w = os.pipe()  # start barrier shared by the writers
    pids = []
    errs = os.path.join(obs.tmp, 'errors')
    state, now = random.getstate(), time.time_ns()
    for i in range(n):
      pid = os.fork()
      if pid == 0:
        try:
          signal.alarm(60)
          signal.signal(signal.SIGALRM, signal.SIG_DFL)
          # Siblings share the state of every random number generator, and may
          # look at the clock at the same moment.
          random.setstate(state)
          uuid._generate_time_safe = None
          time.time_ns = lambda: now
          os.close(w)
          os.read(r, 1)
          for _ in range(writes):
            try:
              beam_utils.atomic_write(path, datas[i])
            except BaseException as e:  # pylint: disable=broad-except
              with open(errs, 'a') as f:
                f.write(f'writer {i}: {type(e).__name__} {e}\n')
        finally:
          os._exit(0)
      pids.append(pid)
    os.close(r)
    os.close(w)
    live = set(pids)
    seen = []
    reads = 0
    t0 = time.time()
    kill_at = t0 + float(rng.uniform(0.001, 0.1))
    while live:
      now = read(path)
      reads += 1
      check(now in allowed, f'a reader saw {describe(now)} which nobody wrote '
            f'(sizes {sizes}, old {describe(old)})', 'partial')
      check(now is not None or not seen or seen[-1] is None,
            'the file disappeared', 'removed')
      if not seen or seen[-1] is not now and seen[-1] != now:
        seen.append(now)
      if kill and time.time() > kill_at:
        kill = False
        victim = pids[int(rng.integers(n))]
        if victim in live:
          os.kill(victim, signal.SIGKILL)
          obs.ev('killed_writers')
      for p in list(live):
        q, _ = os.waitpid(p, os.WNOHANG)
        if q:
          live.discard(p)
      if time.time() - t0 > 100:
        raise RuntimeError('writers hang')
    now = read(path)
    check(now in allowed and (now is not None), f'finally {describe(now)}',
          'partial')
    check(not os.path.exists(errs),
          lambda: f'writers disturbed each other: {read(errs)[:300]}',
          'interference')
    obs.ev('process_races')
    obs.ev('reads', reads)
    obs.ev('distinct_contents_read', len(seen))
    obs.mark('race', n, len(seen), tuple(sizes))
  finally:
    if shm:
      shutil.rmtree(shm, ignore_errors=True)


# ---------------------------------------------------------------- requests


def requests(rng, obs):
  """Directories, URLs and refused requests."""
  d = obs.tmp
  data = payload(rng)
  # Missing directories are created on request only.
  p = os.path.join(d, 'a', 'b', 'c.nc')
  try:
    beam_utils.atomic_write(p, data, auto_mkdir=False)
    raise Violation('wrote to a missing directory without auto_mkdir',
                    'mkdir')
  except OSError:
    obs.ev('refused')
  check(read(p) is None, 'file appeared', 'mkdir')
  beam_utils.atomic_write(p, data)
  check(read(p) == data, 'content in created directory', 'content')
  # The destination is a directory: nothing can be replaced.
  q = os.path.join(d, 'dir')
  os.makedirs(q)
  try:
    beam_utils.atomic_write(q, data)
    raise Violation(f'writing to a directory succeeded; it now contains '
                    f'{os.listdir(q)}', 'directory')
  except OSError:
    obs.ev('refused')
  check(os.listdir(q) == [], f'directory has {os.listdir(q)}', 'directory')
  check(sorted(os.listdir(d)) == ['a', 'dir'], f'extra {os.listdir(d)}',
        'leftover')
  # A parent which is a file.
  try:
    beam_utils.atomic_write(os.path.join(p, 'x.nc'), data)
    raise Violation('wrote below a file', 'mkdir')
  except OSError:
    obs.ev('refused')
  check(read(p) == data, 'file used as a parent changed', 'partial')
  # Other file systems.
  mem = fsspec.filesystem('memory')
  name = f'/c20_{os.getpid()}_{rng.integers(10**9)}/x/out.nc'
  for k in range(2):
    body = payload(rng)
    beam_utils.atomic_write('memory:/' + name, body)
    check(mem.cat_file(name) == body, 'memory file', 'content')
    check([os.path.basename(x) for x in mem.ls(os.path.dirname(name),
                                               detail=False)] == ['out.nc'],
          'extra memory files', 'leftover')
    obs.ev('memory_writes')
  mem.rm('/' + name.split('/')[1], recursive=True)
  # Relative paths.
  cwd = os.getcwd()
  os.chdir(d)
  try:
    beam_utils.atomic_write('rel.nc', data)
    beam_utils.atomic_write('r/el.nc', data)
  finally:
    os.chdir(cwd)
  check(read(os.path.join(d, 'rel.nc')) == data
        and read(os.path.join(d, 'r', 'el.nc')) == data, 'relative', 'content')
  obs.ev('relative')
  # The wrong kind of data leaves everything as it was.
  before = sorted(os.listdir(d))
  try:
    beam_utils.atomic_write(os.path.join(d, 'rel.nc'), 'text')
    raise Violation('text accepted as bytes', 'type')
  except (TypeError, ValueError, AttributeError):
    obs.ev('refused')
  check(read(os.path.join(d, 'rel.nc')) == data, 'after a refused write',
        'partial')
  check(sorted(os.listdir(d)) == before, f'extra {os.listdir(d)}', 'leftover')
  obs.mark('requests', len(data))


# ---------------------------------------------------------------- pipelines


def _pipeline(rng, obs, tag):
  its, lts = pipe.times(rng, int(rng.integers(2, 4)), int(rng.integers(1, 3)))
  shape = (len(its), len(lts), 3)
  mk = lambda: {'t': xr.DataArray(
      rng.normal(size=shape).astype('float32'),
      dims=['init_time', 'lead_time', 'x'],
      coords=dict(init_time=its, lead_time=lts, x=np.arange(3)))}
  p, t = mk(), mk()
  chunks = time_chunks.TimeChunks(its, lts, 1, 1)
  lp = os.path.join(obs.tmp, f'log{tag}')
  metrics = {'mse': deterministic.MSE(), 'bias': deterministic.Bias()}
  agg = aggregation.Aggregator(['init_time', 'x'])

  def build(out, state):
    def f(root):
      beam_pipeline.define_pipeline(
          root, chunks, pipe.RecordingLoader(p, lp, 'p'),
          pipe.RecordingLoader(t, lp, 't'), metrics, agg, out, state)
    return f
  return build


def pipelines(rng, obs):
  """Whole pipelines writing over earlier results, killed at file operations."""
  d = os.path.join(obs.tmp, 'out')
  os.makedirs(d)
  names = ['metrics.nc', 'state.nc']
  paths = [os.path.join(d, n) for n in names]
  builds = [_pipeline(rng, obs, k) for k in range(2)]
  ref = []
  for k, b in enumerate(builds):
    rd = os.path.join(obs.tmp, f'ref{k}')
    os.makedirs(rd)
    rp = [os.path.join(rd, n) for n in names]
    pipe.run(b(*rp))
    ref.append([xr.load_dataset(x) for x in rp])

  def which(i):
    """Index of the complete result in file i; None when absent."""
    if not os.path.exists(paths[i]):
      return None
    try:
      got = xr.load_dataset(paths[i])
    except Exception as e:  # pylint: disable=broad-except
      raise Violation(f'{names[i]} cannot be read: {type(e).__name__} {e}; '
                      f'{describe(read(paths[i]))}', 'partial')
    for k in range(2):
      if got.identical(ref[k][i]):
        return k
    raise Violation(f'{names[i]} is neither result', 'partial')

  # First and overwriting run, logged by the kernel.
  ino = Inotify(d)
  for k in range(2):
    pipe.run(builds[k](*paths))
    for i in range(2):
      check(which(i) == k, f'{names[i]} after run {k}', 'content')
  n = check_log(ino.drain(), names, {})
  check(n >= 4, f'{n} changes logged', 'lost')
  obs.ev('kernel_events', len(ino.log))
  obs.ev('pipelines_logged', 2)
  ino.close()
  check(sorted(os.listdir(d)) == sorted(names), f'extra {os.listdir(d)}',
        'leftover')

  # Killed at each file operation below the output directory.
  def child(at):
    def go():
      m = [0]

      def hook(event, args):
        if event in FS_EVENTS and any(x.startswith(d) for x in _paths(args)):
          m[0] += 1
          if m[0] == at:
            os._exit(42)
      _install_audit()
      _AUDIT['hook'] = hook
      pipe.run(builds[0](*paths))
      _AUDIT['hook'] = None
      return {'n': m[0]}
    return go

  _, rep = fork(child(-1))
  check(rep and 'n' in rep, f'run failed: {rep}', 'write')
  check(which(0) == 0 and which(1) == 0, 'run in child', 'content')
  total = rep['n']
  ats = sorted(set(rng.integers(1, total + 1, 4).tolist()))
  for at in ats:
    pipe.run(builds[1](*paths))
    status, _ = fork(child(at))
    code = os.waitstatus_to_exitcode(status)
    state = [which(i) for i in range(2)]
    check(None not in state, f'killed at operation {at}: {state}', 'removed')
    if code == 42:
      obs.ev('pipeline_crashes')
      obs.mark('pipeline', at, tuple(state))
  # Redundant attempts of the same work at the same time.
  errors = []

  def attempt(k):
    try:
      pipe.run(builds[k](*paths))
    except BaseException as e:  # pylint: disable=broad-except
      errors.append(e)
  threads = [threading.Thread(target=attempt, args=(k % 2,)) for k in range(3)]
  ino = Inotify(d)
  for t in threads:
    t.start()
  reads = 0
  while any(t.is_alive() for t in threads):
    for i in range(2):
      check(which(i) is not None, 'file disappeared', 'removed')
      reads += 1
    time.sleep(0.002)
  for t in threads:
    t.join()
  check(not errors, lambda: f'attempts disturbed each other: {errors[:2]}',
        'interference')
  check(which(0) is not None and which(1) is not None, 'finally', 'partial')
  check_log(ino.drain(), names, dict.fromkeys(names, True))
  obs.ev('kernel_events', len(ino.log))
  ino.close()
  obs.ev('redundant_attempts', 3)
  obs.ev('pipeline_reads', reads)


SCENARIOS = {
    'crash': (crash, 32, 600),
    'faults': (faults, 32, 500),
    'schedules': (schedules, 48, 1500),
    'kernel_log': (kernel_log, 40, 600),
    'processes': (processes, 12, 160),
    'requests': (requests, 8, 60),
    'pipelines': (pipelines, 8, 60),
}

MIN = {
    'crash_points': (150, 3000),
    'recoveries': (32, 600),
    'op_faults': (60, 900),
    'full_disk': (60, 900),
    'interleavings': (48, 1500),
    'switches': (400, 9000),
    'register_checks': (30, 900),
    'logged_writes': (80, 1200),
    'kernel_events': (200, 3000),
    'process_races': (12, 160),
    'reads': (50, 600),
    'memory_writes': (16, 120),
    'pipeline_crashes': (8, 60),
    'pipelines_logged': (16, 120),
}
BUDGET = {'quick': 300, 'thorough': 3000}
CASE_TIMEOUT = 200
