"""Runner: drives the scenarios of one property and writes its evidence."""

import argparse
import collections
import importlib
import importlib.machinery
import json
import logging
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WBX_REPO', '/repo')


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
  """Always compiles the source: never trusts a stale .pyc in the repository."""

  def path_stats(self, path):
    raise OSError('no bytecode cache')

  def set_data(self, *args, **kwargs):
    pass


def _install_nocache_hook():
  finder = importlib.machinery.FileFinder.path_hook(
      (_NoCacheLoader, ['.py']))
  repo = os.path.realpath(REPO)

  def hook(path):
    if os.path.realpath(path or '.').startswith(repo):
      return finder(path)
    raise ImportError

  sys.path_hooks.insert(0, hook)
  sys.path_importer_cache.clear()


_LINES = collections.defaultdict(set)


def _install_line_monitor():
  """PEP 669 monitor of which repository lines the workload really executed."""
  mon = sys.monitoring
  tool = mon.COVERAGE_ID
  prefix = os.path.join(REPO, 'weatherbenchX') + os.sep
  prefix2 = os.path.join(REPO, 'public_benchmark') + os.sep
  prefix3 = os.path.join(REPO, 'evaluation_scripts') + os.sep
  try:
    mon.use_tool_id(tool, 'wbx')
  except ValueError:
    return

  def on_line(code, line):
    fn = code.co_filename
    if fn.startswith(prefix) or fn.startswith(prefix2) or fn.startswith(
        prefix3):
      _LINES[fn].add(line)
    return mon.DISABLE

  mon.register_callback(tool, mon.events.LINE, on_line)
  mon.set_events(tool, mon.events.LINE)


class _CaseTimeout(BaseException):
  pass


def _alarm(*_):
  raise _CaseTimeout()


def _run_case(module, scenario, seed, case_timeout):
  """Runs one case in this process. Returns a result dict."""
  import numpy as np
  from wbx import core
  obs = core.Obs()
  fn = module.SCENARIOS[scenario][0]
  rng = np.random.default_rng(seed)
  np.random.seed(int(seed[-1]) % (2**32 - 1))
  t0 = time.time()
  res = {'scenario': scenario, 'seed': list(seed), 'status': 'ok'}
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(case_timeout)
  tmp = tempfile.mkdtemp(prefix='case_', dir=os.environ['WBX_SCRATCH'])
  obs.tmp = tmp
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      with np.errstate(all='ignore'):
        fn(rng, obs)
  except core.Violation as e:
    res.update(status='violation', key=e.key, msg=e.msg,
               detail=core.jsonable(e.detail))
  except _CaseTimeout:
    res.update(status='timeout', msg=f'case exceeded {case_timeout}s')
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.format_exc()
    # Pipelines can fail in the runner's own frames.
    in_repo = getattr(e, 'wbx_code_ran', False) or any(
        os.path.join(REPO, d) in tb for d in (
            'weatherbenchX', 'public_benchmark', 'evaluation_scripts'))
    if in_repo and not isinstance(e, (ImportError, MemoryError)):
      res.update(
          status='violation', key=f'raised.{scenario}.{type(e).__name__}',
          msg=f'raised on valid input: {type(e).__name__}: {str(e)[:400]}',
          detail=tb[-3000:])
    else:
      res.update(status='harness_error', msg=tb[-3000:])
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
    shutil.rmtree(tmp, ignore_errors=True)
  res['events'] = dict(obs.events)
  res['nontrivial'] = sorted(obs.nontrivial)
  res['samples'] = obs.samples
  res['wall'] = time.time() - t0
  return res


def _worker(args):
  module_name, scenario, seed, case_timeout, deadline = args
  if time.time() > deadline:
    return {'scenario': scenario, 'seed': list(seed), 'status': 'skipped',
            'events': {}, 'nontrivial': [], 'samples': [], 'wall': 0,
            'lines': {}}
  module = importlib.import_module(module_name)
  before = {k: len(v) for k, v in _LINES.items()}
  res = _run_case(module, scenario, seed, case_timeout)
  res['lines'] = {k: sorted(v) for k, v in _LINES.items()
                  if len(v) != before.get(k, 0)}
  return res


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--replay')
  ap.add_argument('--only')
  ap.add_argument('--jobs', type=int,
                  default=int(os.environ.get('WBX_JOBS', '8')))
  ap.add_argument('--scale', type=float, default=1.0)
  ap.add_argument('--verbose', action='store_true')
  a = ap.parse_args()
  pid = a.pid
  tier = os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1'))
  t0 = time.time()

  logging.disable(logging.CRITICAL)
  warnings.simplefilter('ignore')
  _install_nocache_hook()
  _install_line_monitor()
  scratch = tempfile.mkdtemp(prefix=f'wbx_{pid}_')
  os.environ['WBX_SCRATCH'] = scratch
  os.environ['TMPDIR'] = scratch
  tempfile.tempdir = scratch
  try:
    rc = _main(a, pid, tier, seed, t0)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)


def _main(a, pid, tier, seed, t0):
  from wbx import core
  module_name = f'wbx.props.{pid.lower()}'
  try:
    module = importlib.import_module(module_name)
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    print(f'INCONCLUSIVE property={pid}: cannot import the code or the monitor')
    return 2
  pid_num = int(pid[1:])

  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    res = _run_case(module, rep['scenario'], tuple(rep['seed']), 3600)
    print(json.dumps({k: v for k, v in res.items() if k not in ('nontrivial',)},
                     indent=1)[:6000])
    if res['status'] == 'violation':
      print(f'VIOLATION property={pid} replay={a.replay}')
      return 1
    return 0 if res['status'] == 'ok' else 2

  tasks = []
  names = sorted(module.SCENARIOS)
  budget = getattr(module, 'BUDGET', {}).get(
      tier, 420 if tier == 'quick' else 5400)
  case_timeout = getattr(module, 'CASE_TIMEOUT', 300)
  deadline = time.time() + budget
  for si, name in enumerate(names):
    if a.only and a.only != name:
      continue
    _, nq, nt = module.SCENARIOS[name]
    n = nq if tier == 'quick' else nt
    if nq != 1 or nt != 1:
      n = max(1, int(n * a.scale))
    tag = sum(ord(c) * 131**i for i, c in enumerate(name)) % (2**31)
    for i in range(n):
      tasks.append((i / max(n, 1), (
          module_name, name, (seed, pid_num, tag, i), case_timeout, deadline)))
  # Interleave scenarios so that a time budget cuts all of them evenly.
  tasks = [t for _, t in sorted(tasks, key=lambda t: t[0])]

  known = core.load_known(os.path.join(VERIF, 'known_findings.txt'))[pid]
  events = collections.Counter()
  per_scenario = collections.Counter()
  nontrivial = set()
  samples = []
  violations = []
  known_hits = collections.OrderedDict()
  harness = []
  timeouts = []
  skipped = 0
  lines = collections.defaultdict(set)
  lines.update({k: set(v) for k, v in _LINES.items()})
  evaluations = 0
  walls = collections.Counter()

  ctx = mp.get_context('fork')
  jobs = max(1, min(a.jobs, len(tasks)))
  pool = ctx.Pool(jobs, maxtasksperchild=None)
  stop = False
  try:
    for res in pool.imap_unordered(_worker, tasks, chunksize=1):
      st = res['status']
      if st == 'skipped':
        skipped += 1
        continue
      evaluations += 1
      per_scenario[res['scenario']] += 1
      walls[res['scenario']] += res['wall']
      events.update(res['events'])
      nontrivial.update(res['nontrivial'])
      for k, v in res.get('lines', {}).items():
        lines[k].update(v)
      if res['samples'] and sum(
          s['scenario'] == res['scenario'] for s in samples) < 2:
        samples.append({'scenario': res['scenario'], 'seed': res['seed'],
                        'case': res['samples'][0]})
      if st == 'violation':
        if res['key'] in known:
          known_hits.setdefault(res['key'], res)
        else:
          violations.append(res)
          if len(violations) >= int(os.environ.get("WBX_STOP", "25")):
            stop = True
      elif st == 'harness_error':
        harness.append(res)
        if len(harness) >= 25:
          stop = True
      elif st == 'timeout':
        timeouts.append(res)
        if len(timeouts) >= 8:
          stop = True
      if stop:
        break
  finally:
    pool.terminate()
    pool.join()

  problems = []
  scale = min(1.0, a.scale)
  if not stop and not a.only:
    minimum = getattr(module, 'MIN', {})
    for k, v in minimum.items():
      v = v if isinstance(v, int) else v[0 if tier == 'quick' else 1]
      v = -(-v // 2)  # margin for other seeds
      if events[k] < v * scale:
        problems.append(f'monitor saw {events[k]} x {k}, needs {v}')
    for name in names:
      if not per_scenario[name]:
        problems.append(f'scenario {name} never ran')
    for k in known:
      if k not in known_hits:
        print(f'NOTE property={pid} known finding no longer fails: {k}')

  shown = set()
  rep_dir = os.path.join(VERIF, 'evidence', 'replay')
  for v in violations:
    if v['key'] in shown:
      continue
    shown.add(v['key'])
    path = os.path.join(
        rep_dir, f"{pid}-{core.fingerprint((v['scenario'], v['seed']))}.json")
    core.dump_json(path, {
        'property': pid, 'scenario': v['scenario'], 'seed': v['seed'],
        'key': v['key'], 'msg': v['msg'], 'detail': v.get('detail'),
        'tier': tier, 'replay_cmd': f'./check.sh {pid} --replay {path}'})
    print(f"# [{v['scenario']}] {v['key']}: {v['msg'][:1200]}")
    print(f'VIOLATION property={pid} replay={path}')
    if len(shown) >= 6:
      break
  for k, v in known_hits.items():
    print(f'KNOWN-FINDING: property={pid} {known[k] or k}')

  cov = {
      'evaluations': evaluations,
      'distinct_nontrivial': len(nontrivial),
      'rule': module.RULE,
      'samples': samples[:12],
      'scenarios': dict(per_scenario),
      'scenario_wall_s': {k: round(v, 1) for k, v in walls.items()},
      'monitor_events': dict(events),
      'repo_lines_executed': {
          os.path.relpath(k, REPO): len(v) for k, v in sorted(lines.items())},
      'skipped_by_time_budget': skipped,
      'known_findings_seen': list(known_hits),
      'timeouts': len(timeouts),
  }
  ev_path = os.path.join(VERIF, 'evidence', f'{pid}.json')
  if not a.only:
    core.dump_json(ev_path, {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': cov,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations)})
  print(f'property={pid} tier={tier} seed={seed} cases={evaluations} '
        f'distinct_nontrivial={len(nontrivial)} violations={len(violations)} '
        f'known={len(known_hits)} skipped={skipped} timeouts={len(timeouts)} '
        f'harness_errors={len(harness)} wall={time.time() - t0:.1f}s')
  if a.verbose:
    print(json.dumps({k: cov[k] for k in (
        'scenarios', 'scenario_wall_s', 'monitor_events',
        'repo_lines_executed')}, indent=1))
  if violations and not a.verbose:
    return 1
  if harness:
    for h in harness[:3]:
      print(f"HARNESS ERROR [{h['scenario']}] seed={h['seed']}\n{h['msg']}")
    return 1 if violations else 2
  if violations:
    return 1
  if timeouts:
    for h in timeouts[:3]:
      print(f"TIMEOUT [{h['scenario']}] seed={h['seed']} {h['msg']}")
    return 2
  if problems:
    for p in problems:
      print(f'INCONCLUSIVE property={pid}: {p}')
    return 2
  return 0


if __name__ == '__main__':
  main()
