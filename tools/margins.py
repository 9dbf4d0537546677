#!/usr/bin/env python3
"""Lists MIN thresholds close to what the last run of a check observed."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get('WBX_REPO', '/repo')]
for f in sorted(os.listdir(HERE + '/wbx/props')):
  if f.startswith('c') and f[1:3].isdigit() and f.endswith('.py'):
    pid = f[:-3].upper()
    try:
      d = json.load(open(f'{HERE}/evidence/{pid}.json'))
    except OSError:
      continue
    ev = d['coverage']['monitor_events']
    m = importlib.import_module('wbx.props.' + f[:-3])
    for k, n in m.MIN.items():
      if isinstance(n, tuple):
        n = n[d['tier'] == 'thorough'] if 'tier' in d else n[0]
      if ev.get(k, 0) < 1.6 * n:
        print(pid, k, 'needs', n, 'saw', ev.get(k, 0))
