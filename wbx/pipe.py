"""Worlds, recording loaders and runner options for the pipeline monitors."""

import os
import time

import apache_beam as beam
import numpy as np
import xarray as xr
from wbx import gen
from weatherbenchX.data_loaders import base as loaders_base


def log(path, *fields):
  """Appends one event atomically; usable from any thread or process."""
  fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
  try:
    os.write(fd, ('\t'.join(str(f) for f in fields) + '\n').encode())
  finally:
    os.close(fd)


def events(path):
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [tuple(line.rstrip('\n').split('\t')) for line in f]


def lead_key(s):
  ns = lambda x: int(np.timedelta64(x, 'ns').astype('int64'))
  return f'slice:{ns(s.start)}:{ns(s.stop)}'


class RecordingLoader(loaders_base.DataLoader):
  """Serves slices of an (init, lead) dataset and records every request.

  Injected faults: a delay per request (reorders completion) and an exception
  at one chosen (init, lead) pair.
  """

  def __init__(self, data, path, side, delay=0.0, fail_at=None, seed=0,
               as_dict=True, intervals=None, **kwargs):
    super().__init__(**kwargs)
    self._data, self._path, self._side = data, path, side
    self._delay, self._fail_at, self._seed = delay, fail_at, seed
    self._as_dict = as_dict

  def _load_chunk_from_source(self, init_times, lead_times=None):
    log(self._path, self._side, ','.join(str(x) for x in np.asarray(
        init_times).astype('datetime64[ns]').astype('int64')),
        lead_key(lead_times) if isinstance(lead_times, slice) else ','.join(
            str(x) for x in np.asarray(lead_times).astype(
                'timedelta64[ns]').astype('int64')), os.getpid())
    if self._delay:
      h = (int(np.asarray(init_times).astype('datetime64[ns]').astype(
          'int64')[0] // 10**9) * 2654435761 + self._seed) % 97
      time.sleep(self._delay * h / 97)
    sel = {k: v.sel(init_time=init_times, lead_time=lead_times)
           for k, v in self._data.items()}
    if self._fail_at is not None:
      it, lt = self._fail_at
      d = next(iter(sel.values()))
      if it in d.init_time.values and lt in d.lead_time.values:
        raise RuntimeError('injected fault')
    return sel if self._as_dict else xr.Dataset(sel)


def run(build, mode='in_memory'):
  """Runs a pipeline built by build(root) on the direct runner."""
  opts = {}
  if mode == 'threads':
    opts = dict(direct_num_workers=3, direct_running_mode='multi_threading')
  from apache_beam.options.pipeline_options import PipelineOptions
  # An explicit empty argv: the options must not parse our command line.
  try:
    with beam.Pipeline(runner='DirectRunner',
                       options=PipelineOptions([], **opts)) as root:
      build(root)
  except Exception as e:
    e.wbx_code_ran = True  # Not a failure of the harness.
    raise


def times(rng, ni, nl):
  return gen.init_times(rng, ni), gen.lead_times(rng, nl)
