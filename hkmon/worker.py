"""Runs a slice of a property's cases in one process; reports JSON lines."""
import importlib
import json
import os
import sys
import time
import traceback


MULTI_DEVICE = ('C17', 'C26')  # properties whose workloads use jax.pmap


def setup_env():
  os.environ.setdefault('JAX_PLATFORMS', 'cpu')
  flags = os.environ.get('XLA_FLAGS', '')
  if 'xla_backend_optimization_level' not in flags:
    # Cheap compilation: cases are small and numerous.
    flags += (' --xla_backend_optimization_level=0'
              ' --xla_llvm_disable_expensive_passes=true'
              ' --xla_cpu_multi_thread_eigen=false')
    os.environ['XLA_FLAGS'] = flags.strip()


def load(prop):
  import warnings
  warnings.simplefilter('ignore')
  if prop in MULTI_DEVICE and 'device_count' not in os.environ.get('XLA_FLAGS', ''):
    os.environ['XLA_FLAGS'] += ' --xla_force_host_platform_device_count=4'
  import haiku
  if not os.path.abspath(haiku.__file__).startswith('/repo/'):
    raise RuntimeError(f'haiku imported from {haiku.__file__}, not /repo')
  return importlib.import_module('hkmon.props.' + prop.lower())


def run_case(mod, scenario, index, seed, tier):
  """Returns (record, violated)."""
  from hkmon import core
  fn = mod.SCENARIOS[scenario][0]
  mon = core.Mon(mod.PROPERTY, scenario, index, seed, tier)
  rec = dict(scenario=scenario, index=index)
  try:
    fn(mon)
  except core.Violation as v:
    rec['violation'] = dict(kind='oracle', message=v.message, ctx=v.ctx,
                            traceback=traceback.format_exc()[-4000:])
  except MemoryError:
    rec['inconclusive'] = 'MemoryError'
  except Exception as e:  # Code under test failed on input it must accept.
    rec['violation'] = dict(
        kind='exception', message=f'unexpected {type(e).__name__}: {str(e)[:600]}',
        ctx={}, traceback=traceback.format_exc()[-4000:])
  rec['events'] = dict(mon.events)
  rec['sigs'] = sorted(mon.sigs)
  rec['samples'] = mon.samples
  if mon.note:
    rec['note'] = mon.note
  return rec


def main():
  prop, tier, seed, jobs_file, out_file, soft_s = sys.argv[1:7]
  setup_env()
  mod = load(prop)
  with open(jobs_file) as f:
    jobs = json.load(f)
  t0 = time.time()
  n_viol = 0
  with open(out_file, 'w') as out:
    def emit(rec):
      out.write(json.dumps(rec, default=str) + '\n')
      out.flush()
    for i, (scenario, index) in enumerate(jobs):
      if time.time() - t0 > float(soft_s):
        emit(dict(skipped=len(jobs) - i))
        break
      t1 = time.time()
      rec = run_case(mod, scenario, index, int(seed), tier)
      rec['t'] = round(time.time() - t1, 3)
      emit(rec)
      if 'violation' in rec:
        n_viol += 1
        if n_viol >= 3:
          break
    emit(dict(done=True))


if __name__ == '__main__':
  main()
