"""Shared drivers: run a random program for real, feed the model, compare."""
import jax
import numpy as np
import haiku as hk

from hkmon import lang
from hkmon.core import two_level


def np_tree(t):
  return {k: np.asarray(v) for k, v in two_level(t).items()}


def nest(flat):
  out = {}
  for (m, n), v in flat.items():
    out.setdefault(m, {})[n] = v
  return out


def fresh_values(mon, flat):
  """New, distinctive small-integer values with the same shapes and dtypes."""
  return {k: mon.np.integers(0, 90, size=v.shape).astype(v.dtype)
          for k, v in flat.items()}


def run_init(mon, program, seed, x):
  fn, holder = lang.haiku_fn(program)
  t = hk.transform_with_state(fn)
  params, state = t.init(jax.random.PRNGKey(seed), x)
  return t, holder, params, state, holder['b']


def check_init(mon, program, seed, x, compare_trace=True):
  """Runs init and decides it against the model; returns (t, params, state)."""
  t, holder, params, state, b = run_init(mon, program, seed, x)
  _, mb = lang.model_init(program, x, b.keys_seen)
  if compare_trace:
    lang.compare_events(mon, b.events, mb.events, 'init')
  mon.tree_same(params, nest(mb.params), 'params returned by init')
  mon.tree_same(state, nest(mb.initial), 'state returned by init')
  mon.check(mb.key_pos == len(b.keys_seen), 'init: number of keys drawn differs')
  mon.ev('init_runs')
  mon.ev('params_created', len(mb.params))
  mon.ev('states_created', len(mb.initial))
  return t, holder, params, state


def check_apply(mon, program, t, holder, flat_params, flat_state, seed, x,
                compare_trace=True, as_dict=True, params=None, state=None):
  p = nest(flat_params) if params is None else params
  s = nest(flat_state) if state is None else state
  out, new_state = t.apply(p, s, None if seed is None else jax.random.PRNGKey(seed), x)
  b = holder['b']
  mout, mb = lang.model_apply(program, flat_params, flat_state, x, b.keys_seen,
                              rng_none=seed is None)
  if compare_trace:
    lang.compare_events(mon, b.events, mb.events, 'apply')
  mon.same(out, mout, 'output of apply')
  mon.tree_same(new_state, nest(mb.current), 'state returned by apply')
  mon.ev('apply_runs')
  return out, new_state, b
