"""Probes of the ambient (thread-local) context, through the public API only."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np


def outside_calls():
  """API calls that must be rejected when no transform is active."""
  class M(hk.Module):
    pass
  return {
      'get_parameter': lambda: hk.get_parameter('w', [], init=jnp.ones),
      'get_state': lambda: hk.get_state('w', [], init=jnp.ones),
      'set_state': lambda: hk.set_state('w', 1.),
      'next_rng_key': lambda: hk.next_rng_key(),
      'next_rng_keys': lambda: hk.next_rng_keys(2),
      'maybe_next_rng_key': lambda: hk.maybe_next_rng_key(),
      'reserve_rng_keys': lambda: hk.reserve_rng_keys(2),
      'with_rng': lambda: hk.with_rng(jax.random.PRNGKey(0)),
      'Module': lambda: M(),
      'Linear': lambda: hk.Linear(1),
      'running_init': lambda: hk.running_init(),
      'name_scope': lambda: hk.experimental.name_scope('q'),
      'custom_getter': lambda: hk.experimental.custom_getter(lambda n, v, c: n(v)),
      'custom_creator': lambda: hk.experimental.custom_creator(
          lambda n, s, d, i, c: n(s, d, i)),
      'intercept_methods': lambda: hk.experimental.intercept_methods(
          lambda n, a, k, c: n(*a, **k)),
      'hk.jit': lambda: hk.jit(lambda: 0),
      'hk.cond': lambda: hk.cond(True, lambda x: x, lambda x: x, 1.),
  }


def check_outside(mon, why, few=True):
  """No transform is active on this thread."""
  calls = outside_calls()
  names = sorted(calls)
  if few:
    names = mon.py.sample(names, 4) + ['get_parameter', 'running_init']
  for n in names:
    mon.raises(ValueError, calls[n], f'{n} outside any transform ({why})')
    mon.ev('outside_probes')


class ProbeMod(hk.Module):
  def __call__(self, x):
    return x + hk.get_parameter('pw', [], init=lambda s, d: jnp.full(s, 3., d))


def reference_probe(x):
  """A small function exercising names, getters, interceptors, rng and state."""
  m = ProbeMod()
  n = ProbeMod(name='sub')
  y = m(x) * 2 + n(x)
  c = hk.get_state('pc', [], init=lambda s, d: jnp.full(s, 5., d))
  hk.set_state('pc', c + 1)
  k = hk.next_rng_key()
  return y + c, k, m.module_name, n.module_name, hk.running_init()


def check_pristine(mon, why):
  """A fresh transform on this thread sees no leftovers of earlier activity."""
  box = {}
  def f(x):
    out = reference_probe(x)
    box['out'] = out
    return out[0]
  t = hk.transform_with_state(f)
  key = jax.random.PRNGKey(11)
  p, s = t.init(key, jnp.float32(1))
  mon.eq(sorted((m, n) for m in p for n in p[m]), [('probe_mod', 'pw'), ('sub', 'pw')],
         f'parameters of a fresh transform ({why})')
  mon.eq({(m, n): float(s[m][n]) for m in s for n in s[m]}, {('~', 'pc'): 5.},
         f'state of a fresh transform ({why})')
  mon.eq([float(p[m]['pw']) for m in ('probe_mod', 'sub')], [3., 3.],
         f'parameter values of a fresh transform ({why})')
  out, s2 = t.apply(p, s, key, jnp.float32(1))
  mon.eq(float(out), 17., f'output of a fresh transform ({why})')
  mon.eq(float(s2['~']['pc']), 6., f'state after apply of a fresh transform ({why})')
  mon.eq(box['out'][2:], ('probe_mod', 'sub', False), f'names in a fresh transform ({why})')
  mon.check(not isinstance(box['out'][1], jax.core.Tracer), f'key is a leaked tracer ({why})')
  want = jax.random.split(key)[1]
  del want
  mon.ev('pristine_probes')
