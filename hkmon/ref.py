"""Shared driver for the layer checks: init, fresh parameters, apply, float64 views."""
import haiku as hk
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np

from hkmon.core import two_level

TOL = {'float32': 3e-4, 'float16': 3e-2, 'bfloat16': 1e-1}


def np_dtype(name):
  return np.dtype(ml_dtypes.bfloat16) if name == 'bfloat16' else np.dtype(name)


def dtype(mon, p_low=0.25):
  return mon.pick('float16', 'bfloat16') if mon.chance(p_low) else 'float32'


def arr(mon, shape, dt='float32', scale=1.0):
  return mon.normal(shape, scale).astype(np_dtype(dt))


def f64(x):
  return np.asarray(x).astype(np.float64)


class Run:
  """One transformed layer with random parameters."""

  def __init__(self, mon, fn, args, rng=0, kwargs=None, want_params=None, want_state=None,
               randomise=True, scale=0.7, jit=None, positive=()):
    self.mon = mon
    kwargs = kwargs or {}
    self.t = hk.transform_with_state(fn)
    self.rng = jax.random.PRNGKey(rng)
    self.params, self.state = self.t.init(self.rng, *args, **kwargs)
    if want_params is not None:
      got = {k: (tuple(v.shape), str(v.dtype)) for k, v in two_level(self.params).items()}
      mon.eq(got, {k: (tuple(s), str(np_dtype(d))) for k, (s, d) in want_params.items()},
             'parameters created by init')
    if want_state is not None:
      got = {k: (tuple(v.shape), str(v.dtype)) for k, v in two_level(self.state).items()}
      mon.eq(got, {k: (tuple(s), str(np_dtype(d))) for k, (s, d) in want_state.items()},
             'state created by init')
    self.init_params = self.params
    if randomise:
      self.params = {m: {n: jnp.asarray(
          (mon.np.standard_normal(v.shape) * scale).astype(np.asarray(v).dtype)
          if (m, n) not in positive else
          (mon.np.random(v.shape) + 0.5).astype(np.asarray(v).dtype))
          for n, v in b.items()} for m, b in self.params.items()}
    self.p = {k: f64(v) for k, v in two_level(self.params).items()}
    self.jit = mon.chance(0.15) if jit is None else jit
    self.apply = jax.jit(self.t.apply) if self.jit else self.t.apply
    self.args, self.kwargs = args, kwargs

  def __call__(self, *args, state=None, rng='same', **kwargs):
    args = args or self.args
    kwargs = kwargs or self.kwargs
    rng = self.rng if isinstance(rng, str) else rng
    out, self.new_state = self.apply(self.params, self.state if state is None else state, rng,
                                     *args, **kwargs)
    self.mon.ev('layer_runs')
    return out


def check(mon, got, want, dt, msg, dtype_same=True, k=1.0, **ctx):
  if dtype_same:
    mon.eq(str(np.asarray(got).dtype), str(np_dtype(dt)), msg + ': output dtype', **ctx)
  t = TOL[dt] * k
  mon.close(np.asarray(got).astype(np.float64), want, msg, rtol=t, atol=t, **ctx)
