"""C16: pooling."""
import itertools
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('Random rank 1-5 inputs (all dtypes, +-inf and huge values included), windows and strides '
        'given as ints, trailing-dimension sequences or full-rank sequences, every channel axis '
        'form, SAME and VALID; function and module forms, under jit and vmap, and their gradients, '
        'against a window-by-window enumeration. Non-trivial: some window covers >=2 elements; '
        'distinct by configuration.')
REQUIRED = {'pools': 250, 'avg': 100, 'max': 100, 'partial_windows': 60, 'int_window': 60,
            'grads': 30, 'rejected': 10, 'vmapped': 8}
ASSUMPTIONS = ['SAME follows the XLA definition: ceil(in/stride) outputs, extra padding at the end']


def windows(n, k, s, padding):
  if padding == 'VALID':
    return [(i * s, i * s + k) for i in range(max(0, (n - k) // s + 1))] if n >= k else []
  out = -(-n // s)
  total = max((out - 1) * s + k - n, 0)
  lo = total // 2
  return [(max(0, i * s - lo), min(n, i * s - lo + k)) for i in range(out)]


def pool_ref(x, win, stride, padding, kind):
  per = [windows(n, k, s, padding) for n, k, s in zip(x.shape, win, stride)]
  out = np.zeros([len(p) for p in per])
  partial = 0
  for idx in itertools.product(*[range(len(p)) for p in per]):
    sl = tuple(slice(*per[d][i]) for d, i in enumerate(idx))
    v = x[sl]
    partial += v.size != np.prod(win)
    out[idx] = v.max() if kind == 'max' else v.mean()
  return out, partial


def spec(mon, ndim, channel_axis, sizes):
  """(argument, full-rank tuple)."""
  form = mon.pick('int', 'int', 'trailing', 'trailing', 'full')
  if form == 'int':
    k = mon.pick(sizes)
    ch = None if channel_axis is None else channel_axis % ndim
    return k, tuple(1 if d == 0 or d == ch else k for d in range(ndim)), form
  n = ndim if form == 'full' else mon.randint(1, ndim)
  t = tuple(mon.pick(sizes) for _ in range(n))
  full = (1,) * (ndim - n) + t
  return mon.pick(t, list(t)), full, form


def pooling(mon):
  ndim = mon.randint(2, 5)
  shape = [mon.randint(1, 6 if ndim < 4 else 4) for _ in range(ndim)]
  # axis 0 means "the batch axis", which an int window never pools anyway
  ca = mon.pick([-1, -1, None, 1, ndim - 1, -ndim + 1, -2 if ndim > 2 else -1])
  win_arg, win, wf = spec(mon, ndim, ca, [1, 2, 2, 3])
  st_arg, stride, _ = spec(mon, ndim, ca, [1, 1, 2, 3])
  padding = mon.pick('SAME', 'VALID')
  kind = mon.pick('max', 'avg')
  if padding == 'VALID':
    shape = [max(n, w) for n, w in zip(shape, win)]
  dt = ref.dtype(mon, 0.2)
  x = mon.normal(shape, 3.0)
  if kind == 'max' and mon.chance(0.25):
    x = -np.abs(x) - 5  # padding must never win
    mon.ev('all_negative')
  if kind == 'max' and mon.chance(0.1):
    x[mon.np.random(x.shape) < 0.3] = -np.inf
  if kind == 'avg' and mon.chance(0.2):
    x = x + 50
  x = x.astype(ref.np_dtype(dt))
  want, partial = pool_ref(ref.f64(x), win, stride, padding, kind)
  fnc = hk.max_pool if kind == 'max' else hk.avg_pool
  cls = hk.MaxPool if kind == 'max' else hk.AvgPool
  kw = {} if (ca == -1 and mon.chance(0.5)) else dict(channel_axis=ca)
  form = mon.pick('fn', 'module', 'kw')
  xj = jnp.asarray(x)

  def call(v):
    if form == 'fn':
      return fnc(v, win_arg, st_arg, padding, **kw)
    if form == 'kw':
      return fnc(value=v, window_shape=win_arg, strides=st_arg, padding=padding, **kw)
    return cls(window_shape=win_arg, strides=st_arg, padding=padding, **kw)(v)

  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    if form == 'module':
      t = hk.transform_with_state(call)
      p, s = t.init(None, xj)
      mon.eq((dict(p), dict(s)), ({}, {}), 'pooling created parameters or state')
      run = lambda v: t.apply({}, {}, None, v)[0]
    else:
      run = call
    if mon.chance(0.2):
      run = jax.jit(run)
    got = run(xj)
  cfg = dict(kind=kind, shape=shape, win=win_arg, stride=st_arg, padding=padding, ca=ca, form=form)
  mon.check(not np.isnan(ref.f64(got)).any(), 'NaN in pooled output', config=cfg)
  if kind == 'max':
    mon.eq(str(got.dtype), str(x.dtype), 'pooled dtype', config=cfg)
    mon.same(ref.f64(got), want, 'max pooling', config=cfg)
  else:
    ref.check(mon, got, want, dt, 'average pooling', k=8 if dt != 'float32' else 1, config=cfg)
  if kind == 'avg' and padding == 'SAME':
    c = fnc(jnp.full(shape, 7., x.dtype), win_arg, st_arg, padding, **kw)
    mon.close(ref.f64(c), np.full(want.shape, 7.), 'average of a constant', rtol=2e-2, atol=2e-2,
              config=cfg)
  mon.ev('pools')
  mon.ev(kind)
  mon.ev('partial_windows', int(partial > 0))
  mon.ev('int_window', int(wf == 'int'))
  if np.prod(win) > 1:
    mon.nontrivial(kind, tuple(shape), win, stride, padding, ca, form)
  mon.sample(cfg)
  # Unbatched size sequences must work the same under vmap.
  if (wf == 'trailing' and not isinstance(st_arg, int) and len(win_arg) < ndim
      and len(st_arg) < ndim and dt == 'float32'):
    got_v = jax.vmap(lambda v: fnc(v, win_arg, st_arg, padding))(xj)
    mon.close(ref.f64(got_v), want, 'pooling under vmap with unbatched sizes', config=cfg)
    mon.ev('vmapped')


def gradient(mon):
  """d/dx of a weighted sum of outputs: each output distributes over its own window."""
  shape = (mon.randint(1, 2), mon.randint(3, 6), mon.randint(1, 2))
  k, s = mon.randint(1, 3), mon.randint(1, 3)
  padding, kind = mon.pick('SAME', 'VALID'), mon.pick('max', 'avg')
  x = mon.np.permutation(int(np.prod(shape))).reshape(shape).astype(np.float32)
  fnc = hk.max_pool if kind == 'max' else hk.avg_pool
  per = windows(shape[1], k, s, padding)
  ct = mon.normal((shape[0], len(per), shape[2]))
  got = jax.grad(lambda v: jnp.sum(fnc(v, (k, 1), (s, 1), padding) * ct))(jnp.asarray(x))
  want = np.zeros(shape)
  for b in range(shape[0]):
    for c in range(shape[2]):
      for i, (lo, hi) in enumerate(per):
        w = x[b, lo:hi, c]
        if kind == 'max':
          want[b, lo + int(np.argmax(w)), c] += ct[b, i, c]
        else:
          want[b, lo:hi, c] += ct[b, i, c] / (hi - lo)
  mon.close(got, want, f'gradient of {kind} pooling', shape=shape, k=k, s=s, padding=padding)
  mon.ev('grads')
  mon.nontrivial('grad', shape, k, s, padding, kind)


def misuse(mon):
  x = jnp.ones((2, 4, 4, 3))
  fnc = mon.pick(hk.max_pool, hk.avg_pool)
  cases = [
      lambda: fnc(x, (2, 2, 1), (1, 1, 1), 'same'),
      lambda: fnc(x, (2, 2, 1), (1, 1, 1), 'FULL'),
      lambda: fnc(x, (2, 2, 1), (1, 1, 1), ((0, 0),) * 4),
      lambda: fnc(x, 2, 1, 'SAME', channel_axis=4),
      lambda: fnc(x, 2, 1, 'SAME', channel_axis=-5),
      lambda: fnc(x, (2, 2, 1), 2, 'SAME', channel_axis=7),
  ]
  f = cases[mon.index % len(cases)]
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    mon.raises(ValueError, f, 'invalid pooling arguments', case=mon.index % len(cases))
  mon.ev('rejected')
  mon.nontrivial('misuse', mon.index % len(cases))


SCENARIOS = {
    'pooling': (pooling, 320, 8000),
    'gradient': (gradient, 40, 600),
    'misuse': (misuse, 24, 48),
}
