"""C18: moving averages and spectral normalisation."""
import re

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('Random call histories (updating and non-updating calls, reads of the stored average, '
        'several calls per apply, jitted or not) of ExponentialMovingAverage, SpectralNorm and their '
        'whole-tree forms over random parameter trees and ignore patterns, against a float64 step '
        'model; the normalised value is also judged against the singular values of the input. '
        'Non-trivial: >=2 calls; distinct by configuration and history.')
REQUIRED = {'ema_calls': 200, 'ema_frozen': 60, 'ema_warmup': 60, 'ema_tree': 20, 'sn_calls': 100,
            'sn_frozen': 30, 'sn_tree': 20, 'ignored_leaves': 20, 'sn_converged': 15, 'rejected': 10}
ASSUMPTIONS = ['floating point values; module and parameter names of trees are Haiku names']


class Ema:
  def __init__(self, decay, debias, warmup):
    self.d, self.debias, self.c = decay, debias, -warmup
    self.h, self.avg, self.w = 0., None, warmup

  def call(self, v, update):
    c = self.c + 1
    d = 0. if (self.w and c <= 0) else self.d
    h = self.h * d + v * (1 - d)
    avg = h / (1 - d ** c) if self.debias else h
    if update:
      self.c, self.h, self.avg = c, h, avg
    return avg


def ema_cfg(mon):
  warm = mon.pick(0, 0, 1, 2, 3)
  kw = {}
  debias = False if warm else mon.chance(0.6)
  if not debias or mon.chance(0.5):
    kw['zero_debias'] = debias
  if warm:
    kw['warmup_length'] = warm
  return mon.pick(0., 0.1, 0.5, 0.9, 0.99), debias, warm, kw


def ema(mon):
  decay, debias, warm, kw = ema_cfg(mon)
  shape = tuple(mon.randint(1, 3) for _ in range(mon.randint(0, 3)))
  dt = ref.dtype(mon, 0.15)
  pre = mon.chance(0.25)
  ops = []
  name = mon.pick(None, 'avg')
  def fn(ops, vals):
    m = hk.ExponentialMovingAverage(decay, name=name, **kw)
    if pre:
      m.initialize(shape, ref.np_dtype(dt))
    out = []
    for op, v in zip(ops, vals):
      if op == 'read':
        out.append(m.average)
      elif op == 'default':
        out.append(m(v))
      else:
        out.append(m(v, update_stats=op == 'update'))
    return out
  t = hk.transform_with_state(fn)
  v0 = ref.arr(mon, shape, dt)
  frozen_init = mon.chance(0.2) and pre
  init_ops = ('frozen',) if frozen_init else ('default',)
  params, state = t.init(None, init_ops, [v0])
  mon.eq(dict(params), {}, 'moving averages have no parameters')
  model = Ema(decay, debias, warm)
  nm = name or 'exponential_moving_average'
  tol = dict(rtol=ref.TOL[dt] * 3, atol=ref.TOL[dt] * 3)
  def check_state(model, state, where):
    s = two_level(state)
    mon.eq(sorted(k for _, k in s), ['average', 'counter', 'hidden'], f'state entries {where}')
    mon.eq(int(s[nm, 'counter']), model.c, f'counter {where}', cfg=(decay, debias, warm))
    mon.close(ref.f64(s[nm, 'hidden']), np.broadcast_to(model.h, shape), f'hidden {where}', **tol)
    mon.close(ref.f64(s[nm, 'average']), np.broadcast_to(model.avg, shape), f'average {where}', **tol)
    mon.eq(str(s[nm, 'average'].dtype), str(ref.np_dtype(dt)), 'average dtype')
  if pre:
    model.avg = 0.
  else:
    m1 = Ema(decay, debias, warm)
    model.avg = m1.call(ref.f64(v0), True)  # state first set during init
  check_state(model, state, 'after init')
  app = jax.jit(t.apply, static_argnums=(3,)) if mon.chance(0.2) else t.apply
  hist = []
  for _ in range(mon.randint(1, 4)):
    k = mon.randint(1, 3)
    ops = tuple(mon.pick('default', 'update', 'frozen', 'read') for _ in range(k))
    vals = [ref.arr(mon, shape, dt, 2.) for _ in range(k)]
    prev = state
    out, state = app(params, state, None, ops, vals)
    want = []
    for op, v in zip(ops, vals):
      if model.w and model.c < 0 and op in ('default', 'update'):
        mon.ev('ema_warmup')
      want.append(np.broadcast_to(model.avg, shape) if op == 'read'
                  else model.call(ref.f64(v), op != 'frozen'))
      mon.ev('ema_calls' if op in ('default', 'update') else 'ema_frozen')
    hist.append(ops)
    for o, w in zip(out, want):
      mon.close(ref.f64(o), w, 'moving average', cfg=(decay, debias, warm), hist=hist, **tol)
      mon.eq(str(o.dtype), str(ref.np_dtype(dt)), 'dtype')
    check_state(model, state, 'after apply')
    if not any(o in ('default', 'update') for o in ops):
      mon.tree_same(state, prev, 'a non-updating call changed the state')
  mon.nontrivial('ema', decay, debias, warm, shape, dt, pre, tuple(hist))
  mon.sample(dict(decay=decay, debias=debias, warmup=warm, history=hist))


def rand_tree(mon, matrix_only=False):
  names = ['linear', 'linear_1', 'mlp/~/linear_0', 'mlp/~/linear_1', 'a/b/c', 'conv2_d', 'a_b/c_1',
           'block/~init/lin', 'x1']
  tree = {}
  for m in mon.py.sample(names, mon.randint(1, 4)):
    tree[m] = {}
    for n in mon.py.sample(['w', 'b', 'scale', 'offset', 'w_1'], mon.randint(1, 3)):
      nd = mon.randint(2, 4) if matrix_only else mon.randint(0, 3)
      tree[m][n] = mon.normal(tuple(mon.randint(1, 3) for _ in range(nd)))
  return tree


def pick_regex(mon, tree):
  keys = [f'{m}/{n}' for m in tree for n in tree[m]]
  k = mon.pick(keys)
  return mon.pick(['', '.*/b$', '.*w', '[^?!.]*b', re.escape(k), k.split('/')[0], 'w', '.*/~.*',
                   'nothing_here', f'{re.escape(k)}$'])


def ema_tree(mon):
  decay, debias, warm, kw = ema_cfg(mon)
  tree = rand_tree(mon)
  rx = pick_regex(mon, tree)
  if rx or mon.chance(0.5):
    kw['ignore_regex'] = rx
  t = hk.transform_with_state(
      lambda tr, up: hk.EMAParamsTree(decay, **kw)(tr, **({} if up is None else dict(update_stats=up))))
  as_in = (lambda x: hk.data_structures.to_immutable_dict(x)) if mon.chance(0.5) else (lambda x: x)
  params, state = t.init(None, as_in(tree), None)
  models = {}
  for (m, n), v in two_level(tree).items():
    if rx and re.match(rx, f'{m}/{n}'):
      mon.ev('ignored_leaves')
    else:
      models[m, n] = Ema(decay, debias, warm)
  mon.eq(len(dict(state)), len(models), 'one average per tracked parameter', rx=rx, tree=list(two_level(tree)))
  hist = []
  for _ in range(mon.randint(1, 5)):
    tree = {m: {n: mon.normal(v.shape, 2.) for n, v in b.items()} for m, b in tree.items()}
    snap = {k: v.copy() for k, v in two_level(tree).items()}
    up = mon.pick(None, None, True, False)
    hist.append(up)
    prev = state
    out, state = t.apply(params, state, None, as_in(tree), up)
    got = two_level(out)
    mon.eq(sorted(got), sorted(snap), 'the averaged tree has the entries of its input')
    for k, v in snap.items():
      want = models[k].call(v.astype(np.float64), up is not False) if k in models else v
      mon.close(got[k], want, 'EMAParamsTree', key=k, cfg=(decay, debias, warm, rx), hist=hist)
    mon.tree_same(tree, _nest(snap), 'the input tree was changed')
    if up is False:
      mon.tree_same(state, prev, 'a non-updating call changed the state')
  mon.ev('ema_tree')
  mon.nontrivial('ematree', decay, debias, warm, rx, sorted(snap), tuple(hist))


def _nest(flat):
  out = {}
  for (m, n), v in flat.items():
    out.setdefault(m, {})[n] = v
  return out


def l2n(x, eps):
  return x / np.sqrt((x * x).sum() + eps)


class Sn:
  def __init__(self, eps, n, u0):
    self.eps, self.n, self.u, self.sigma = eps, n, u0, None

  def call(self, value, update):
    mat = value.reshape(-1, value.shape[-1])
    u = self.u
    for _ in range(self.n):
      v = l2n(u @ mat.T, self.eps)
      u = l2n(v @ mat, self.eps)
    sigma = float((v @ mat @ u.T)[0, 0])
    if update:
      self.u, self.sigma = u, sigma
    return value / sigma


def sn(mon):
  n = mon.pick(1, 1, 2, 3, 8)
  eps = mon.pick(None, 1e-4, 1e-6, 1e-2)
  kw = {}
  if eps is not None:
    kw['eps'] = eps
  eps = eps or 1e-4
  if n != 1 or mon.chance(0.5):
    kw['n_steps'] = n
  shape = tuple(mon.randint(1, 4) for _ in range(mon.randint(2, 4)))
  def fn(ops, vals):
    m = hk.SpectralNorm(**kw)
    return [m(v) if op == 'default' else m(v, update_stats=op == 'update')
            for op, v in zip(ops, vals)], m.sigma, m.u0
  t = hk.transform_with_state(fn)
  base = mon.normal(shape, 1.) + 0.5
  params, state = t.init(jax.random.PRNGKey(mon.randint(0, 99)), ('default',), [base])
  s = two_level(state)
  mon.eq(sorted(s), [('spectral_norm', 'sigma'), ('spectral_norm', 'u0')], 'state of SpectralNorm')
  mon.eq(tuple(s['spectral_norm', 'u0'].shape), (1, shape[-1]), 'shape of u0')
  u0 = mon.normal((1, shape[-1])) + 0.1  # the harness picks the starting vector
  sig0 = float(s['spectral_norm', 'sigma'])
  state = {'spectral_norm': {'u0': u0, 'sigma': np.float32(sig0)}}
  model = Sn(eps, n, u0.astype(np.float64))
  model.sigma = sig0
  hist = []
  for _ in range(mon.randint(1, 4)):
    ops = tuple(mon.pick('default', 'update', 'frozen') for _ in range(mon.randint(1, 2)))
    vals = [(base + mon.normal(shape, 0.1)).astype(np.float32) for _ in ops]
    prev = state
    (outs, sig, u), state = t.apply(params, state, None, ops, vals)
    hist.append(ops)
    for op, v, o in zip(ops, vals, outs):
      want = model.call(v.astype(np.float64), op != 'frozen')
      if np.abs(want).max() < 1e3:
        mon.close(o, want, 'spectrally normalised value', rtol=3e-3, atol=3e-3, cfg=(n, eps, shape), hist=hist)
      mon.ev('sn_calls' if op != 'frozen' else 'sn_frozen')
    st = two_level(state)
    mon.close(st['spectral_norm', 'u0'], model.u, 'u0', rtol=3e-3, atol=3e-3)
    mon.close(st['spectral_norm', 'sigma'], model.sigma, 'sigma', rtol=3e-3, atol=3e-3)
    mon.close(sig, model.sigma, 'SpectralNorm.sigma', rtol=3e-3, atol=3e-3)
    mon.same(u, st['spectral_norm', 'u0'], 'SpectralNorm.u0')
    if all(o == 'frozen' for o in ops):
      mon.tree_same(state, prev, 'a non-updating call changed the state')
  mon.nontrivial('sn', n, eps, shape, tuple(hist))


def sn_converges(mon):
  """Many steps: the largest singular value of the (flattened) result is 1."""
  shape = tuple(mon.randint(2, 4) for _ in range(mon.randint(2, 4)))
  c = shape[-1]
  r = int(np.prod(shape[:-1]))
  q1, _ = np.linalg.qr(mon.np.standard_normal((r, r)))
  q2, _ = np.linalg.qr(mon.np.standard_normal((c, c)))
  sv = np.array([mon.pick(0.5, 3., 10.)] + [0.2] * (min(r, c) - 1))
  mat = (q1[:, :len(sv)] * sv) @ q2[:len(sv)]
  w = mat.reshape(shape).astype(np.float32)
  k = mon.randint(3, 6)
  f = hk.transform_with_state(lambda w: hk.SpectralNorm(n_steps=k, eps=1e-8)(w))
  p, s = f.init(jax.random.PRNGKey(mon.index), w)
  for _ in range(5):
    out, s = f.apply(p, s, None, w)
  top = np.linalg.svd(np.asarray(out, np.float64).reshape(-1, c), compute_uv=False)[0]
  mon.close(top, 1., 'largest singular value after convergence', rtol=5e-3, atol=5e-3, shape=shape)
  mon.close(two_level(s)['spectral_norm', 'sigma'], sv[0], 'sigma after convergence', rtol=5e-3, atol=5e-3)
  # gradient treats the singular vectors as constants
  g = jax.grad(lambda w: jnp.sum(f.apply(p, s, None, w)[0]))(w)
  u, _, vt = np.linalg.svd(mat)
  outer = np.outer(u[:, 0], vt[0])
  want = np.ones((r, c)) / sv[0] - (mat.sum() / sv[0] ** 2) * outer
  mon.close(np.asarray(g).reshape(r, c), want, 'gradient through SpectralNorm', rtol=2e-2, atol=2e-2,
            shape=shape)
  mon.ev('sn_converged')
  mon.nontrivial('svd', shape, k, sv[0])


def sn_tree(mon):
  n, eps = mon.pick(1, 2), mon.pick(1e-4, 1e-2)
  tree = rand_tree(mon, matrix_only=True)
  rx = pick_regex(mon, tree)
  if mon.chance(0.4):  # vectors are only legal when ignored
    m = mon.pick(sorted(tree))
    tree[m]['vec'] = mon.normal((3,))
    rx = rx and f'(?:{rx}|.*/vec)' or '.*/vec'
  t = hk.transform_with_state(
      lambda tr, up: hk.SNParamsTree(eps=eps, n_steps=n, **({'ignore_regex': rx} if rx else {}))(
          tr, **({} if up is None else dict(update_stats=up))))
  params, state = t.init(jax.random.PRNGKey(1), tree, None)
  tracked = [(m, k) for (m, k) in two_level(tree) if not (rx and re.match(rx, f'{m}/{k}'))]
  mon.ev('ignored_leaves', len(two_level(tree)) - len(tracked))
  mon.eq(len(dict(state)), len(tracked), 'one spectral norm per tracked parameter', rx=rx, tree=list(two_level(tree)))
  hist = []
  for _ in range(mon.randint(1, 3)):
    up = mon.pick(None, True, False)
    hist.append(up)
    prev = two_level(state)
    new = {m: {k: (v + mon.normal(v.shape, 0.1)).astype(np.float32) for k, v in b.items()} for m, b in tree.items()}
    out, state = t.apply(params, state, None, new, up)
    got, st = two_level(out), two_level(state)
    mon.eq(sorted(got), sorted(two_level(new)), 'entries of the normalised tree')
    us = [k for k in prev if k[1] == 'u0']
    used = set()
    for k, v in two_level(new).items():
      if k not in tracked:
        mon.same(got[k], v, 'ignored parameters pass through', key=k, rx=rx)
        continue
      # The entry for this parameter is whichever state slot explains the output; each only once.
      hit = None
      for u in us:
        if u in used or prev[u].shape != (1, v.shape[-1]):
          continue
        mod = Sn(eps, n, ref.f64(prev[u]))
        want = mod.call(v.astype(np.float64), True)
        # relative to the size of the entries: sigma may be small
        if np.allclose(got[k], want, rtol=1e-2, atol=1e-2 * np.abs(want).max() + 1e-6):
          hit = u
          unew = mod.u if up is not False else ref.f64(prev[u])
          if np.allclose(st[u], unew, rtol=1e-2, atol=1e-2):
            break
      mon.check(hit is not None, 'no running vector explains the normalised parameter', key=k)
      used.add(hit)
      mon.close(st[hit], unew, 'updated u0', rtol=1e-2, atol=1e-2, key=k, up=up)
    if up is False:
      mon.tree_same(state, _nest(prev), 'a non-updating call changed the state')
  mon.ev('sn_tree')
  mon.nontrivial('sntree', n, eps, rx, sorted(two_level(tree)), tuple(hist))


def misuse(mon):
  cases = [
      lambda: hk.ExponentialMovingAverage(0.9, warmup_length=-1),
      lambda: hk.ExponentialMovingAverage(0.9, warmup_length=2),
      lambda: hk.ExponentialMovingAverage(0.9, zero_debias=True, warmup_length=1),
      lambda: hk.SpectralNorm()(jnp.ones([])),
      lambda: hk.SpectralNorm()(jnp.ones([3])),
      lambda: hk.SpectralNorm()(jnp.ones([2, 3, 4]), error_on_non_matrix=True),
      lambda: hk.SNParamsTree()({'a': {'b': jnp.ones([3])}}),
  ]
  f = cases[mon.index % len(cases)]
  mon.raises(ValueError, lambda: hk.transform_with_state(f).init(jax.random.PRNGKey(0)),
             'misuse of averages', case=mon.index % len(cases))
  mon.ev('rejected')
  mon.nontrivial('misuse', mon.index % len(cases))


SCENARIOS = {
    'ema': (ema, 150, 4000),
    'ema_tree': (ema_tree, 60, 1500),
    'sn': (sn, 90, 2000),
    'sn_converges': (sn_converges, 24, 300),
    'sn_tree': (sn_tree, 48, 1000),
    'misuse': (misuse, 14, 28),
}
