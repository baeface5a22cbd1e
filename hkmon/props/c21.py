"""C21: multi-head attention."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('Random self- and cross-attention problems (heads, sizes, lengths, masks of every '
        'broadcastable shape and dtype, precisions, huge logits) against a head-by-head float64 '
        'computation, plus metamorphic monitors on the same executions: no influence of masked '
        'positions, permutation equivariance, batch independence, causality. Non-trivial: >=2 '
        'heads or a mask; distinct by configuration.')
REQUIRED = {'attention': 150, 'masked': 60, 'cross': 50, 'metamorphic': 60, 'low_precision_masks': 15, 'empty_batches': 4,
            'multi_head': 80}
ASSUMPTIONS = ['query_size equals key_size (otherwise dot products are undefined)',
               'masks are 0/1 and leave at least one position per query visible']


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def attend(p, nm, q, k, v, mask, heads, ks, vs):
  lin = lambda x, n: x @ p[f'{nm}/{n}', 'w'] + p[f'{nm}/{n}', 'b']
  qh, kh, vh = lin(q, 'query'), lin(k, 'key'), lin(v, 'value')
  outs = []
  for h in range(heads):
    qq, kk, vv = (t[..., h * s:(h + 1) * s] for t, s in ((qh, ks), (kh, ks), (vh, vs)))
    lg = np.einsum('btd,bsd->bts', qq, kk) / np.sqrt(ks)
    if mask is not None:
      lg = np.where(mask[:, h if mask.shape[1] > 1 else 0] > 0.5, lg, -np.inf)
    outs.append(np.einsum('bts,bsd->btd', softmax(lg), vv))
  return lin(np.concatenate(outs, -1), 'linear')


def setup(mon, dt, self_att=None, empty=False):
  c = dict(b=0 if empty else mon.randint(1, 3), t=mon.randint(1, 4), h=mon.randint(1, 3), ks=mon.randint(1, 4))
  self_att = mon.chance(0.4) if self_att is None else self_att
  c['self'] = self_att
  c['s'] = c['t'] if self_att else mon.randint(1, 5)
  c['vs'] = mon.pick(None, mon.randint(1, 4))
  c['ms'] = mon.pick(None, mon.randint(1, 6))
  kw = {}
  if mon.chance(0.3):
    kw['query_size'] = c['ks']
  if c['vs'] is not None:
    kw['value_size'] = c['vs']
  if c['ms'] is not None:
    kw['model_size'] = c['ms']
  dq, dk, dv = (mon.randint(1, 4) for _ in range(3))
  q = ref.arr(mon, (c['b'], c['t'], dq), dt)
  if self_att:
    k = v = q
    dk = dv = dq
  else:
    k = ref.arr(mon, (c['b'], c['s'], dk), dt)
    v = ref.arr(mon, (c['b'], c['s'], dv), dt)
  c['kw'] = kw
  vs, ms = c['vs'] or c['ks'], c['ms'] or c['ks'] * c['h']
  c.update(vs=vs, ms=ms)
  nm = 'multi_head_attention'
  want = {}
  for n, (i, o) in dict(query=(dq, c['h'] * c['ks']), key=(dk, c['h'] * c['ks']),
                        value=(dv, c['h'] * vs), linear=(c['h'] * vs, ms)).items():
    want[f'{nm}/{n}', 'w'] = ((i, o), dt)
    want[f'{nm}/{n}', 'b'] = ((o,), dt)
  return c, q, k, v, want, nm


def rand_mask(mon, c, dt):
  sh = (mon.pick(1, c['b']), mon.pick(1, c['h']), mon.pick(1, c['t']), c['s'])
  m = mon.np.random(sh) < 0.6
  if c['self'] and mon.chance(0.4):
    m = np.tril(np.ones((1, 1, c['t'], c['t']), bool))
  j = mon.np.integers(0, c['s'], m.shape[:-1])
  np.put_along_axis(m, j[..., None], True, -1)
  mdt = mon.pick(dt, dt, 'bool', 'float32' if dt == 'float32' else dt, 'int32')
  return m, jnp.asarray(m.astype(ref.np_dtype(mdt))), mdt


def attention(mon):
  dt = ref.dtype(mon, 0.3)
  empty = mon.chance(0.06)
  c, q, k, v, want, nm = setup(mon, dt, empty=empty)
  mask = arg = None
  if mon.chance(0.6):
    mask, arg, mdt = rand_mask(mon, c, dt)
    mon.ev('masked')
    mon.ev('low_precision_masks', int(dt != 'float32'))
    c['mask'] = (mask.shape, mdt)
  wis = mon.pick(0.5, 1., 2.)
  form = mon.pick('pos', 'kw')
  def fn(q, k, v):
    m = hk.MultiHeadAttention(c['h'], c['ks'], wis, **c['kw'])
    if form == 'kw':
      return m(query=q, key=k, value=v, **({} if arg is None else dict(mask=arg)))
    return m(q, k, v) if arg is None else m(q, k, v, arg)
  big = dt == 'float32' and mon.chance(0.2)
  r = ref.Run(mon, fn, (jnp.asarray(q), jnp.asarray(k), jnp.asarray(v)), want_params=want,
              scale=6. if big else 0.7)
  for (m, n), w in two_level(r.init_params).items():
    if n == 'b':
      mon.close(ref.f64(w), np.zeros(w.shape), 'biases start at zero')
    elif dt == 'float32':
      lim = 2 * np.sqrt(wis / w.shape[0]) / 0.8796
      mon.check(np.abs(w).max() <= lim * 1.001, 'scale of the initial projections', m=m)
  m4 = None if mask is None else np.broadcast_to(mask, (c['b'], mask.shape[1], c['t'], c['s']))
  y = attend(r.p, nm, ref.f64(q), ref.f64(k), ref.f64(v), m4, c['h'], c['ks'], c['vs'])
  got = r()
  mon.eq(tuple(got.shape), (c['b'], c['t'], c['ms']), 'output shape', cfg=c)
  tol = dict(float32=2e-2 if big else 1e-3, float16=5e-2, bfloat16=3e-1)[dt]
  mon.eq(str(got.dtype), str(ref.np_dtype(dt)), 'output dtype', cfg=c)
  mon.close(ref.f64(got), y, 'MultiHeadAttention', rtol=tol, atol=tol, cfg=c)
  mon.ev('attention')
  mon.ev('empty_batches', int(empty))
  mon.ev('cross', int(not c['self']))
  mon.ev('multi_head', int(c['h'] > 1))
  if c['h'] > 1 or mask is not None:
    mon.nontrivial(*(c[x] for x in ('b', 't', 's', 'h', 'ks', 'vs', 'ms', 'self')), dt, c.get('mask'))
  mon.sample(c)


def metamorphic(mon):
  c, q, k, v, want, nm = setup(mon, 'float32', self_att=False)
  mask, arg, _ = rand_mask(mon, c, 'float32')
  f = hk.transform(lambda q, k, v, m: hk.MultiHeadAttention(c['h'], c['ks'], 1., **c['kw'])(q, k, v, m))
  p = f.init(jax.random.PRNGKey(0), q, k, v, arg)
  p = {m: {n: mon.normal(w.shape) for n, w in b.items()} for m, b in p.items()}
  run = lambda q, k, v, m: np.asarray(f.apply(p, None, q, k, v, m))
  y = run(q, k, v, arg)
  full = np.broadcast_to(mask, (c['b'], c['h'], c['t'], c['s']))
  # 1. positions masked for every query of a batch element do not matter
  dead = ~full.any((1, 2))
  k2, v2 = k.copy(), v.copy()
  k2[dead] = mon.normal((int(dead.sum()), k.shape[-1]), 10.)
  v2[dead] = mon.normal((int(dead.sum()), v.shape[-1]), 10.)
  mon.close(run(q, k2, v2, arg), y, 'masked positions influence the result', cfg=c)
  # 2. permuting key positions (with the mask) changes nothing
  perm = mon.np.permutation(c['s'])
  mon.close(run(q, k[:, perm], v[:, perm], jnp.asarray(mask[..., perm].astype(np.float32))), y,
            'order of the key positions matters', cfg=c, rtol=1e-3, atol=1e-3)
  # 3. each query position and batch element is computed independently
  b, t = mon.randint(0, c['b'] - 1), mon.randint(0, c['t'] - 1)
  q2 = mon.normal(q.shape, 5.)
  q2[b, t] = q[b, t]
  k3, v3 = mon.normal(k.shape), mon.normal(v.shape)
  k3[b], v3[b] = k[b], v[b]
  mon.close(run(q2, k3, v3, arg)[b, t], y[b, t], 'other queries or batch elements matter', cfg=c,
            rtol=1e-3, atol=1e-3)
  # 4. no mask and an all-ones mask agree
  mon.close(np.asarray(f.apply(p, None, q, k, v, None)), run(q, k, v, jnp.ones_like(arg)),
            'an all-ones mask changes the result', cfg=c)
  mon.ev('metamorphic')
  mon.nontrivial('meta', c['b'], c['t'], c['s'], c['h'], mask.shape)


SCENARIOS = {
    'attention': (attention, 200, 5000),
    'metamorphic': (metamorphic, 72, 1500),
}
