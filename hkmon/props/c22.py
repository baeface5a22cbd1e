"""C22: vector quantisation."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('Random histories of training and evaluation calls of VectorQuantizer and '
        'VectorQuantizerEMA (random codebooks, ranks, replicas under a mapped axis), every returned '
        'entry, the gradients and the evolving codebook judged against a float64 model. '
        'Non-trivial: >=2 codes; distinct by configuration and history.')
REQUIRED = {'vq': 50, 'ema_train': 80, 'ema_eval': 40, 'gradients': 50, 'replicas': 12, 'rejected': 4}
ASSUMPTIONS = ['inputs are not numerically equidistant from two codes (such inputs are resampled)']


def gap_ok(flat, emb):
  d = ((flat[:, :, None] - emb[None]) ** 2).sum(1)
  s = np.sort(d, 1)
  return s.shape[1] < 2 or np.all(s[:, 1] - s[:, 0] > 1e-3 * (1 + s[:, 0]))


def inputs(mon, shape, emb):
  for _ in range(60):
    x = mon.normal(shape)
    if gap_ok(x.reshape(-1, shape[-1]).astype(np.float64), emb):
      return x
  # One input sitting near a code is always decided.
  i = mon.randint(0, emb.shape[1] - 1)
  return np.broadcast_to(emb[:, i], shape).astype(np.float32) + 0


def encode(x, emb):
  flat = x.reshape(-1, emb.shape[0]).astype(np.float64)
  d = ((flat[:, :, None] - emb[None]) ** 2).sum(1)
  idx = d.argmin(1)
  onehot = np.eye(emb.shape[1])[idx]
  return flat, d, idx, onehot


def perplexity(onehot):
  pr = onehot.mean(0)
  return np.exp(-np.sum(pr * np.log(pr + 1e-10)))


def check_out(mon, out, x, emb, loss, perp, **ctx):
  flat, d, idx, onehot = encode(x, emb)
  mon.check({'quantize', 'loss', 'perplexity', 'encodings', 'encoding_indices'} <= set(out),
            'returned entries', got=sorted(out))
  tol = dict(rtol=2e-3, atol=2e-3)
  mon.eq(tuple(out['encoding_indices'].shape), x.shape[:-1], 'shape of the indices', **ctx)
  mon.same(np.asarray(out['encoding_indices']).astype(np.int64), idx.reshape(x.shape[:-1]),
           'every input is mapped to its nearest code', **ctx)
  mon.close(out['encodings'], onehot, 'one-hot encodings', **ctx)
  mon.close(out['quantize'], emb.T[idx].reshape(x.shape), 'quantised values', **tol, **ctx)
  mon.eq(str(out['quantize'].dtype), 'float32', 'dtype')
  mon.close(out['loss'], loss, 'loss', **tol, **ctx)
  mon.close(out['perplexity'], perp, 'perplexity', **tol, **ctx)


def other_gradients(mon, out_fn, x, emb, params=None):
  """distances are differentiable (in inputs and codes); encodings and perplexity are constant."""
  d, n = emb.shape
  flat = x.reshape(-1, d).astype(np.float64)
  w = mon.normal((flat.shape[0], n)).astype(np.float32)
  diff = flat[:, :, None] - emb[None]
  tol = dict(rtol=3e-3, atol=3e-3)
  g = jax.grad(lambda v: jnp.sum(w * out_fn(v, params)['distances']))(jnp.asarray(x))
  mon.close(g, (2 * np.einsum('bn,bdn->bd', w, diff)).reshape(x.shape), 'gradient of the distances', **tol)
  if params is not None:
    g = jax.grad(lambda pp: jnp.sum(w * out_fn(x, pp)['distances']))(params)
    mon.close(two_level(g)['vector_quantizer', 'embeddings'], -2 * np.einsum('bn,bdn->dn', w, diff),
              'gradient of the distances to the codes', **tol)
  g = jax.grad(lambda v: jnp.sum(w * out_fn(v, params)['encodings']) + out_fn(v, params)['perplexity'])(
      jnp.asarray(x))
  mon.close(g, np.zeros(x.shape), 'encodings and perplexity are piecewise constant')
  mon.ev('distance_gradients')


def config(mon):
  d, n = mon.randint(1, 4), mon.randint(1, 6)
  lead = tuple(mon.randint(1, 4) for _ in range(mon.randint(1, 3)))
  return d, n, lead, mon.pick(0.25, 1., 2., 0.)


def vq(mon):
  d, n, lead, beta = config(mon)
  shape = lead + (d,)
  train = mon.chance(0.5)
  f = hk.transform_with_state(lambda x: hk.nets.VectorQuantizer(d, n, beta)(x, train))
  p, s = f.init(jax.random.PRNGKey(0), np.zeros(shape, np.float32))
  mon.eq({k: tuple(v.shape) for k, v in two_level(p).items()}, {('vector_quantizer', 'embeddings'): (d, n)},
         'parameters')
  mon.eq(dict(s), {}, 'state')
  mon.check(np.abs(two_level(p)['vector_quantizer', 'embeddings']).max() <= np.sqrt(3 / d) * 1.0001,
            'initial codebook scale')
  emb = mon.normal((d, n))
  p = {'vector_quantizer': {'embeddings': mon.pick(jnp.asarray, np.asarray)(emb)}}
  emb = emb.astype(np.float64)
  x = inputs(mon, shape, emb)
  flat, _, idx, onehot = encode(x, emb)
  q = emb.T[idx]
  loss = (1 + beta) * np.mean((q - flat) ** 2)
  run = jax.jit(f.apply) if mon.chance(0.2) else f.apply
  out, _ = run(p, {}, None, jnp.asarray(x))
  check_out(mon, out, x, emb, loss, perplexity(onehot), cfg=(d, n, lead, beta))
  # Gradients: straight-through for `quantize`, both loss terms for `loss`.
  w = mon.normal(shape)
  g = jax.grad(lambda v: jnp.sum(w * f.apply(p, {}, None, v)[0]['quantize']))(jnp.asarray(x))
  mon.close(g, w, 'straight-through gradient')
  gp = jax.grad(lambda pp: jnp.sum(w * f.apply(pp, {}, None, x)[0]['quantize']))(
      jax.tree_util.tree_map(jnp.asarray, p))
  mon.close(two_level(gp)['vector_quantizer', 'embeddings'], np.zeros((d, n)), 'quantize passes no gradient to the codes')
  gx, ge = jax.grad(lambda v, pp: f.apply(pp, {}, None, v)[0]['loss'], (0, 1))(
      jnp.asarray(x), jax.tree_util.tree_map(jnp.asarray, p))
  tol = dict(rtol=2e-3, atol=2e-3)
  mon.close(gx, (2 * beta * (flat - q) / flat.size).reshape(shape), 'gradient of the commitment loss', **tol)
  mon.close(two_level(ge)['vector_quantizer', 'embeddings'], (2 * (q - flat) / flat.size).T @ onehot,
            'gradient of the codebook loss', **tol)
  other_gradients(mon, lambda v, pp: f.apply(pp, {}, None, v)[0], x, emb, jax.tree_util.tree_map(jnp.asarray, p))
  # quantize() looks codes up
  ids = mon.np.integers(0, n, (2, 3))
  lk, _ = hk.transform_with_state(lambda i: hk.nets.VectorQuantizer(d, n, beta).quantize(i)).apply(p, {}, None, ids)
  mon.close(lk, emb.T[ids], 'quantize')
  mon.ev('vq')
  mon.ev('gradients')
  mon.nontrivial('vq', d, n, lead, beta)


class Ema:
  def __init__(self, emb, decay, eps):
    self.emb, self.d, self.eps, self.c = emb, decay, eps, 0
    self.h = [0., 0.]

  def train(self, cluster, dw):
    self.c += 1
    avg = []
    for i, v in enumerate((cluster, dw)):
      self.h[i] = self.h[i] * self.d + v * (1 - self.d)
      avg.append(self.h[i] / (1 - self.d ** self.c))
    size, dw = avg
    n = size.sum()
    size = (size + self.eps) / (n + len(size) * self.eps) * n
    self.emb = dw / size[None]
    self.avg = avg


def vq_ema(mon):
  d, n, lead, beta = config(mon)
  decay = mon.pick(0., 0.5, 0.9, 0.99)
  eps = mon.pick(None, 1e-3, 0.5)
  kw = {} if eps is None else dict(epsilon=eps)
  eps = eps or 1e-5
  r = mon.randint(2, 3) if mon.chance(0.25) else 0
  if r:
    kw['cross_replica_axis'] = 'rep'
  f = hk.transform_with_state(lambda x, tr: hk.nets.VectorQuantizerEMA(d, n, beta, decay, **kw)(x, tr))
  shape = lead + (d,)
  mp = (lambda g: jax.vmap(g, axis_name='rep')) if r else (lambda g: g)
  full = ((r,) if r else ()) + shape
  p, s = mp(lambda x: f.init(jax.random.PRNGKey(0), x, True))(np.ones(full, np.float32))
  mon.eq(dict(p), {}, 'no parameters')
  nm = 'vector_quantizer_ema'
  cs, dwk = f'{nm}/~/ema_cluster_size', f'{nm}/~/ema_dw'
  shapes = {k: tuple(v.shape[1 if r else 0:]) for k, v in two_level(s).items()}
  mon.eq(shapes, {(nm, 'embeddings'): (d, n), (cs, 'counter'): (), (cs, 'hidden'): (n,), (cs, 'average'): (n,),
                  (dwk, 'counter'): (), (dwk, 'hidden'): (d, n), (dwk, 'average'): (d, n)}, 'state entries')
  for (m, k), v in two_level(s).items():
    if k in ('counter', 'hidden', 'average'):
      mon.close(v, np.zeros(v.shape), 'initial statistics', key=(m, k))
  emb = mon.normal((d, n))
  s = {m: dict(b) for m, b in s.items()}
  s[nm]['embeddings'] = np.broadcast_to(emb, ((r,) if r else ()) + (d, n)).copy()
  model = Ema(emb.astype(np.float64), decay, eps)
  hist = []
  for _ in range(mon.randint(2, 5)):
    tr = mon.chance(0.65)
    hist.append(tr)
    xs = np.stack([inputs(mon, shape, model.emb) for _ in range(max(r, 1))])
    if not all(gap_ok(x.reshape(-1, d).astype(np.float64), model.emb) for x in xs):
      mon.ev('ambiguous_skipped')
      break  # codes coincide: nearest code is not unique
    prev = s
    out, s = mp(lambda st, x: f.apply({}, st, None, x, tr))(s, jnp.asarray(xs if r else xs[0]))
    enc = [encode(x, model.emb) for x in xs]
    pr = np.mean([e[3].mean(0) for e in enc], 0)
    perp = np.exp(-np.sum(pr * np.log(pr + 1e-10)))
    for i, x in enumerate(xs):
      flat, _, idx, oh = enc[i]
      o = {k: np.asarray(v)[i] if r else np.asarray(v) for k, v in out.items()}
      check_out(mon, o, x, model.emb, beta * np.mean((model.emb.T[idx] - flat) ** 2), perp,
                cfg=(d, n, lead, beta, decay, eps), hist=hist)
    if tr:
      model.train(sum(e[3].sum(0) for e in enc), sum(e[0].T @ e[3] for e in enc))
      mon.ev('ema_train')
      st = {k: np.asarray(v)[0] if r else np.asarray(v) for k, v in two_level(s).items()}
      tol = dict(rtol=3e-3, atol=3e-3)
      scale = 1 + np.abs(model.emb).max()
      mon.close(st[nm, 'embeddings'] / scale, model.emb / scale, 'updated codebook', cfg=(decay, eps), hist=hist, **tol)
      mon.eq(int(st[cs, 'counter']), model.c, 'updates counted')
      mon.close(st[cs, 'average'], model.avg[0], 'cluster sizes', **tol)
      mon.close(st[dwk, 'average'], model.avg[1], 'cluster sums', **tol)
      if r:
        for k, v in two_level(s).items():
          mon.close(np.asarray(v), np.broadcast_to(np.asarray(v)[:1], v.shape), 'replicas agree', key=k)
      model.emb = st[nm, 'embeddings'].astype(np.float64)  # resynchronise rounding
    else:
      mon.tree_same(s, prev, 'evaluation changed the state', hist=hist)
      mon.ev('ema_eval')
  if r:
    mon.ev('replicas')
  else:
    x = inputs(mon, shape, model.emb)
    w = mon.normal(shape)
    if gap_ok(x.reshape(-1, d).astype(np.float64), model.emb):
      g = jax.grad(lambda v: jnp.sum(w * f.apply({}, s, None, v, True)[0]['quantize']))(jnp.asarray(x))
      mon.close(g, w, 'straight-through gradient')
      flat, _, idx, _ = encode(x, model.emb)
      g = jax.grad(lambda v: f.apply({}, s, None, v, False)[0]['loss'])(jnp.asarray(x))
      mon.close(g, (2 * beta * (flat - model.emb.T[idx]) / flat.size).reshape(shape),
                'gradient of the commitment loss', rtol=3e-3, atol=3e-3)
      mon.ev('gradients')
      train = mon.chance(0.5)
      other_gradients(mon, lambda v, _: f.apply({}, s, None, v, train)[0], x, np.asarray(model.emb, np.float64))
  mon.nontrivial('ema', d, n, lead, decay, eps, r, tuple(hist))
  mon.sample(dict(d=d, n=n, decay=decay, replicas=r, history=hist))


def misuse(mon):
  bad = mon.pick(-0.1, 1.5, 2)
  mon.raises(ValueError, lambda: hk.transform_with_state(
      lambda: hk.nets.VectorQuantizerEMA(2, 3, 1., bad)).init(jax.random.PRNGKey(0)), 'decay outside [0, 1]')
  mon.ev('rejected')
  mon.nontrivial('misuse', bad)


SCENARIOS = {
    'vq': (vq, 72, 1500),
    'vq_ema': (vq_ema, 90, 2000),
    'misuse': (misuse, 8, 16),
}
