"""C14: dense, reshaping, embedding and stochastic building blocks."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('Random shapes (ranks 1-5, size-1 and zero-size dims), dtypes, options and parameter '
        'values; each layer output is compared with an independent float64 NumPy computation, '
        'parameter names/shapes/dtypes with the documented ones; random layers are decided by '
        'exact per-element laws plus 6-sigma frequency bounds. Non-trivial: rank>=2 or a '
        'non-default option; distinct by options and shapes.')
REQUIRED = {'many_samples': 2 ** 24, 'layer_runs': 250, 'dropout_elems': 20000, 'samples_drawn': 20000, 'rejected': 60,
            'merged': 40, 'embedded': 40}
ASSUMPTIONS = ['float32 tolerance 3e-4, half precision 3e-2..1e-1 against float64']


def shape(mon, lo, hi, zero=0.05, mx=5):
  s = [mon.randint(1, mx) for _ in range(mon.randint(lo, hi))]
  if s and mon.chance(zero):
    s[mon.randint(0, len(s) - 1)] = 0
  return tuple(s)


def linear(mon):
  s = shape(mon, 1, 5, zero=0)
  if len(s) > 1 and mon.chance(0.08):
    s = (0,) + s[1:]
  n, bias, dt = mon.randint(1, 6), mon.chance(0.6), ref.dtype(mon)
  x = ref.arr(mon, s, dt)
  kw = {}
  if mon.chance(0.3):
    kw['w_init'] = hk.initializers.Constant(0.25)
  if bias and mon.chance(0.3):
    kw['b_init'] = hk.initializers.Constant(2.)
  want = {('linear', 'w'): ((s[-1], n), dt)}
  if bias:
    want['linear', 'b'] = ((n,), dt)
  r = ref.Run(mon, lambda x: hk.Linear(n, with_bias=bias, **kw)(x), (x,), rng=mon.randint(0, 99),
              want_params=want)
  ip = two_level(r.init_params)
  if 'w_init' in kw:
    mon.check((np.asarray(ip['linear', 'w']).astype(float) == 0.25).all(), 'w_init ignored')
  elif dt == 'float32':
    w = ref.f64(ip['linear', 'w'])
    mon.check(np.abs(w).max() <= 2.0001 / np.sqrt(s[-1]), 'default w_init out of range', w=w)
  if bias:
    mon.check((np.asarray(ip['linear', 'b']).astype(float) == (2. if 'b_init' in kw else 0.)).all(),
              'initial bias')
  y = ref.f64(x) @ r.p['linear', 'w']
  if bias:
    y = y + r.p['linear', 'b']
  ref.check(mon, r(), y, dt, 'Linear', k=np.sqrt(s[-1]), shape=s)
  mon.nontrivial(s, n, bias, dt, sorted(kw))
  if mon.chance(0.1):
    mon.raises(ValueError, lambda: hk.transform(lambda x: hk.Linear(2)(x)).init(
        jax.random.PRNGKey(0), np.float32(3)), 'scalar input to Linear')
    mon.ev('rejected')


def bias(mon):
  s = shape(mon, 2, 5, zero=0)
  dt = ref.dtype(mon)
  rank = len(s)
  kind = mon.pick('none', 'empty', 'dims', 'dims', 'dims', 'bad')
  if kind == 'none':
    dims = None
  elif kind == 'empty':
    dims = mon.pick([], ())
  elif kind == 'bad':
    dims = mon.pick([0], [-rank], [1, 0], [rank], [rank + 2])
  else:
    dims = [d if mon.chance(0.5) else d - rank
            for d in mon.py.sample(range(1, rank), mon.randint(1, rank - 1))]
  x = ref.arr(mon, s, dt)
  mult = mon.pick(None, None, -1, 2.5)
  osize = mon.pick(None, None, s[1:], list(s[1:]))
  fn = lambda x: hk.Bias(bias_dims=dims, output_size=osize)(
      x, **({} if mult is None else dict(multiplier=mult)))
  if kind == 'bad':
    mon.raises(ValueError, lambda: hk.transform(fn).init(None, x), 'bad bias_dims', dims=dims)
    mon.ev('rejected')
    return
  keep = range(1, rank) if dims is None else [d % rank for d in dims]
  full = [s[d] if d in keep else 1 for d in range(rank)]
  bshape = tuple(full[1:])
  if dims is not None:
    while bshape and bshape[0] == 1:
      bshape = bshape[1:]
  r = ref.Run(mon, fn, (x,), want_params={('bias', 'b'): (bshape, dt)})
  b = np.broadcast_to(r.p['bias', 'b'].reshape(full), s)
  ref.check(mon, r(), ref.f64(x) + b * (1 if mult is None else mult), dt, 'Bias', dims=dims)
  if osize is not None:
    bad = type(osize)(s[1:-1] + (s[-1] + 1,))
    mon.raises(ValueError, lambda: hk.transform(
        lambda x: hk.Bias(output_size=bad)(x)).init(None, x), 'wrong output_size')
    mon.ev('rejected')
  mon.nontrivial(s, dims, mult, dt)


def reshape(mon):
  s = shape(mon, 1, 5, zero=0)
  x = mon.np.permutation(int(np.prod(s))).reshape(s).astype(np.float32)
  pd = mon.randint(1, 4)
  if mon.chance(0.4):
    out = hk.transform(lambda x: hk.Flatten(preserve_dims=pd)(x)).apply({}, None, x)
    want = x if x.ndim <= pd else x.reshape(s[:pd] + (-1,))
    mon.same(out, want, 'Flatten', shape=s, preserve=pd)
    mon.nontrivial('flatten', s, pd)
  else:
    # factor the remaining size into a random shape
    rest = int(np.prod(s[pd:])) if len(s) > pd else 1
    dims, left = [], rest
    for _ in range(mon.randint(0, 3)):
      divs = [d for d in range(1, left + 1) if left % d == 0]
      d = mon.pick(divs)
      dims.append(d)
      left //= d
    dims.append(left)
    mon.py.shuffle(dims)
    target = list(dims)
    if mon.chance(0.6):
      target[mon.randint(0, len(target) - 1)] = -1
    target = tuple(target) if mon.chance(0.5) else target
    out = hk.transform(lambda x: hk.Reshape(target, preserve_dims=pd)(x)).apply({}, None, x)
    want = x if x.ndim <= pd else x.reshape(s[:pd] + tuple(dims))
    mon.same(out, want, 'Reshape', shape=s, preserve=pd, target=target)
    mon.nontrivial('reshape', s, pd, list(target))
  mon.ev('layer_runs')
  if mon.chance(0.2):
    f = mon.pick(lambda: hk.Reshape((2,), preserve_dims=0), lambda: hk.Reshape((-1, -1)),
                 lambda: hk.Flatten(preserve_dims=-1))
    mon.raises(ValueError, lambda: hk.transform(f).init(None), 'bad Reshape arguments')
    mon.ev('rejected')


def sequential(mon):
  """First layer gets the extra arguments; outputs are threaded in order."""
  n = mon.randint(0, 5)
  trace = []

  def mk(i):
    def layer(x, *a, **k):
      trace.append((i, a, tuple(sorted(k.items()))))
      return x * (i + 2) + i
    return layer
  layers = [mk(i) for i in range(n)]
  a = tuple(range(mon.randint(0, 2))) if n else ()
  k = dict(flag=mon.randint(0, 9)) if n and mon.chance(0.5) else {}
  it = mon.pick(list, tuple, iter)
  x = mon.randint(0, 9)
  out = hk.transform(lambda x: hk.Sequential(it(layers))(x, *a, **k)).apply({}, None, x)
  want = x
  for i in range(n):
    want = want * (i + 2) + i
  mon.eq(out, want, 'Sequential result')
  mon.eq(trace, [(i, a if i == 0 else (), tuple(sorted(k.items())) if i == 0 else ())
                 for i in range(n)], 'Sequential calls')
  # with modules: parameters in order and reusable
  sizes = [mon.randint(1, 4) for _ in range(mon.randint(1, 3))]
  x = ref.arr(mon, (2, 3))
  r = ref.Run(mon, lambda x: hk.Sequential([hk.Linear(m) for m in sizes])(x), (x,))
  y = ref.f64(x)
  for i in range(len(sizes)):
    nm = 'linear' if i == 0 else f'linear_{i}'
    y = y @ r.p[nm, 'w'] + r.p[nm, 'b']
  ref.check(mon, r(), y, 'float32', 'Sequential of Linear')
  mon.nontrivial(n, len(a), bool(k), it.__name__, sizes)


def batch_apply(mon):
  nd = mon.randint(1, 3)
  lead = tuple(mon.randint(1, 4) for _ in range(nd))
  if mon.chance(0.1):
    lead = (0,) + lead[1:]
  tail = shape(mon, 0, 2, zero=0)
  a = mon.normal(lead + tail)
  small = mon.normal(lead[:max(nd - 1, 0)]) if nd > 1 else np.float32(3)
  b = mon.normal(lead + (2,))
  seen = {}
  use_kw = mon.chance(0.5)

  def f(x, small, *, kw=None):
    seen['x'], seen['small'], seen['kw'] = x, small, kw
    out = {'a': x * 2, 't': (jnp.sum(x.reshape(x.shape[0], int(np.prod(tail))), axis=-1),)}
    if kw is not None:
      out['kw'] = kw['b'] + 1
    return out
  n = int(np.prod(lead))
  kw = dict(kw={'b': b}) if use_kw else {}
  dims = {} if nd == 2 and mon.chance(0.5) else dict(num_dims=nd)
  out = hk.BatchApply(f, **dims)(a, small, **kw)
  mon.same(seen['x'], a.reshape((n,) + tail), 'BatchApply merged input')
  mon.same(seen['small'], small, 'BatchApply must not touch small inputs')
  mon.same(out['a'], (a * 2), 'BatchApply result')
  mon.eq(tuple(out['t'][0].shape), lead, 'BatchApply split')
  mon.close(out['t'][0], a.reshape(lead + (int(np.prod(tail)),)).sum(-1), 'BatchApply values')
  if use_kw:
    mon.same(seen['kw']['b'], b.reshape(n, 2), 'BatchApply merged kwargs')
    mon.same(out['kw'], b + 1, 'BatchApply kwargs result')
  mon.ev('merged')
  if nd > 1:
    mon.raises(ValueError, lambda: hk.BatchApply(lambda x: x, num_dims=nd)(np.ones((2,) * (nd - 1))),
               'BatchApply without a mergeable input')
    mon.ev('rejected')
  # element-wise law: BatchApply(f) == f on every leading index
  x = mon.normal((2, 3, 4))
  w = mon.normal((4, 2))
  got = hk.BatchApply(lambda v: v @ w)(x)
  for i in range(2):
    for j in range(3):
      mon.close(got[i, j], x[i, j] @ w, 'BatchApply slice')
  mon.nontrivial(nd, lead, tail, use_kw)


def expand(mon):
  axis = mon.pick(0, -1)
  s = shape(mon, 0, 3, zero=0)
  x, y = mon.normal(s), mon.normal((2,))
  seen = {}

  def f(t, *, k):
    seen['t'], seen['k'] = t['x'], k
    return [t['x'] * 2, k + 1]
  a, b = hk.expand_apply(f, axis=axis)({'x': x}, k=y)
  mon.same(seen['t'], np.expand_dims(x, axis), 'expand_apply input')
  mon.same(seen['k'], np.expand_dims(y, axis), 'expand_apply kwarg')
  mon.same(a, np.float32(2) * np.asarray(x, np.float32), 'expand_apply output')
  mon.same(b, y + 1, 'expand_apply output')
  mon.raises(ValueError, lambda: hk.expand_apply(f, axis=mon.pick(1, 2, -2)), 'bad axis')
  mon.ev('rejected')
  # The added axis is removed again, so the function has to return it with size one.
  for g in (lambda t: jnp.concatenate([t, t], axis), lambda t: {'a': t, 'b': jnp.repeat(t, 3, axis)}):
    mon.raises(ValueError, lambda: hk.expand_apply(g, axis=axis)(x), 'output whose added axis is not of size one')
  mon.ev('layer_runs')
  mon.nontrivial('expand', axis, s)


def dropout(mon):
  rate = mon.pick(0.0, 0.1, 0.25, 0.5, 0.75, 0.9, mon.py.random() * 0.98)
  dt = ref.dtype(mon)
  s = mon.pick((4000,), (50, 80), (10, 20, 20))
  x = (np.abs(mon.normal(s)) + 0.5).astype(ref.np_dtype(dt))
  sd = mon.randint(0, 10 ** 6)
  k = jax.random.PRNGKey(sd)
  o = np.asarray(hk.dropout(k, rate, x))
  mon.eq(str(o.dtype), str(x.dtype), 'dropout dtype')
  mon.eq(o.shape, x.shape, 'dropout shape')
  if rate == 0:
    mon.same(o, x, 'dropout with rate 0')
  else:
    kept = ref.f64(o) != 0
    t = ref.TOL[dt]
    mon.check(np.allclose(ref.f64(o)[kept], (ref.f64(x) / (1 - rate))[kept], rtol=t, atol=t),
              'kept units are not scaled by 1/(1-rate)', rate=rate)
    n = o.size
    sig = np.sqrt(n * rate * (1 - rate))
    mon.check(abs(kept.sum() - n * (1 - rate)) < 6.5 * sig + 2, 'fraction of dropped units',
              rate=rate, kept=int(kept.sum()), n=n)
    o2 = np.asarray(hk.dropout(k, rate, x))
    mon.same(o2, o, 'dropout is a function of its key')
    kept2 = ref.f64(hk.dropout(jax.random.PRNGKey(sd + 1), rate, x)) != 0
    if 0.05 < rate < 0.95:
      mon.check((kept2 != kept).any(), 'dropout ignores its key')
      # independence between elements: neighbouring agreement close to expectation
      p = rate ** 2 + (1 - rate) ** 2
      a = kept.ravel()
      agree = (a[1:] == a[:-1]).sum()
      mon.check(abs(agree - p * (a.size - 1)) < 8 * np.sqrt(a.size) * 0.5 + 2,
                'dropped units are not independent', rate=rate)
      # every slice along every axis loses its own units (no shared mask)
      for ax in range(o.ndim):
        if o.ndim > 1 and o.shape[ax] > 1:
          first = np.take(kept, 0, axis=ax)
          mon.check(any((np.take(kept, j, axis=ax) != first).any()
                        for j in range(1, o.shape[ax])), 'dropout mask is shared along an axis')
  mon.ev('dropout_elems', o.size)
  mon.raises(ValueError, lambda: hk.dropout(k, mon.pick(1.0, 1.5, -0.1), x), 'bad dropout rate')
  mon.ev('rejected')
  mon.nontrivial(rate, s, dt)


def multinomial(mon):
  cats = mon.randint(2, 6)
  batch = mon.pick(None, 1, 2, 3)
  logits = mon.normal((cats,) if batch is None else (batch, cats), 1.5)
  forbid = mon.randint(1, cats - 1) if cats > 2 and mon.chance(0.5) else None
  if forbid is not None:
    logits[..., forbid] = -np.inf
  n = 4000
  key = jax.random.PRNGKey(mon.randint(0, 10 ** 6))
  out = np.asarray(hk.multinomial(key, logits, n))
  mon.eq(out.shape, (n,) if batch is None else (batch, n), 'multinomial shape')
  mon.check(out.dtype.kind in 'iu' and out.min() >= 0 and out.max() < cats, 'multinomial range')
  l2 = logits.reshape(-1, cats).astype(np.float64)
  pr = np.exp(l2 - l2.max(-1, keepdims=True))
  pr /= pr.sum(-1, keepdims=True)
  o2 = out.reshape(-1, n)
  for i in range(l2.shape[0]):
    cnt = np.bincount(o2[i], minlength=cats)
    sig = np.sqrt(n * pr[i] * (1 - pr[i]))
    mon.check((np.abs(cnt - n * pr[i]) < 6.5 * sig + 4).all(), 'multinomial frequencies',
              counts=cnt, expected=n * pr[i])
    if forbid is not None:
      mon.eq(int(cnt[forbid]), 0, 'a zero-probability category was drawn')
  if batch and batch > 1:
    mon.check(any((o2[0] != o2[i]).any() for i in range(1, batch)), 'rows share their draws')
  mon.ev('samples_drawn', out.size)
  one = np.asarray(hk.multinomial(key, logits, 1))
  mon.eq(one.shape, (1,) if batch is None else (batch, 1), 'one sample: shape')
  reps = [np.asarray(hk.multinomial(jax.random.PRNGKey(j), np.stack([logits.reshape(-1, cats)[0]] * 2000), 1))
          for j in range(1)]
  cnt = np.bincount(reps[0][:, 0], minlength=cats)
  mon.check((np.abs(cnt - 2000 * pr[0]) < 6.5 * np.sqrt(2000 * pr[0] * (1 - pr[0])) + 4).all(),
            'single-sample frequencies', counts=cnt, expected=2000 * pr[0])
  mon.raises(ValueError, lambda: hk.multinomial(key, mon.pick(np.float32(1), np.ones((2, 2, 2))), 2),
             'bad logits rank')
  mon.ev('rejected')
  # one_hot
  ids = mon.np.integers(0, cats, shape(mon, 0, 3))
  dt = mon.pick(np.float32, np.int32, np.float16)
  mon.same(hk.one_hot(ids, cats, dt), np.eye(cats, dtype=dt)[ids], 'one_hot')
  mon.nontrivial(cats, batch, forbid, mon.index)


def multinomial_ends(mon):
  """Millions of draws: rounding must not let a zero-probability category through."""
  n = 2 ** 22
  if mon.chance(0.5):
    logits = np.array([-np.inf, 0., -np.inf], np.float32)
    if mon.chance(0.5):
      logits = logits[:2]
    positive = np.isfinite(logits)
  else:
    # Many small categories: the cumulative sum of float32 probabilities misses 1.
    cats = mon.randint(5, 12)
    logits = mon.normal((cats,))
    logits[0] = logits[mon.randint(1, cats - 1)] = -np.inf
    positive = np.isfinite(logits)
    n = 2 ** 19
  batched = mon.chance(0.5)
  out = np.asarray(hk.multinomial(jax.random.PRNGKey(mon.randint(0, 10 ** 6)),
                                  jnp.asarray(logits[None] if batched else logits), n))
  seen = np.bincount(out.reshape(-1), minlength=logits.size)
  mon.check(not seen[~positive].any(), 'a zero-probability category was drawn', logits=logits,
            counts=seen)
  mon.ev('many_samples', n)
  mon.nontrivial('ends', logits.tolist(), batched, mon.index)


def embed(mon):
  v, d = mon.randint(1, 7), mon.randint(1, 5)
  given = mon.chance(0.4)
  mat = mon.normal((v, d))
  kw = dict(embedding_matrix=mat) if given else dict(vocab_size=v, embed_dim=d)
  if given and mon.chance(0.5):
    kw.update(vocab_size=v, embed_dim=d)
  style = mon.pick(None, 'ARRAY_INDEX', 'ONE_HOT', 'one_hot', 'array_index',
                   hk.EmbedLookupStyle.ONE_HOT, hk.EmbedLookupStyle.ARRAY_INDEX)
  call_style = mon.pick(None, None, 'ONE_HOT', 'array_index', hk.EmbedLookupStyle.ONE_HOT)
  if style is not None:
    kw['lookup_style'] = style
  ids = mon.np.integers(0, v, shape(mon, 0, 3)).astype(mon.pick(np.int32, np.uint8, np.int16))
  if mon.chance(0.2):
    ids = ids.tolist()
  ckw = {} if call_style is None else dict(lookup_style=call_style)
  r = ref.Run(mon, lambda i: hk.Embed(**kw)(i, **ckw), (ids,), jit=False,
              want_params={('embed', 'embeddings'): ((v, d), 'float32')})
  if given:
    mon.same(two_level(r.init_params)['embed', 'embeddings'], mat, 'embedding_matrix is the initial value')
  out = r()
  mon.same(out, np.asarray(two_level(r.params)['embed', 'embeddings'])[np.asarray(ids)],
           'Embed lookup', style=style, call_style=call_style)
  mon.ev('embedded')
  bad = mon.pick(
      lambda: hk.Embed(), lambda: hk.Embed(vocab_size=3), lambda: hk.Embed(embed_dim=3),
      lambda: hk.Embed(embedding_matrix=mat, vocab_size=v + 1),
      lambda: hk.Embed(embedding_matrix=mat, embed_dim=d + 1),
      lambda: hk.Embed(3, 2)(np.ones((2,), np.float32)))
  mon.raises(ValueError, lambda: hk.transform(bad).init(jax.random.PRNGKey(0)), 'bad Embed use')
  mon.ev('rejected')
  mon.nontrivial(v, d, given, str(style), str(call_style), np.shape(ids))


def mlp(mon):
  sizes = [mon.randint(1, 5) for _ in range(mon.randint(1, 4))]
  bias, fin = mon.chance(0.7), mon.chance(0.4)
  act_name = mon.pick('relu', 'tanh', 'default')
  act = dict(relu=jax.nn.relu, tanh=jnp.tanh, default=None)[act_name]
  nact = (lambda v: np.tanh(v)) if act_name == 'tanh' else (lambda v: np.maximum(v, 0))
  s = shape(mon, 1, 3, zero=0)
  dt = ref.dtype(mon, 0.15)
  x = ref.arr(mon, s, dt)
  rev = mon.chance(0.5)
  rev_fin = mon.pick(None, True, False)
  kw = {} if act is None else dict(activation=act)
  it = mon.pick(list, tuple, iter)

  def fn(x):
    m = hk.nets.MLP(it(sizes), with_bias=bias, activate_final=fin, **kw)
    y = m(x)
    if rev:
      rm = m.reverse() if rev_fin is None else m.reverse(activate_final=rev_fin)
      return y, rm(y), m(x)
    return y, y, m(x)
  want = {}
  ins = [s[-1]] + sizes
  for i, o in enumerate(sizes):
    want[f'mlp/~/linear_{i}', 'w'] = ((ins[i], o), dt)
    if bias:
      want[f'mlp/~/linear_{i}', 'b'] = ((o,), dt)
  if rev:
    ro = ins[:-1][::-1]
    ri = [sizes[-1]] + ro
    for i, o in enumerate(ro):
      want[f'mlp/~reverse/mlp_reversed/~/linear_{i}', 'w'] = ((ri[i], o), dt)
      if bias:
        want[f'mlp/~reverse/mlp_reversed/~/linear_{i}', 'b'] = ((o,), dt)
  r = ref.Run(mon, fn, (x,), want_params=want)

  def forward(prefix, n, v, final):
    for i in range(n):
      v = v @ r.p[f'{prefix}/~/linear_{i}', 'w']
      if bias:
        v = v + r.p[f'{prefix}/~/linear_{i}', 'b']
      if i < n - 1 or final:
        v = nact(v)
    return v
  y, z, again = r()
  wy = forward('mlp', len(sizes), ref.f64(x), fin)
  ref.check(mon, y, wy, dt, 'MLP', k=4)
  mon.same(again, y, 'an MLP called twice')
  if rev:
    wz = forward('mlp/~reverse/mlp_reversed', len(sizes), wy, fin if rev_fin is None else rev_fin)
    ref.check(mon, z, wz, dt, 'reversed MLP', k=8)
  # dropout: applied to every activated layer, mask differs per layer, and only there
  rate = mon.pick(0.3, 0.6)
  xx = np.abs(mon.normal((3, 4))) + 0.1
  big = [64] * len(sizes)
  calls = []
  g = hk.transform(lambda x, k: hk.nets.MLP(big, activate_final=fin, b_init=jnp.ones,
                                            activation=lambda v: (calls.append(v), v)[1],
                                            w_init=hk.initializers.Constant(0.01))(x, rate, k))
  p = g.init(jax.random.PRNGKey(0), xx, jax.random.PRNGKey(1))
  calls.clear()
  o = g.apply(p, None, xx, jax.random.PRNGKey(mon.randint(0, 999)))
  n_act = len(sizes) if fin else len(sizes) - 1
  mon.eq(len(calls), n_act, 'MLP activations')
  masks = [np.asarray(c) == 0 for c in calls]
  for m in masks:
    n = m.size
    mon.check(abs(m.sum() - n * rate) < 6.5 * np.sqrt(n * rate * (1 - rate)), 'MLP dropout rate')
  for i in range(len(masks) - 1):
    mon.check((masks[i] != masks[i + 1]).any(), 'MLP layers share one dropout mask')
  if not fin:
    mon.check((np.asarray(o) != 0).all(), 'dropout on a layer that is not activated')
  mon.raises(ValueError, lambda: hk.transform(mon.pick(
      lambda: hk.nets.MLP([2])(xx, 0.5), lambda: hk.nets.MLP([2])(xx, None, jax.random.PRNGKey(0)),
      lambda: hk.nets.MLP([2], with_bias=False, b_init=jnp.zeros))).init(jax.random.PRNGKey(0)),
             'bad MLP use')
  mon.ev('rejected')
  mon.nontrivial(sizes, bias, fin, act_name, s, rev, rev_fin)


SCENARIOS = {
    'multinomial_ends': (multinomial_ends, 24, 300),
    'linear': (linear, 64, 1500),
    'bias': (bias, 64, 1500),
    'reshape': (reshape, 80, 2000),
    'sequential': (sequential, 32, 500),
    'batch_apply': (batch_apply, 48, 800),
    'expand': (expand, 24, 300),
    'dropout': (dropout, 40, 800),
    'multinomial': (multinomial, 32, 600),
    'embed': (embed, 64, 1000),
    'mlp': (mlp, 48, 800),
}
