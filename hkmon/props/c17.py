"""C17: normalisation layers."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('BatchNorm over random histories of train / eval / eval-with-local-stats calls with '
        'changing batches, both layouts, explicit axes, external or created scale/offset, under '
        'vmap and pmap replicas and replica groups; LayerNorm, InstanceNorm and GroupNorm over '
        'random shapes, axes (positive, negative, slices), groups and layouts with changing input '
        'sizes; all against float64 statistics and an explicit running-average model. Non-trivial: '
        'statistics over >=2 elements; distinct by configuration and history.')
REQUIRED = {'bn_train': 150, 'bn_eval': 60, 'bn_local': 40, 'bn_replicas': 15, 'bn_groups': 4,
            'layer': 80, 'instance': 40, 'group': 80, 'resized': 15, 'rejected': 20, 'tiny_variance': 40, 'large_offset': 18}
ASSUMPTIONS = ['BatchNorm is initialised in training mode, with non-negative axis indices',
               'float32 inputs of moderate range for value comparisons']


def norm(x, mean, var, eps, scale, offset):
  return (x - mean) / np.sqrt(var + eps) * scale + offset


def make_input(mon, shape):
  """Random input whose statistics differ along every axis."""
  x = mon.normal(shape)
  if mon.chance(0.15):
    mon.ev('tiny_variance')  # eps dominates
    return (x * 3e-3).astype(np.float32)
  for d in range(len(shape)):
    sh = [1] * len(shape)
    sh[d] = shape[d]
    x = x * (1 + 0.5 * mon.np.random(sh)) + 0.5 * mon.np.standard_normal(sh)
  return x.astype(np.float32)


class BN:
  """Running-average model of one BatchNorm."""

  def __init__(self, decay):
    self.d, self.c = decay, 0
    self.h = {'mean': 0., 'var': 0.}
    self.avg = None

  def first(self, mean, var):
    self.avg = {'mean': mean, 'var': var}

  def train(self, mean, var):
    self.c += 1
    for k, v in (('mean', mean), ('var', var)):
      self.h[k] = self.h[k] * self.d + v * (1 - self.d)
    self.avg = {k: self.h[k] / (1 - self.d ** self.c) for k in self.h}

  def check(self, mon, state, name='batch_norm', idx=(), **ctx):
    s = {k: np.asarray(v)[idx] for k, v in two_level(state).items()}
    keys = {(f'{name}/~/{k}_ema', n) for k in ('mean', 'var') for n in ('counter', 'hidden', 'average')}
    mon.eq(set(s), keys, 'state entries of BatchNorm')
    for k in ('mean', 'var'):
      m = f'{name}/~/{k}_ema'
      mon.eq(int(s[m, 'counter']), self.c, 'update counter', **ctx)
      mon.close(s[m, 'hidden'], np.broadcast_to(self.h[k], s[m, 'hidden'].shape), f'running {k}',
                rtol=1e-3, atol=1e-3, **ctx)
      mon.close(s[m, 'average'], self.avg[k], f'debiased running {k}', rtol=1e-3, atol=1e-3, **ctx)


def bn_config(mon, ndim=None):
  ndim = ndim or mon.randint(2, 5)
  first = mon.chance(0.4) and ndim >= 2
  c = dict(ndim=ndim, first=first)
  c['shape'] = [mon.randint(2, 4) for _ in range(ndim)]
  ch = 1 if first else ndim - 1
  kw = dict(decay_rate=mon.pick(0.1, 0.5, 0.9, 0.99))
  if first or mon.chance(0.3):
    kw['data_format'] = (mon.pick('channels_first', 'NC...') if first
                         else mon.pick('channels_last', 'N...C'))
  if mon.chance(0.3):
    k = mon.randint(1, ndim)
    axis = sorted(mon.py.sample(range(ndim), k))
    kw['axis'] = mon.pick(list(axis), tuple(axis))
  else:
    axis = [i for i in range(ndim) if i != ch]
  c['axis'] = tuple(axis)
  c['eps'] = mon.pick(None, None, 1e-3, 0.1)
  if np.prod([c['shape'][a] for a in axis]) < 8:
    c['eps'] = c['eps'] or 1e-2  # E[x^2]-E[x]^2 of few values cancels
  if c['eps'] is not None:
    kw['eps'] = c['eps']
  c['eps'] = c['eps'] or 1e-5
  for n in ('scale', 'offset'):
    c[n] = mon.pick('create', 'create', 'none', 'external')
    kw[f'create_{n}'] = c[n] == 'create'
  c['kw'] = kw
  return c


def wshape(c, shape):
  return tuple(1 if i in c['axis'] else shape[i] for i in range(c['ndim']))


def extern(mon, c, shape):
  out = {}
  for n in ('scale', 'offset'):
    if c[n] == 'external':
      sh = mon.pick([tuple(shape), wshape(c, shape), ()])
      out[n] = mon.normal(sh)
  return out


def batch_norm(mon):
  c = bn_config(mon)
  ax, kw = c['axis'], c['kw']
  x0 = make_input(mon, c['shape'])
  e0 = extern(mon, c, c['shape'])
  # is_training/test_local_stats are Python bools, captured per call.
  def fn(x, tr, loc, **e):
    a = dict(is_training=tr)
    if loc is not None:
      a['test_local_stats'] = loc
    return hk.BatchNorm(**kw)(x, **a, **e)
  t = hk.transform_with_state(fn)
  params, state = t.init(None, x0, True, None, **e0)
  want = {('batch_norm', n): wshape(c, x0.shape) for n in ('scale', 'offset') if c[n] == 'create'}
  mon.eq({k: tuple(v.shape) for k, v in two_level(params).items()}, want, 'BatchNorm parameters')
  for (_, n), v in two_level(params).items():
    mon.same(v, np.full(v.shape, 1. if n == 'scale' else 0., np.float32), f'default {n}')
  params = {m: {n: mon.normal(v.shape) for n, v in b.items()} for m, b in params.items()}
  p = {n: params.get('batch_norm', {}).get(n) for n in ('scale', 'offset')}
  m0, v0 = x0.astype(np.float64).mean(ax, keepdims=True), x0.astype(np.float64).var(ax, keepdims=True)
  model = BN(kw['decay_rate'])
  model.first(m0, v0)
  model.check(mon, state, step='init')
  hist = []
  for step in range(mon.randint(2, 6)):
    shape = list(c['shape'])
    for a in ax:
      if mon.chance(0.3):
        shape[a] = mon.randint(c['shape'][a], 5)
    x = make_input(mon, shape)
    x64 = x.astype(np.float64)
    e = extern(mon, c, shape)
    mode = mon.pick('train', 'train', 'eval', 'local', 'train_local')
    hist.append(mode)
    tr = mode.startswith('train')
    loc = {'train': None, 'eval': mon.pick(None, False), 'local': True, 'train_local': True}[mode]
    mean, var = x64.mean(ax, keepdims=True), x64.var(ax, keepdims=True)
    prev = state
    y, state = t.apply(params, state, None, x, tr, loc, **e)
    if tr:
      model.train(mean, var)
    if mode == 'eval':
      mean, var = model.avg['mean'], model.avg['var']
    scale = p['scale'] if p['scale'] is not None else e.get('scale', 1.)
    offset = p['offset'] if p['offset'] is not None else e.get('offset', 0.)
    want = norm(x64, mean, var, c['eps'], ref.f64(scale), ref.f64(offset))
    ctx = dict(config=c, history=hist)
    mon.eq(str(np.asarray(y).dtype), 'float32', 'BatchNorm dtype')
    mon.close(y, want, f'BatchNorm output ({mode})', rtol=3e-3, atol=3e-3, **ctx)
    model.check(mon, state, **ctx)
    if not tr:
      mon.tree_same(state, prev, 'evaluation changed the running statistics', **ctx)
    mon.ev({'train': 'bn_train', 'train_local': 'bn_train', 'eval': 'bn_eval', 'local': 'bn_local'}[mode])
  mon.nontrivial('bn', c['shape'], ax, c['scale'], c['offset'], c['first'], tuple(hist))
  mon.sample(dict(shape=c['shape'], axis=ax, history=hist))


def replicas(mon):
  """Cross-replica statistics: vmap axis, pmap axis, pmap with groups."""
  c = bn_config(mon, mon.randint(2, 4))
  how = mon.pick('vmap', 'vmap', 'pmap', 'groups') if len(jax.devices()) >= 4 else 'vmap'
  groups = None
  r = mon.randint(2, 4)
  kw = dict(c['kw'], cross_replica_axis='rep')
  if how == 'groups':
    r = 4
    groups = mon.pick([[[0, 1], [2, 3]], [[0, 2], [1, 3]], [[0, 3], [1, 2]]])
    kw['cross_replica_axis_index_groups'] = groups
  c['scale'] = c['offset'] = 'create'
  kw.update(create_scale=True, create_offset=True)
  groups_ = groups or [list(range(r))]
  tr = mon.chance(0.7)
  f = hk.transform_with_state(lambda x, tr, loc: hk.BatchNorm(**kw)(x, tr, test_local_stats=loc))
  shape, ax = c['shape'], c['axis']
  mapper = lambda g: (jax.vmap if how == 'vmap' else jax.pmap)(g, axis_name='rep')
  x = np.stack([make_input(mon, shape) for _ in range(r)])
  init = mapper(lambda x: f.init(None, x, True, False))
  params, state = init(x)
  params = {m: {n: np.broadcast_to(mon.normal(v.shape[1:]), v.shape) for n, v in b.items()}
            for m, b in params.items()}
  models = [BN(kw['decay_rate']) for _ in range(r)]
  def stats(x):
    out = [None] * r
    for g in groups_:
      xs = x[g].astype(np.float64)
      a = (0,) + tuple(i + 1 for i in ax)
      m, v = xs.mean(a, keepdims=True)[0], xs.var(a, keepdims=True)[0]
      for i in g:
        out[i] = (m, v)
    return out
  for m, s in zip(models, stats(x)):
    m.first(*s)
  modes = []
  for _ in range(mon.randint(1, 3)):
    mode = mon.pick('train', 'train', 'eval', 'local')
    modes.append(mode)
    x = np.stack([make_input(mon, shape) for _ in range(r)])
    y, state = mapper(lambda p, s, x: f.apply(p, s, None, x, mode == 'train', mode == 'local'))(
        params, state, x)
    for i, (m, v) in enumerate(stats(x)):
      if mode == 'train':
        models[i].train(m, v)
      if mode == 'eval':
        m, v = models[i].avg['mean'], models[i].avg['var']
      want = norm(x[i].astype(np.float64), m, v, c['eps'],
                  ref.f64(params['batch_norm']['scale'][i]), ref.f64(params['batch_norm']['offset'][i]))
      mon.close(y[i], want, f'cross-replica BatchNorm ({mode}, {how})', rtol=3e-3, atol=3e-3,
                config=c, groups=groups)
      models[i].check(mon, state, idx=(i,), config=c, how=how)
  mon.ev('bn_replicas')
  mon.ev('bn_groups', int(how == 'groups'))
  mon.nontrivial('rep', how, r, groups, shape, ax, tuple(modes))


def pick_axis(mon, ndim, lo=0):
  """(argument, tuple of non-negative axes)."""
  k = mon.pick('int', 'neg', 'tuple', 'list', 'slice', 'negs')
  if k == 'int':
    a = mon.randint(lo, ndim - 1)
    return a, (a,)
  if k == 'neg':
    a = mon.randint(lo, ndim - 1)
    return a - ndim, (a,)
  if k == 'slice':
    a = mon.randint(lo, ndim - 1)
    b = mon.randint(a + 1, ndim)
    s = slice(a, mon.pick(b, None) if b == ndim else mon.pick(b, b - ndim))
    return s, tuple(range(ndim)[s])
  ax = tuple(mon.py.sample(range(lo, ndim), mon.randint(1, ndim - lo)))
  arg = tuple(a - ndim if k == 'negs' or mon.chance(0.3) else a for a in ax)
  return (list(arg) if k == 'list' else arg), ax


def affine_kw(mon, kw, inits):
  mode = {}
  for n in ('scale', 'offset'):
    mode[n] = mon.pick('create', 'create', 'none', 'external')
    kw[f'create_{n}'] = mode[n] == 'create'
    inits[n] = 1. if n == 'scale' else 0.
    if mode[n] == 'create' and mon.chance(0.25):
      inits[n] = mon.pick(2., -3., 0.5)
      kw[f'{n}_init'] = hk.initializers.Constant(inits[n])
  return mode


def run_affine(mon, make, name, mode, inits, pshape, x, ref_fn, eps, label, cfg, dt='float32',
               resize=None):
  """Shared driver of the stateless norms."""
  def externs(v):
    e = {}
    for n in ('scale', 'offset'):
      if mode[n] == 'external':
        sh = mon.pick([v.shape, v.shape[-1:], ()])
        e[n] = ref.arr(mon, sh, dt)
    return e
  e = externs(x)
  xs = [x] + ([resize] if resize is not None else [])
  es = [externs(v) for v in xs]
  def fn(xs, es):
    m = make()
    return [m(v, **e) for v, e in zip(xs, es)]
  want = {(name, n): (pshape, dt) for n in ('scale', 'offset') if mode[n] == 'create'}
  r = ref.Run(mon, fn, (xs, es), want_params=want, want_state={})
  for (_, n), v in two_level(r.init_params).items():
    mon.close(ref.f64(v), np.full(v.shape, inits[n]), f'initial {n}')
  outs = r()
  for v, ee, y in zip(xs, es, outs):
    scale = r.p[name, 'scale'] if mode['scale'] == 'create' else ref.f64(ee.get('scale', 1.))
    offset = r.p[name, 'offset'] if mode['offset'] == 'create' else ref.f64(ee.get('offset', 0.))
    want_y = ref_fn(ref.f64(v)) * scale + offset
    ref.check(mon, y, want_y, dt, label, k=5, config=cfg)


def layer_norm(mon):
  ndim = mon.randint(1, 5)
  shape = tuple(mon.randint(1, 5) for _ in range(ndim))
  arg, ax = pick_axis(mon, ndim)
  eps = mon.pick(None, None, 1e-2, 0.5)
  kw, inits = {}, {}
  if eps is not None:
    kw['eps'] = eps
  eps = eps or 1e-5
  mode = affine_kw(mon, kw, inits)
  dt = ref.dtype(mon, 0.12)
  if dt != 'float32' or min(np.prod([shape[a] for a in ax]), 2) < 2:
    kw['eps'] = eps = max(eps, 1e-2)
  x = make_input(mon, shape).astype(ref.np_dtype(dt))
  def rf(v):
    return (v - v.mean(ax, keepdims=True)) / np.sqrt(v.var(ax, keepdims=True) + eps)
  resize = None
  if mon.chance(0.3):
    resize = make_input(mon, tuple(mon.randint(1, 4) for _ in shape[:-1]) + shape[-1:])
    resize = resize.astype(ref.np_dtype(dt))
    kw['eps'] = eps = max(eps, 1e-2)
  run_affine(mon, lambda: hk.LayerNorm(arg, **kw), 'layer_norm', mode, inits, shape[-1:], x, rf, eps,
             'LayerNorm', dict(shape=shape, axis=arg, kw=kw), dt, resize)
  mon.ev('layer')
  mon.nontrivial('ln', shape, ax, mode)


def instance_norm(mon):
  ndim = mon.randint(3, 5)
  shape = tuple(mon.randint(2, 4) for _ in range(ndim))
  first = mon.chance(0.5)
  kw, inits = {}, {}
  if first or mon.chance(0.4):
    kw['data_format'] = (mon.pick('channels_first', 'NC...', 'NCHW') if first
                         else mon.pick('channels_last', 'N...C', 'NHWC'))
  ax = tuple(range(2, ndim)) if first else tuple(range(1, ndim - 1))
  pshape = (shape[1],) + (1,) * (ndim - 2) if first else shape[-1:]
  eps = mon.pick(None, 1e-2, 0.5)
  if eps is not None:
    kw['eps'] = eps
  eps = eps or 1e-5
  mode = affine_kw(mon, kw, inits)
  x = make_input(mon, shape)
  def rf(v):
    return (v - v.mean(ax, keepdims=True)) / np.sqrt(v.var(ax, keepdims=True) + eps)
  run_affine(mon, lambda: hk.InstanceNorm(**kw), 'instance_norm', mode, inits, pshape, x, rf, eps,
             'InstanceNorm', dict(shape=shape, kw=kw))
  mon.ev('instance')
  mon.nontrivial('in', shape, first, mode)


def group_norm(mon):
  ndim = mon.randint(2, 5)
  first = mon.chance(0.45)
  groups, per = mon.randint(1, 3), mon.randint(1, 3)
  ch = 1 if first else ndim - 1
  shape = [mon.randint(1, 4) for _ in range(ndim)]
  shape[ch] = groups * per
  shape = tuple(shape)
  kw, inits = {}, {}
  if mon.chance(0.5):
    arg, ax = pick_axis(mon, ndim, lo=mon.pick(0, 1, 1))
    kw['axis'] = arg
  else:
    ax = tuple(range(1, ndim))
  if first or mon.chance(0.4):
    kw['data_format'] = (mon.pick('channels_first', 'NC...') if first
                         else mon.pick('channels_last', 'N...C'))
  eps = mon.pick(None, 1e-2, 0.5)
  n = np.prod([per if a == ch else shape[a] for a in ax])
  resized = mon.chance(0.3)
  if n < 2 or resized:
    eps = eps or 1e-2
  if eps is not None:
    kw['eps'] = eps
  eps = eps or 1e-5
  mode = affine_kw(mon, kw, inits)
  if mode['scale'] == 'create' and mode['offset'] == 'create' and mon.chance(0.5):
    kw.pop('create_scale'), kw.pop('create_offset')  # both default to True
  pshape = (shape[1],) + (1,) * (ndim - 2) if first else shape[-1:]
  x = make_input(mon, shape)
  def rf(v):
    # Element by element membership: group of each channel, statistics per group.
    g = np.zeros(v.shape)
    for gi in range(groups):
      sl = [slice(None)] * ndim
      sl[ch] = slice(gi * per, (gi + 1) * per)
      blk = v[tuple(sl)]
      g[tuple(sl)] = (blk - blk.mean(ax, keepdims=True)) / np.sqrt(blk.var(ax, keepdims=True) + eps)
    return g
  resize = None
  if resized:
    sh2 = [mon.randint(1, 5) for _ in range(ndim)]
    sh2[ch] = shape[ch]
    resize = make_input(mon, tuple(sh2))
    mon.ev('resized')
  run_affine(mon, lambda: hk.GroupNorm(groups, **kw), 'group_norm', mode, inits, pshape, x, rf, eps,
             'GroupNorm', dict(shape=shape, groups=groups, kw=kw), resize=resize)
  mon.ev('group')
  mon.nontrivial('gn', shape, groups, ax, first, mode)


def low_precision(mon):
  """Normalisation layers keep the dtype of their input and of their parameters."""
  dt = mon.pick('float16', 'bfloat16')
  x = jnp.asarray(mon.normal((3, 4, 4)).astype(ref.np_dtype(dt)))
  k = mon.pick('bn', 'bn_eval', 'ln', 'in', 'gn')
  def fn(x):
    if k.startswith('bn'):
      m = hk.BatchNorm(True, True, 0.9)
      y = m(x, is_training=True)
      return m(x, is_training=False) if k == 'bn_eval' else y
    if k == 'ln':
      return hk.LayerNorm(-1, True, True)(x)
    if k == 'in':
      return hk.InstanceNorm(True, True)(x)
    return hk.GroupNorm(2)(x)
  f = hk.transform_with_state(fn)
  p, s = f.init(None, x)
  y, s2 = f.apply(p, s, None, x)
  mon.eq(str(y.dtype), dt, 'output dtype', layer=k)
  for t, nm in ((p, 'parameter'), (s2, 'state')):
    for key, v in two_level(t).items():
      if key[1] != 'counter':
        mon.eq(str(v.dtype), dt, f'{nm} dtype', layer=k, key=key)
  mon.check(bool(np.isfinite(ref.f64(y)).all()), 'finite output', layer=k)
  mon.nontrivial('low', dt, k)


def large_offset(mon):
  """Per-sample statistics stay accurate for values with a mean far from zero."""
  kind = ('layer', 'instance', 'group')[mon.index % 3]
  c = float(mon.pick(-1, 1) * mon.randint(500, 2500))
  b, w, ch = mon.randint(1, 3), mon.randint(8, 20), mon.pick(4, 8)
  x = (c + mon.normal((b, w, ch))).astype(np.float32)
  v = ref.f64(x)
  if kind == 'layer':
    ax, make = (1, 2), lambda: hk.LayerNorm((-2, -1), False, False)
  elif kind == 'instance':
    ax, make = (1,), lambda: hk.InstanceNorm(False, False)
  else:
    ax, make = (1, 3), lambda: hk.GroupNorm(2, create_scale=False, create_offset=False)
    v = v.reshape(b, w, 2, ch // 2)
  want = ((v - v.mean(ax, keepdims=True)) / np.sqrt(v.var(ax, keepdims=True) + 1e-5)).reshape(x.shape)
  f = hk.transform(lambda u: make()(u))
  got = ref.f64((jax.jit(f.apply) if mon.chance(0.5) else f.apply)(f.init(None, x), None, x))
  err = np.abs(got - want).max()
  mon.check(err < 4e-3, f'{kind} norm of values around {c}', error=float(err), shape=x.shape)
  mon.ev('large_offset')
  mon.nontrivial('offset', kind, c, x.shape)


def misuse(mon):
  x = np.ones((2, 4, 4, 6), np.float32)
  one = hk.initializers.Constant(1.)
  def gn_rank():
    m = hk.GroupNorm(2)
    m(x)
    return m(x[0])
  cases = [
      lambda: hk.BatchNorm(False, True, 0.9, scale_init=one),
      lambda: hk.BatchNorm(True, False, 0.9, offset_init=one),
      lambda: hk.BatchNorm(True, True, 0.9, cross_replica_axis_index_groups=[[0]]),
      lambda: hk.BatchNorm(True, False, 0.9)(x, True, scale=x),
      lambda: hk.BatchNorm(False, True, 0.9)(x, True, offset=x),
      lambda: hk.BatchNorm(False, True, 0.9, data_format='foo')(x, True),
      lambda: hk.LayerNorm(-1, False, True, scale_init=one),
      lambda: hk.LayerNorm(-1, True, False, offset_init=one),
      lambda: hk.LayerNorm(-1, True, False)(x, scale=x),
      lambda: hk.LayerNorm(-1, False, True)(x, offset=x),
      lambda: hk.LayerNorm('a', True, True),
      lambda: hk.LayerNorm((1, 'a'), True, True),
      lambda: hk.InstanceNorm(True, False)(x, scale=x),
      lambda: hk.InstanceNorm(True, True, data_format='bad')(x),
      lambda: hk.GroupNorm(2, create_scale=False, scale_init=one),
      lambda: hk.GroupNorm(2, create_offset=False, offset_init=one),
      lambda: hk.GroupNorm(2)(x, scale=x),
      lambda: hk.GroupNorm(2)(x, offset=x),
      lambda: hk.GroupNorm(4)(x),
      lambda: hk.GroupNorm(2, axis='a'),
      lambda: hk.GroupNorm(2, data_format='oops'),
      gn_rank,
  ]
  f = cases[mon.index % len(cases)]
  mon.raises(ValueError, lambda: hk.transform_with_state(f).init(jax.random.PRNGKey(0)),
             'misuse of a normalisation layer', case=mon.index % len(cases))
  mon.ev('rejected')
  mon.nontrivial('misuse', mon.index % len(cases))


SCENARIOS = {
    'batch_norm': (batch_norm, 110, 2500),
    'replicas': (replicas, 32, 500),
    'layer_norm': (layer_norm, 100, 3000),
    'instance_norm': (instance_norm, 48, 1000),
    'group_norm': (group_norm, 110, 3000),
    'large_offset': (large_offset, 18, 300),
    'low_precision': (low_precision, 20, 60),
    'misuse': (misuse, 22, 44),
}
