"""C23: ResNet and MobileNetV1."""
import haiku as hk
import jax
import jax.numpy as jnp
from jax import lax
import numpy as np

from hkmon.core import two_level

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('Random ResNet (v1/v2, bottleneck or not, per-group blocks, widths and projections, '
        'batch-norm and logits configuration) and MobileNetV1 networks in training, evaluation and '
        'local-statistics mode with random parameters and running statistics, against a functional '
        'composition written from the architecture; parameter inventories of every published '
        'configuration by abstract evaluation. Non-trivial: all; distinct by configuration and mode.')
REQUIRED = {'resnet': 16, 'mobilenet': 8, 'train': 8, 'eval': 8, 'published': 10, 'rejected': 4}
ASSUMPTIONS = ['inputs are NHWC float32 images']


def conv(x, w, stride, padding, groups=1):
  return lax.conv_general_dilated(x, w, (stride, stride), padding, feature_group_count=groups,
                                  dimension_numbers=('NHWC', 'HWIO', 'NHWC'),
                                  precision=lax.Precision.HIGHEST)


class Ctx:
  """Parameters, running statistics and the batch-norm mode of one forward pass."""

  def __init__(self, p, s, mode, decay, eps):
    self.p, self.s, self.mode, self.decay, self.eps = p, s, mode, decay, eps
    self.used, self.new = set(), dict(s)

  def get(self, m, n):
    self.used.add((m, n))
    return jnp.asarray(self.p[m, n])

  def bn(self, m, x):
    if self.mode == 'eval':
      mean, var = self.s[f'{m}/~/mean_ema', 'average'], self.s[f'{m}/~/var_ema', 'average']
    else:
      mean = x.mean((0, 1, 2), keepdims=True)
      var = ((x - mean) ** 2).mean((0, 1, 2), keepdims=True)
    if self.mode == 'train':
      for k, v in (('mean', mean), ('var', var)):
        e = f'{m}/~/{k}_ema'
        c = self.s[e, 'counter'] + 1
        h = self.s[e, 'hidden'] * self.decay + v * (1 - self.decay)
        self.new[e, 'counter'], self.new[e, 'hidden'] = c, h
        self.new[e, 'average'] = h / (1 - self.decay ** c)
    return (x - mean) / jnp.sqrt(var + self.eps) * self.get(m, 'scale') + self.get(m, 'offset')

  def linear(self, m, x, bias):
    y = jnp.matmul(x, self.get(m, 'w'), precision=lax.Precision.HIGHEST)
    return y + self.get(m, 'b') if bias else y


def relu(x):
  return jnp.maximum(x, 0)


def resnet_ref(c, nm, cfg, x):
  p = f'{nm}/~/'
  x = conv(x, c.get(p + 'initial_conv', 'w'), 2, 'SAME')
  if not cfg['v2']:
    x = relu(c.bn(p + 'initial_batchnorm', x))
  x = lax.reduce_window(x, -jnp.inf, lax.max, (1, 3, 3, 1), (1, 2, 2, 1), 'SAME')
  for g in range(4):
    for b in range(cfg['blocks'][g]):
      q = f'{p}block_group_{g}/~/block_{b}/~/'
      stride = (1, 2, 2, 2)[g] if b == 0 else 1
      proj = cfg['proj'][g] and b == 0
      strides = (1, stride, 1) if cfg['bottleneck'] else (stride, 1)
      if cfg['v2']:
        y = short = x
        for i, st in enumerate(strides):
          y = relu(c.bn(f'{q}batchnorm_{i}', y))
          if i == 0 and proj:
            short = conv(y, c.get(q + 'shortcut_conv', 'w'), stride, 'SAME')
          y = conv(y, c.get(f'{q}conv_{i}', 'w'), st, 'SAME')
        x = y + short
      else:
        short = x
        if proj:
          short = c.bn(q + 'shortcut_batchnorm', conv(x, c.get(q + 'shortcut_conv', 'w'), stride, 'SAME'))
        y = x
        for i, st in enumerate(strides):
          y = c.bn(f'{q}batchnorm_{i}', conv(y, c.get(f'{q}conv_{i}', 'w'), st, 'SAME'))
          if i < len(strides) - 1:
            y = relu(y)
        x = relu(y + short)
  if cfg['v2']:
    x = relu(c.bn(p + 'final_batchnorm', x))
  return c.linear(p + cfg['logits'], x.mean((1, 2)), cfg['bias'])


def resnet_params(nm, cfg, cin):
  """The parameter inventory of the architecture."""
  out, p = {}, f'{nm}/~/'
  def bn(m, c):
    out[m, 'scale'] = out[m, 'offset'] = (1, 1, 1, c)
  out[p + 'initial_conv', 'w'] = (7, 7, cin, 64)
  if not cfg['v2']:
    bn(p + 'initial_batchnorm', 64)
  cur = 64
  for g in range(4):
    ch = cfg['channels'][g]
    mid = ch // 4 if cfg['bottleneck'] else ch
    for b in range(cfg['blocks'][g]):
      q = f'{p}block_group_{g}/~/block_{b}/~/'
      if cfg['proj'][g] and b == 0:
        out[q + 'shortcut_conv', 'w'] = (1, 1, cur, ch)
        if not cfg['v2']:
          bn(q + 'shortcut_batchnorm', ch)
      convs = [(1, mid), (3, mid), (1, ch)] if cfg['bottleneck'] else [(3, ch), (3, ch)]
      for i, (k, o) in enumerate(convs):
        out[f'{q}conv_{i}', 'w'] = (k, k, cur, o)
        bn(f'{q}batchnorm_{i}', cur if cfg['v2'] else o)
        cur = o
  if cfg['v2']:
    bn(p + 'final_batchnorm', cur)
  out[p + cfg['logits'], 'w'] = (cur, cfg['classes'])
  if cfg['bias']:
    out[p + cfg['logits'], 'b'] = (cfg['classes'],)
  return out


def rand_state(mon, state):
  """Running statistics a training history could have produced."""
  out = {}
  for (m, n), v in two_level(state).items():
    if n == 'counter':
      out[m, n] = np.int32(mon.randint(1, 50))
    else:
      out[m, n] = (mon.np.random(v.shape) + 0.5 if m.endswith('var_ema')
                   else mon.np.standard_normal(v.shape) * 0.3).astype(np.float32)
  return out


def nest(flat):
  out = {}
  for (m, n), v in flat.items():
    out.setdefault(m, {})[n] = v
  return out


def judge(mon, f, nm, mode, x, ref_fn, want_params, decay, eps, cfg, call_args):
  params, state = jax.jit(lambda k, x: f.init(k, x, True, *call_args[1:]))(jax.random.PRNGKey(0), x)
  got = {k: tuple(v.shape) for k, v in two_level(params).items()}
  mon.eq(got, want_params, 'parameters of the network', cfg=cfg)
  bns = {m for m, n in want_params if n == 'scale'}
  mon.eq(set(two_level(state)), {(f'{m}/~/{k}_ema', n) for m in bns for k in ('mean', 'var')
                                for n in ('counter', 'hidden', 'average')}, 'state of the network', cfg=cfg)
  p = {}
  for k, v in two_level(params).items():
    fan = np.prod(v.shape[:-1]) if k[1] == 'w' else 1
    p[k] = (mon.np.standard_normal(v.shape) / np.sqrt(fan) if k[1] == 'w' else
            mon.np.random(v.shape) + 0.5 if k[1] == 'scale' else
            mon.np.standard_normal(v.shape) * 0.3).astype(np.float32)
  s = rand_state(mon, state)
  y, new = jax.jit(lambda p, s, x: f.apply(p, s, None, x, *call_args))(nest(p), nest(s), x)
  box = {}
  def go(p, s, x):
    c = Ctx(p, s, mode, decay, eps)
    out = ref_fn(c, x)
    box['used'] = c.used
    return out, c.new
  # keys with tuples are not orderable pytrees with mixed types: flatten by position
  ks, kp = sorted(s), sorted(p)
  def flat_go(pl, sl, x):
    out, nw = go(dict(zip(kp, pl)), dict(zip(ks, sl)), x)
    return out, [nw[k] for k in ks]
  want, nw = jax.jit(flat_go)([p[k] for k in kp], [s[k] for k in ks], x)
  mon.eq(box['used'], set(p), 'reference uses every parameter (harness)')
  mon.eq(tuple(y.shape), (x.shape[0], cfg['classes']), 'output shape')
  scale = 1 + float(np.abs(want).max())
  mon.close(np.asarray(y) / scale, np.asarray(want) / scale, f'network output ({mode})', rtol=5e-3, atol=5e-3, cfg=cfg)
  new = two_level(new)
  for k, w in zip(ks, nw):
    sc = 1 + float(np.abs(w).max())
    mon.close(np.asarray(new[k]) / sc, np.asarray(w) / sc, 'running statistics', key=k, cfg=cfg, rtol=5e-3, atol=5e-3)
    if mode != 'train':
      mon.same(new[k], s[k], 'evaluation changed the running statistics', key=k)
  mon.ev(mode)


def resnet(mon):
  v2, bott = mon.chance(0.5), mon.chance(0.5)
  cfg = dict(v2=v2, bottleneck=bott, classes=mon.randint(1, 5), bias=True, logits='logits')
  cfg['blocks'] = tuple(mon.pick(1, 1, 2) for _ in range(4))
  cfg['proj'], ch, cur = [], [], 64
  for g in range(4):
    proj = True if g else mon.chance(0.6)
    c = mon.pick(8, 12, 16) if proj else cur
    cfg['proj'].append(proj)
    ch.append(c)
    cur = c
  cfg['channels'] = tuple(ch)
  mode = mon.pick('train', 'eval', 'eval', 'local')
  kw = {}
  decay, eps = 0.9, 1e-5
  if mode != 'eval' or mon.chance(0.4):
    decay, eps = mon.pick(0.9, 0.99, 0.5), 0.1
    kw['bn_config'] = dict(decay_rate=decay, eps=eps)
  if v2 or mon.chance(0.3):
    kw['resnet_v2'] = v2
  if not bott or mon.chance(0.3):
    kw['bottleneck'] = bott
  if mon.chance(0.3):
    lc = dict(with_bias=mon.chance(0.5), name=mon.pick('logits', 'head'))
    cfg['bias'], cfg['logits'] = lc['with_bias'], lc['name']
    kw['logits_config'] = lc
  f = hk.transform_with_state(
      lambda x, tr, *a: hk.nets.ResNet(cfg['blocks'], cfg['classes'], channels_per_group=cfg['channels'],
                                       use_projection=tuple(cfg['proj']), **kw)(x, tr, *a))
  cin = mon.pick(1, 3)
  x = mon.normal((mon.randint(2, 3), mon.pick(24, 32), mon.pick(24, 32), cin))
  args = {'train': (True,), 'eval': (False,), 'local': (False, True)}[mode]
  judge(mon, f, 'res_net', mode, x, lambda c, v: resnet_ref(c, 'res_net', cfg, v),
        resnet_params('res_net', cfg, cin), decay, eps, cfg, args)
  mon.ev('resnet')
  mon.nontrivial('resnet', repr(sorted(cfg.items())), mode)
  mon.sample(dict(cfg, mode=mode))


def mobilenet_params(nm, cfg, cin):
  out = {}
  bn = cfg['bn']
  def norm(m, c):
    out[m, 'scale'] = out[m, 'offset'] = (1, 1, 1, c)
  def bias(m, c):
    out[m, 'b'] = (c,)
  out[f'{nm}/conv2_d', 'w'] = (3, 3, cin, 32)
  (norm(f'{nm}/batch_norm', 32) if bn else bias(f'{nm}/conv2_d', 32))
  cur = 32
  for i, c in enumerate(cfg['channels']):
    b = f'{nm}/mobile_net_v1_block' + (f'_{i}' if i else '')
    out[f'{b}/depthwise_conv', 'w'] = (3, 3, 1, cur)
    out[f'{b}/pointwise_conv', 'w'] = (1, 1, cur, c)
    if bn:
      norm(f'{b}/batch_norm', cur)
      norm(f'{b}/batch_norm_1', c)
    else:
      bias(f'{b}/depthwise_conv', cur)
      bias(f'{b}/pointwise_conv', c)
    cur = c
  out[f'{nm}/logits', 'w'] = (cur, cfg['classes'])
  out[f'{nm}/logits', 'b'] = (cfg['classes'],)
  return out


def mobilenet_ref(c, nm, cfg, x):
  bn = cfg['bn']
  after = lambda x, conv_m, bn_m: relu(c.bn(bn_m, x) if bn else x + c.get(conv_m, 'b'))
  x = conv(x, c.get(f'{nm}/conv2_d', 'w'), 2, 'VALID')
  x = after(x, f'{nm}/conv2_d', f'{nm}/batch_norm')
  for i, (_, s) in enumerate(zip(cfg['channels'], cfg['strides'])):
    b = f'{nm}/mobile_net_v1_block' + (f'_{i}' if i else '')
    x = conv(x, c.get(f'{b}/depthwise_conv', 'w'), s, ((1, 1), (1, 1)), groups=x.shape[-1])
    x = after(x, f'{b}/depthwise_conv', f'{b}/batch_norm')
    x = conv(x, c.get(f'{b}/pointwise_conv', 'w'), 1, 'VALID')
    x = after(x, f'{b}/pointwise_conv', f'{b}/batch_norm_1')
  return c.linear(f'{nm}/logits', x.mean((1, 2)), True)


def mobilenet(mon):
  n = mon.randint(1, 4)
  cfg = dict(strides=tuple(mon.pick(1, 2) for _ in range(n)), channels=tuple(mon.pick(4, 6, 9) for _ in range(n)),
             classes=mon.randint(1, 4), bn=mon.chance(0.7))
  kw = dict(strides=cfg['strides'], channels=cfg['channels'], num_classes=cfg['classes'])
  if not cfg['bn'] or mon.chance(0.4):
    kw['use_bn'] = cfg['bn']
  mode = mon.pick('train', 'eval')
  f = hk.transform_with_state(lambda x, tr: hk.nets.MobileNetV1(**kw)(x, tr))
  x = mon.normal((3, mon.pick(21, 24), mon.pick(21, 24), 3))
  judge(mon, f, 'mobile_net_v1', mode, x, lambda c, v: mobilenet_ref(c, 'mobile_net_v1', cfg, v),
        mobilenet_params('mobile_net_v1', cfg, 3), 0.999, 1e-5, cfg, (mode == 'train',))
  mon.ev('mobilenet')
  mon.nontrivial('mobilenet', repr(sorted(cfg.items())), mode)


PUBLISHED = {
    18: ((2, 2, 2, 2), False, (64, 128, 256, 512), (False, True, True, True), 11689512),
    34: ((3, 4, 6, 3), False, (64, 128, 256, 512), (False, True, True, True), 21797672),
    50: ((3, 4, 6, 3), True, (256, 512, 1024, 2048), (True,) * 4, 25557032),
    101: ((3, 4, 23, 3), True, (256, 512, 1024, 2048), (True,) * 4, 44549160),
    152: ((3, 8, 36, 3), True, (256, 512, 1024, 2048), (True,) * 4, 60192808),
    200: ((3, 24, 36, 3), True, (256, 512, 1024, 2048), (True,) * 4, None),
}


def published(mon):
  """Parameter inventory of each published network (both versions), by abstract evaluation."""
  keys = [(n, v2) for n in PUBLISHED for v2 in (False, True)] + [('mobilenet', True), ('mobilenet', False)]
  k, v2 = keys[mon.index % len(keys)]
  x = jax.ShapeDtypeStruct((1, 64, 64, 3), jnp.float32)
  rng = jax.ShapeDtypeStruct((2,), jnp.uint32)
  if k == 'mobilenet':
    f = hk.transform_with_state(lambda x: hk.nets.MobileNetV1(use_bn=v2)(x, True))
    cfg = dict(bn=v2, classes=1000, channels=(64, 128, 128, 256, 256, 512, 512, 512, 512, 512, 512, 1024, 1024))
    want = mobilenet_params('mobile_net_v1', cfg, 3)
    total = 4231976 if v2 else None
  else:
    blocks, bott, ch, proj, total = PUBLISHED[k]
    cls = getattr(hk.nets, f'ResNet{k}')
    f = hk.transform_with_state(lambda x: cls(1000, resnet_v2=v2)(x, True))
    cfg = dict(v2=v2, bottleneck=bott, blocks=blocks, channels=ch, proj=proj, classes=1000, bias=True, logits='logits')
    want = resnet_params(f'res_net{k}', cfg, 3)
    if v2:
      total = None
  params, state = jax.eval_shape(f.init, rng, x)
  got = {kk: tuple(v.shape) for kk, v in two_level(params).items()}
  mon.eq(got, want, 'parameters of the published network', net=(k, v2))
  if total is not None:
    mon.eq(sum(int(np.prod(s)) for s in got.values()), total, 'published parameter count', net=k)
  y, _ = jax.eval_shape(f.apply, params, state, None, x)
  mon.eq((tuple(y.shape), str(y.dtype)), ((1, 1000), 'float32'), 'output')
  mon.ev('published')
  mon.nontrivial('published', k, v2)


def initial(mon):
  """Initial values: zero logits, unit/zero batch-norm, zero last scale in v1 bottlenecks."""
  v2, bott = mon.chance(0.5), mon.chance(0.6)
  f = hk.transform_with_state(lambda x: hk.nets.ResNet(
      (1, 1, 1, 1), 3, resnet_v2=v2, bottleneck=bott, channels_per_group=(8, 8, 8, 8))(x, True))
  x = mon.normal((2, 32, 32, 3))
  p, s = jax.jit(f.init)(jax.random.PRNGKey(mon.index), x)
  y, _ = jax.jit(f.apply)(p, s, None, x)
  mon.close(y, np.zeros((2, 3)), 'an untrained ResNet predicts zero logits')
  for (m, n), v in two_level(p).items():
    if n == 'w' and not m.endswith('logits'):
      lim = 2 / np.sqrt(np.prod(v.shape[:-1])) / 0.8796  # truncated at two standard deviations
      mon.check(0.3 * lim < np.abs(v).max() <= lim * 1.001 or v.size < 50, 'initial weights', m=m)
    if n == 'scale':
      want = 0. if (m.endswith('batchnorm_2') and not v2) else 1.
      mon.close(v, np.full(v.shape, want), 'initial scale', m=m, v2=v2)
    if n in ('offset', 'b'):
      mon.close(v, np.zeros(v.shape), 'initial offset', m=m)
  mon.nontrivial('initial', v2, bott)


def misuse(mon):
  cases = [
      lambda: hk.nets.ResNet((1, 1, 1), 10),
      lambda: hk.nets.ResNet((1, 1, 1, 1, 1), 10),
      lambda: hk.nets.ResNet((1, 1, 1, 1), 10, channels_per_group=(8, 8, 8)),
      lambda: hk.nets.MobileNetV1(strides=(1, 2), channels=(4,)),
  ]
  mon.raises(ValueError, lambda: hk.transform_with_state(cases[mon.index % 4]).init(jax.random.PRNGKey(0)),
             'inconsistent network configuration')
  mon.ev('rejected')
  mon.nontrivial('misuse', mon.index % 4)


SCENARIOS = {
    'resnet': (resnet, 32, 400),
    'mobilenet': (mobilenet, 16, 300),
    'published': (published, 14, 14),
    'initial': (initial, 8, 24),
    'misuse': (misuse, 8, 8),
}
