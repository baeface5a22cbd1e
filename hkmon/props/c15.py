"""C15: convolutions."""
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('Random rank 1-3 convolutions (kernel, stride, dilation, groups, masks, all padding '
        'forms, both layouts, batched/unbatched, dtypes), transposed, depthwise and separable '
        'ones, with random weights, against a direct float64 sum over taps; parameter shapes '
        'and names against the documentation. Non-trivial: >=2 taps or stride/dilation/groups '
        '!= 1; distinct by configuration.')
REQUIRED = {'layer_runs': 150, 'conv': 60, 'transpose': 40, 'depthwise': 30, 'pads': 40,
            'rejected': 20, 'explicit_pairs': 10, 'mixed_masks': 12, 'low_precision_mixed_masks': 2}
ASSUMPTIONS = ['SAME/VALID follow the XLA definition: SAME gives ceil(in/stride) outputs with '
               'the extra padding at the end']

FORMATS = {1: ('NWC', 'NCW'), 2: ('NHWC', 'NCHW'), 3: ('NDHWC', 'NCDHW')}


def make_mask(mon, wshape, dt):
  """None, or a 0/1, boolean or weighting mask: the kernel is multiplied by it."""
  if not mon.chance(0.3):
    return None
  keep = mon.np.random(wshape) < 0.6
  kind = mon.pick('01', 'bool', 'weights', 'signed')
  mon.ev('masks_' + kind)
  # masks are often plain NumPy arrays, whatever the precision of the network
  mdt = mon.pick(dt, dt, 'float32', 'float64', 'int32' if kind == '01' else dt)
  mon.ev('mixed_masks', int(mdt != dt))
  mon.ev('low_precision_mixed_masks', int(dt != 'float32' and mdt in ('float32', 'float64') and kind != 'bool'))
  if kind == 'bool':
    return keep
  if kind == '01':
    return keep.astype(ref.np_dtype(mdt))
  vals = mon.np.integers(-4 if kind == 'signed' else 0, 5, wshape) / 2
  return (vals * keep).astype(ref.np_dtype(mdt))


def correlate(x, w, stride, rate, pads, groups=1):
  """x [N, *S, C] float64, w [*K, C//groups, O] -> [N, *S', O]; plain cross-correlation."""
  nd = x.ndim - 2
  x = np.pad(x, [(0, 0)] + [(max(a, 0), max(b, 0)) for a, b in pads] + [(0, 0)])
  sl = [slice(None)]
  for i, (a, b) in enumerate(pads):  # negative padding crops
    n = x.shape[i + 1]
    sl.append(slice(-a if a < 0 else 0, n + b if b < 0 else n))
  x = x[tuple(sl)]
  ks = w.shape[:nd]
  out_sp = [max((x.shape[i + 1] - ((ks[i] - 1) * rate[i] + 1)) // stride[i] + 1, 0)
            for i in range(nd)]
  cin, o = x.shape[-1], w.shape[-1]
  out = np.zeros((x.shape[0], *out_sp, o))
  if any(d <= 0 for d in out_sp):
    return out
  cg, og = cin // groups, o // groups
  for g in range(groups):
    for tap in itertools.product(*[range(k) for k in ks]):
      idx = tuple(slice(t * r, t * r + (n - 1) * s + 1, s)
                  for t, r, n, s in zip(tap, rate, out_sp, stride))
      patch = x[(slice(None),) + idx + (slice(g * cg, (g + 1) * cg),)]
      out[..., g * og:(g + 1) * og] += patch @ w[tap][:, g * og:(g + 1) * og]
  return out


def same_pads(n, k, s, r=1):
  ek = (k - 1) * r + 1
  out = -(-n // s)
  total = max((out - 1) * s + ek - n, 0)
  return total // 2, total - total // 2


PADFNS = {
    'valid': (hk.pad.valid, lambda e: (0, 0)),
    'same': (hk.pad.same, lambda e: ((e - 1) // 2, e - 1 - (e - 1) // 2)),
    'full': (hk.pad.full, lambda e: (e - 1, e - 1)),
    'causal': (hk.pad.causal, lambda e: (e - 1, 0)),
    'reverse_causal': (hk.pad.reverse_causal, lambda e: (0, e - 1)),
}


def pick_padding(mon, nd):
  k = mon.pick('SAME', 'VALID', 'same', 'valid', 'fn', 'fns', 'custom', 'pairs', 'default', 'fn1')
  if k in ('SAME', 'VALID', 'same', 'valid', 'default'):
    return k, None
  if k == 'fn':
    return k, mon.pick(sorted(PADFNS))
  if k == 'fn1':
    return k, mon.pick(sorted(PADFNS))
  if k == 'fns':
    return k, [mon.pick(sorted(PADFNS)) for _ in range(nd)]
  if k == 'custom':
    return k, (mon.randint(0, 2), mon.randint(0, 2))
  return k, [(mon.randint(0, 2), mon.randint(0, 2)) for _ in range(nd)]


def resolve(kind, spec, sp, ks, stride, rate):
  """(argument for Haiku or None, list of explicit pads)."""
  nd = len(sp)
  ek = [(k - 1) * r + 1 for k, r in zip(ks, rate)]
  if kind in ('SAME', 'same', 'default'):
    return (None if kind == 'default' else kind,
            [same_pads(n, k, s, r) for n, k, s, r in zip(sp, ks, stride, rate)])
  if kind in ('VALID', 'valid'):
    return kind, [(0, 0)] * nd
  if kind == 'fn':
    return PADFNS[spec][0], [PADFNS[spec][1](e) for e in ek]
  if kind == 'fn1':
    return [PADFNS[spec][0]], [PADFNS[spec][1](e) for e in ek]
  if kind == 'fns':
    return [PADFNS[s][0] for s in spec], [PADFNS[s][1](e) for s, e in zip(spec, ek)]
  if kind == 'custom':
    a, b = spec
    return (lambda e: (e - 1 + a, b)), [(e - 1 + a, b) for e in ek]
  return [tuple(p) for p in spec], list(spec)


def maybe_scalar(mon, v):
  """Pass uniform per-dim settings as scalar or length-1 sequence sometimes."""
  if len(set(v)) == 1:
    return mon.pick(v[0], [v[0]], tuple(v), list(v))
  return mon.pick(tuple(v), list(v))


def to_first(x, batched):
  return np.moveaxis(x, -1, 1 if batched else 0)


def conv(mon):
  nd = mon.pick(1, 1, 2, 2, 3)
  sp = [mon.randint(3, 7 if nd < 3 else 5) for _ in range(nd)]
  same = mon.chance(0.4)
  def per_dim(lo, hi):
    a = mon.randint(lo, hi)
    return [a if same else mon.randint(lo, hi) for _ in range(nd)]
  ks, stride, rate = per_dim(1, 3), per_dim(1, 3), per_dim(1, 2)
  groups = mon.pick(1, 1, 1, 2, 3)
  cin, cout = groups * mon.randint(1, 2), groups * mon.randint(1, 3)
  kind, spec = pick_padding(mon, nd)
  arg, pads = resolve(kind, spec, sp, ks, stride, rate)
  if any(n + a + b < (k - 1) * r + 1 for n, (a, b), k, r in zip(sp, pads, ks, rate)):
    sp = [n + 5 for n in sp]
    arg, pads = resolve(kind, spec, sp, ks, stride, rate)
  first = mon.chance(0.4)
  batched = mon.chance(0.75)
  bias = mon.chance(0.6)
  dt = ref.dtype(mon, 0.2)
  n = mon.randint(1, 3) if batched else 1
  x = ref.arr(mon, (n, *sp, cin), dt)
  wshape = (*ks, cin // groups, cout)
  mask = make_mask(mon, wshape, dt)
  kw = dict(kernel_shape=maybe_scalar(mon, ks), stride=maybe_scalar(mon, stride),
            rate=maybe_scalar(mon, rate), with_bias=bias)
  if arg is not None:
    kw['padding'] = arg
  if mask is not None:
    kw['mask'] = mask
  if groups > 1:
    kw['feature_group_count'] = groups
  style = mon.pick('ND', 'D')
  if style == 'ND':
    cls, pos, name = hk.ConvND, (nd, cout), 'conv_nd'
    fmts = ('channels_last', 'N...C', FORMATS[nd][0]), ('channels_first', 'NC...', FORMATS[nd][1])
  else:
    cls, pos = [hk.Conv1D, hk.Conv2D, hk.Conv3D][nd - 1], (cout,)
    name = f'conv{nd}_d'
    fmts = (FORMATS[nd][0], 'channels_last'), (FORMATS[nd][1], 'channels_first')
  if first or mon.chance(0.4):
    kw['data_format'] = mon.pick(fmts[int(first)])
  # unit weights sometimes, to make defaults visible
  want = {(name, 'w'): (wshape, dt)}
  if bias:
    want[name, 'b'] = ((cout,) + (1,) * nd if first else (cout,), dt)
  xin = x if batched else x[0]
  if first:
    xin = to_first(xin, batched)
  r = ref.Run(mon, lambda v: cls(*pos, **kw)(v), (xin,), want_params=want)
  if dt == 'float32':
    w0 = ref.f64(two_level(r.init_params)[name, 'w'])
    fan = np.prod(wshape[:-1])
    mon.check(np.abs(w0).max() <= 2.0001 / np.sqrt(fan), 'default w_init scale')
  w = r.p[name, 'w']
  if mask is not None:
    w = w * ref.f64(mask)
  y = correlate(ref.f64(x), w, stride, rate, pads, groups)
  if bias:
    y = y + r.p[name, 'b'].reshape(cout)
  if not batched:
    y = y[0]
  if first:
    y = to_first(y, batched)
  got = r()
  ref.check(mon, got, y, dt, f'{cls.__name__}', k=4, config=dict(
      sp=sp, ks=ks, stride=stride, rate=rate, groups=groups, pad=(kind, spec), first=first,
      batched=batched, mask=mask is not None))
  mon.ev('conv')
  if kind == 'pairs':
    mon.ev('explicit_pairs')
  mon.nontrivial('conv', sp, ks, stride, rate, groups, kind, spec, first, batched)
  mon.sample(dict(cls=cls.__name__, sp=sp, ks=ks, stride=stride, rate=rate, padding=kind))


def causality(mon):
  """causal padding: outputs do not depend on later inputs (and mirrored)."""
  t, k, rate = mon.randint(4, 9), mon.randint(1, 4), mon.randint(1, 3)
  rev = mon.chance(0.5)
  pad = hk.pad.reverse_causal if rev else hk.pad.causal
  f = hk.transform(lambda x: hk.Conv1D(2, k, rate=rate, padding=pad)(x))
  x = mon.normal((1, t, 2))
  p = f.init(jax.random.PRNGKey(0), x)
  y = np.asarray(f.apply(p, None, x))
  mon.eq(y.shape[1], t, 'causal padding keeps the length')
  cut = mon.randint(0, t - 1)
  x2 = x.copy()
  if rev:
    x2[:, :cut] += 10
    mon.close(np.asarray(f.apply(p, None, x2))[:, cut:], y[:, cut:], 'depends on the past')
  else:
    x2[:, cut + 1:] += 10
    mon.close(np.asarray(f.apply(p, None, x2))[:, :cut + 1], y[:, :cut + 1], 'depends on the future')
  mon.ev('pads')
  mon.nontrivial('causal', t, k, rate, rev, cut)


def pads(mon):
  n = mon.randint(1, 3)
  ks = [mon.randint(1, 6) for _ in range(n)]
  rate = [mon.randint(1, 3) for _ in range(n)]
  fns = [mon.pick(sorted(PADFNS)) for _ in range(n)]
  want = tuple(tuple(PADFNS[f][1]((k - 1) * r + 1)) for f, k, r in zip(fns, ks, rate))
  got = hk.pad.create([PADFNS[f][0] for f in fns], ks, rate, n)
  mon.eq(tuple(tuple(p) for p in got), want, 'hk.pad.create', ks=ks, rate=rate, fns=fns)
  f, k, r = fns[0], ks[0], rate[0]
  got = hk.pad.create(PADFNS[f][0], k, r, n)
  mon.eq(tuple(tuple(p) for p in got), (want[0],) * n, 'hk.pad.create replicated')
  for m in range(1, 8):
    mon.eq(sum(hk.pad.same(m)), m - 1, 'same padding')
  mon.ev('pads')
  mon.nontrivial('pads', n, ks, rate, fns)


def transpose(mon):
  nd = mon.pick(1, 1, 2, 2, 3)
  sp = [mon.randint(1, 4 if nd < 3 else 3) for _ in range(nd)]
  ks = [mon.randint(1, 4 if nd < 3 else 3) for _ in range(nd)]
  stride = [mon.randint(1, 3) for _ in range(nd)]
  cin, cout = mon.randint(1, 2), mon.randint(1, 3)
  kind = mon.pick('SAME', 'VALID', 'default', 'pairs', 'outshape', 'outshape')
  kw = {}
  if kind in ('SAME', 'default', 'VALID'):
    if kind != 'default':
      kw['padding'] = kind
    pads, want_out = [], []
    for n, k, s in zip(sp, ks, stride):
      total = k + s - 2
      if kind == 'VALID':
        total += max(k - s, 0)
        a = k - 1
        want_out.append(n * s + max(k - s, 0))
      else:
        a = k - 1 if s > k - 1 else -(-total // 2)
        want_out.append(n * s)
      pads.append((a, total - a))
  elif kind == 'pairs':
    pads = [(mon.randint(0, 3) + k - 1, mon.randint(0, 3)) for k in ks]
    kw['padding'] = [tuple(p) for p in pads]
    want_out = None
  else:
    mode = mon.pick('SAME', 'VALID')
    pads, want_out = [], []
    for n, k, s in zip(sp, ks, stride):
      if mode == 'SAME':
        o = mon.randint((n - 1) * s + 1, n * s)
        need = max(0, (n - 1) * s + k - o)
        before = k - 1 - need // 2
      else:
        o = (n - 1) * s + k + mon.randint(0, s - 1)
        before = k - 1
      after = o + k - 1 - ((n - 1) * s + 1) - before
      pads.append((before, after))
      want_out.append(o)
    kw['padding'] = mode
    kw['output_shape'] = maybe_scalar(mon, want_out)
  first, batched, bias = mon.chance(0.4), mon.chance(0.75), mon.chance(0.6)
  dt = ref.dtype(mon, 0.2)
  n = mon.randint(1, 2) if batched else 1
  x = ref.arr(mon, (n, *sp, cin), dt)
  wshape = (*ks, cout, cin)
  mask = make_mask(mon, wshape, dt)
  if mask is not None:
    kw['mask'] = mask
  if mon.chance(0.5):
    cls, pos, name = hk.ConvNDTranspose, (nd, cout), 'conv_nd_transpose'
    fmt = mon.pick('channels_first', 'NC...') if first else mon.pick('channels_last', 'N...C')
  else:
    cls = [hk.Conv1DTranspose, hk.Conv2DTranspose, hk.Conv3DTranspose][nd - 1]
    pos, name = (cout,), f'conv{nd}_d_transpose'
    fmt = FORMATS[nd][int(first)]
  kw.update(kernel_shape=maybe_scalar(mon, ks), stride=maybe_scalar(mon, stride), with_bias=bias)
  if first or mon.chance(0.5):
    kw['data_format'] = fmt
  want = {(name, 'w'): (wshape, dt)}
  if bias:
    want[name, 'b'] = ((cout,) + (1,) * nd if first else (cout,), dt)
  xin = x if batched else x[0]
  if first:
    xin = to_first(xin, batched)
  r = ref.Run(mon, lambda v: cls(*pos, **kw)(v), (xin,), want_params=want)
  w = r.p[name, 'w']
  if mask is not None:
    w = w * ref.f64(mask)
  # dilate the input by the stride, pad, correlate
  dil = np.zeros((n, *[(m - 1) * s + 1 for m, s in zip(sp, stride)], cin))
  dil[(slice(None),) + tuple(slice(None, None, s) for s in stride)] = ref.f64(x)
  y = correlate(dil, np.swapaxes(w, -1, -2), [1] * nd, [1] * nd, pads)
  if want_out is not None:
    mon.eq(list(y.shape[1:-1]), want_out, 'reference output shape (harness)')
  if bias:
    y = y + r.p[name, 'b'].reshape(cout)
  if not batched:
    y = y[0]
  if first:
    y = to_first(y, batched)
  ref.check(mon, r(), y, dt, cls.__name__, k=4, config=dict(
      sp=sp, ks=ks, stride=stride, kind=kind, kw=str(kw)[:300], first=first))
  mon.ev('transpose')
  mon.nontrivial('T', sp, ks, stride, kind, first, batched)


def depthwise(mon):
  sp = [mon.randint(3, 6), mon.randint(3, 6)]
  ks = [mon.randint(1, 3), mon.randint(1, 3)]
  stride = [mon.randint(1, 2)] * 2 if mon.chance(0.5) else [mon.randint(1, 2), mon.randint(1, 2)]
  cin, mult = mon.randint(1, 3), mon.randint(1, 3)
  kind = mon.pick('SAME', 'VALID', 'default', 'pairs')
  kw = {}
  def pads_for(sp, ks, stride):
    if kind in ('SAME', 'default'):
      return [same_pads(n, k, s) for n, k, s in zip(sp, ks, stride)]
    if kind == 'VALID':
      return [(0, 0)] * 2
    return pairs
  pairs = [(mon.randint(0, 2), mon.randint(0, 2)) for _ in range(2)]
  if kind == 'pairs':
    kw['padding'] = pairs
  elif kind != 'default':
    kw['padding'] = kind
  first, bias = mon.chance(0.4), mon.chance(0.6)
  dt = ref.dtype(mon, 0.1)
  if first or mon.chance(0.3):
    kw['data_format'] = (mon.pick('NCHW', 'channels_first') if first
                         else mon.pick('NHWC', 'channels_last'))
  n = mon.randint(1, 2)
  x = ref.arr(mon, (n, *sp, cin), dt)
  xin = to_first(x, True) if first else x
  cout = cin * mult
  bshape = (cout, 1, 1) if first else (cout,)
  sep = mon.chance(0.45)
  skw = dict(kernel_shape=maybe_scalar(mon, ks), stride=maybe_scalar(mon, stride), with_bias=bias)
  if not sep:
    want = {('depthwise_conv2_d', 'w'): ((*ks, 1, cout), dt)}
    if bias:
      want['depthwise_conv2_d', 'b'] = (bshape, dt)
    r = ref.Run(mon, lambda v: hk.DepthwiseConv2D(mult, **skw, **kw)(v), (xin,), want_params=want)
    y = correlate(ref.f64(x), r.p['depthwise_conv2_d', 'w'], stride, [1, 1],
                  pads_for(sp, ks, stride), groups=cin)
    b = r.p.get(('depthwise_conv2_d', 'b'))
  else:
    pre = 'separable_depthwise_conv2_d/~/depthwise_conv2_d'
    want = {(pre, 'w'): ((ks[0], 1, 1, cout), dt), (pre + '_1', 'w'): ((1, ks[1], 1, cout), dt)}
    if bias:
      want[pre + '_1', 'b'] = (bshape, dt)
    r = ref.Run(mon, lambda v: hk.SeparableDepthwiseConv2D(mult, **skw, **kw)(v), (xin,),
                want_params=want)
    y = correlate(ref.f64(x), r.p[pre, 'w'], stride, [1, 1],
                  pads_for(sp, [ks[0], 1], stride), groups=cin)
    y = correlate(y, r.p[pre + '_1', 'w'], [1, 1], [1, 1],
                  pads_for(y.shape[1:3], [1, ks[1]], [1, 1]), groups=cout)
    b = r.p.get((pre + '_1', 'b'))
  if b is not None:
    y = y + b.reshape(cout)
  if first:
    y = to_first(y, True)
  ref.check(mon, r(), y, dt, 'Separable' if sep else 'Depthwise', k=4, config=dict(
      sp=sp, ks=ks, stride=stride, kind=kind, cin=cin, mult=mult, first=first))
  mon.ev('depthwise')
  mon.nontrivial('dw', sep, sp, ks, stride, cin, mult, kind, first)


def misuse(mon):
  x2 = np.ones((1, 4, 4, 2), np.float32)
  cases = [
      (ValueError, lambda: hk.ConvND(0, 2, 2)(x2)),
      (ValueError, lambda: hk.ConvNDTranspose(0, 2, 2)(x2)),
      (ValueError, lambda: hk.Conv2D(2, 2)(np.ones((4, 2), np.float32))),
      (ValueError, lambda: hk.Conv2D(2, 2)(np.ones((1, 1, 4, 4, 2), np.float32))),
      (ValueError, lambda: hk.Conv2DTranspose(2, 2)(np.ones((4, 2), np.float32))),
      (ValueError, lambda: hk.Conv2D(2, 2, mask=np.ones((2, 2, 2, 3)))(x2)),
      (ValueError, lambda: hk.Conv2DTranspose(2, 2, mask=np.ones((2, 2, 2, 3)))(x2)),
      (ValueError, lambda: hk.Conv2D(3, 2, feature_group_count=3)(x2)),
      (ValueError, lambda: hk.Conv2D(2, 2, data_format='WRONG')(x2)),
      (ValueError, lambda: hk.Conv2DTranspose(2, 2, output_shape=9, padding=((0, 0), (0, 0)))(x2)),
      (ValueError, lambda: hk.Conv2DTranspose(2, 2, stride=2, output_shape=20)(x2)),
      (ValueError, lambda: hk.Conv2DTranspose(2, 2, stride=2, padding='VALID', output_shape=3)(x2)),
      (TypeError, lambda: hk.Conv2D(2, [1, 2, 3])(x2)),
      (TypeError, lambda: hk.Conv3D(2, 2, stride=[1, 2])(x2)),
      (TypeError, lambda: hk.Conv2D(2, 2, padding=[hk.pad.same] * 3)(x2)),
  ]
  t, f = cases[mon.index % len(cases)]
  mon.raises(t, lambda: hk.transform(f).init(jax.random.PRNGKey(0)), 'misuse of a convolution',
             case=mon.index % len(cases))
  mon.ev('rejected')
  mon.nontrivial('misuse', mon.index % len(cases))


SCENARIOS = {
    'conv': (conv, 240, 4500),
    'transpose': (transpose, 130, 2500),
    'depthwise': (depthwise, 56, 1500),
    'causality': (causality, 16, 300),
    'pads': (pads, 40, 600),
    'misuse': (misuse, 30, 60),
}
