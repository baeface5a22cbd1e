"""C19: recurrent cores and unrolls."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref
from hkmon.core import two_level
from hkmon.props.c15 import correlate, same_pads

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('Random recurrent cores (VanillaRNN, LSTM, GRU, convolutional LSTMs, IdentityCore, user '
        'cores with non-zero initial state and with Haiku state, DeepRNN stacks with and without '
        'skip connections, ResetCore at any level with every reset signal form), batched and '
        'unbatched, single steps and static/dynamic unrolls in both layouts, against float64 '
        'equations from the documentation. Non-trivial: >=2 steps or a composite core; distinct by '
        'core description, signal form and unroll.')
REQUIRED = {'steps': 400, 'unrolls': 120, 'dynamic': 30, 'static': 25, 'batch_major': 40,
            'resets_fired': 60, 'nested_reset': 5, 'skip': 10, 'conv_lstm': 12, 'rejected': 12,
            'stateful_cores': 10, 'unbatched': 25, 'empty_batches': 3}
ASSUMPTIONS = ['sequences of at least one step; convolutional LSTM input_shape is the spatial shape']


def sig(x):
  return 1 / (1 + np.exp(-x))


class UserCore(hk.RNNCore):
  """Non-zero initial state, and a Haiku state counting calls."""

  def __init__(self, size, count, name=None):
    super().__init__(name=name)
    self.size, self.count = size, count

  def __call__(self, x, s):
    if self.count:
      c = hk.get_state('calls', [], jnp.int32, init=jnp.zeros)
      hk.set_state('calls', c + 1)
    w = hk.get_parameter('w', [x.shape[-1], self.size], init=hk.initializers.RandomNormal())
    a = jnp.tanh(x @ w + s['a'])
    return a + s['b'], dict(a=s['b'] * 0.5, b=a)

  def initial_state(self, batch_size):
    i = dict(a=jnp.arange(self.size) + 1., b=-jnp.ones([self.size]))
    if batch_size is not None:
      i = jax.tree_util.tree_map(lambda v: jnp.broadcast_to(v, (batch_size,) + v.shape), i)
    return i


class M:
  """A core description: builds the Haiku core and steps the float64 model."""

  def __init__(self, mon, kind, n, cin, depth=0):
    self.kind, self.name, self.cin = kind, f'core{n[0]}', cin
    n[0] += 1
    h = mon.randint(1, 3)
    self.h = h
    self.kids = []
    if kind == 'vanilla':
      self.double = mon.chance(0.6)
    if kind == 'user':
      self.count = mon.chance(0.5)
    if kind == 'identity':
      self.h = cin
    if kind == 'reset':
      self.kids = [rand_core(mon, n, cin, depth + 1, no_reset=True)]
      self.h = self.kids[0].h
    if kind == 'deep':
      self.skip = mon.chance(0.4)
      self.layers = []
      cur = cin
      total = 0
      for i in range(mon.pick(1, 2, 2, 3, 3, 4, 5) if depth == 0 else mon.randint(1, 3)):
        if not self.skip and mon.chance(0.3):
          self.layers.append(mon.pick('relu', 'neg'))
        k = rand_core(mon, n, cur + (cin if self.skip and i else 0), depth + 1, no_reset=True)
        self.kids.append(k)
        self.layers.append(k)
        cur = k.h
        total += k.h
      self.h = total if self.skip else cur

  def build(self):
    k, nm = self.kind, self.name
    if k == 'vanilla':
      return hk.VanillaRNN(self.h, name=nm) if self.double else hk.VanillaRNN(self.h, double_bias=False, name=nm)
    if k == 'lstm':
      return hk.LSTM(self.h, name=nm)
    if k == 'gru':
      return hk.GRU(self.h, name=nm)
    if k == 'identity':
      return hk.IdentityCore(name=nm)
    if k == 'user':
      return UserCore(self.h, self.count, name=nm)
    if k == 'reset':
      return hk.ResetCore(self.kids[0].build(), name=nm)
    layers = [l.build() if isinstance(l, M) else {'relu': jax.nn.relu, 'neg': jnp.negative}[l]
              for l in self.layers]
    if self.skip:
      return hk.deep_rnn_with_skip_connections(layers, name=nm)
    return hk.DeepRNN(layers, name=nm)

  def init_state(self, b):
    k = self.kind
    bc = lambda v: v if b is None else np.broadcast_to(v, (b,) + v.shape)
    z = bc(np.zeros(self.h))
    if k in ('vanilla', 'gru'):
      return z
    if k == 'lstm':
      return hk.LSTMState(z, z)
    if k == 'identity':
      return ()
    if k == 'user':
      return dict(a=bc(np.arange(self.h) + 1.), b=bc(-np.ones(self.h)))
    if k == 'reset':
      return self.kids[0].init_state(b)
    return tuple(c.init_state(b) for c in self.kids)

  def params(self, out):
    nm, h, i = self.name, self.h, self.cin
    if self.kind == 'vanilla':
      out[f'{nm}/linear', 'w'], out[f'{nm}/linear', 'b'] = (i, h), (h,)
      out[f'{nm}/linear_1', 'w'] = (h, h)
      if self.double:
        out[f'{nm}/linear_1', 'b'] = (h,)
    elif self.kind == 'lstm':
      out[f'{nm}/linear', 'w'], out[f'{nm}/linear', 'b'] = (i + h, 4 * h), (4 * h,)
    elif self.kind == 'gru':
      out[nm, 'w_i'], out[nm, 'w_h'], out[nm, 'b'] = (i, 3 * h), (h, 3 * h), (3 * h,)
    elif self.kind == 'user':
      out[nm, 'w'] = (i, h)
    for k in self.kids:
      k.params(out)
    return out

  def walk(self):
    yield self
    for k in self.kids:
      yield from k.walk()

  def step(self, p, x, s, b):
    nm, k = self.name, self.kind
    if k == 'vanilla':
      y = x @ p[f'{nm}/linear', 'w'] + p[f'{nm}/linear', 'b'] + s @ p[f'{nm}/linear_1', 'w']
      if self.double:
        y = y + p[f'{nm}/linear_1', 'b']
      y = np.maximum(y, 0)
      return y, y
    if k == 'lstm':
      g = np.concatenate([x, s.hidden], -1) @ p[f'{nm}/linear', 'w'] + p[f'{nm}/linear', 'b']
      i, gg, f, o = np.split(g, 4, -1)
      c = sig(f + 1) * s.cell + sig(i) * np.tanh(gg)
      y = sig(o) * np.tanh(c)
      return y, hk.LSTMState(y, c)
    if k == 'gru':
      h = self.h
      wi, wh, bb = p[nm, 'w_i'], p[nm, 'w_h'], p[nm, 'b']
      z = sig(x @ wi[:, :h] + s @ wh[:, :h] + bb[:h])
      r = sig(x @ wi[:, h:2 * h] + s @ wh[:, h:2 * h] + bb[h:2 * h])
      a = np.tanh(x @ wi[:, 2 * h:] + (r * s) @ wh[:, 2 * h:] + bb[2 * h:])
      y = (1 - z) * s + z * a
      return y, y
    if k == 'identity':
      return x, s
    if k == 'user':
      a = np.tanh(x @ p[nm, 'w'] + s['a'])
      return a + s['b'], dict(a=s['b'] * 0.5, b=a)
    if k == 'reset':
      x, sr = x
      init = self.kids[0].init_state(b)
      if not isinstance(sr, (np.ndarray, np.bool_)):
        sr = jax.tree_util.tree_leaves(sr)
      ls, treedef = jax.tree_util.tree_flatten(s)
      li = jax.tree_util.tree_leaves(init)
      srs = [sr] * len(ls) if isinstance(sr, (np.ndarray, np.bool_)) else sr
      new = [np.where(r.reshape(r.shape + (1,) * (v.ndim - r.ndim)), i, v)
             for r, i, v in zip(srs, li, ls)]
      return self.kids[0].step(p, x, jax.tree_util.tree_unflatten(treedef, new), b)
    states, outs, cur, j = [], [], x, 0
    first = True
    for l in self.layers:
      if not isinstance(l, M):
        cur = np.maximum(cur, 0) if l == 'relu' else -cur
        continue
      if self.skip and not first:
        cur = np.concatenate([x, cur], -1)
      first = False
      cur, ns = l.step(p, cur, s[j], b)
      j += 1
      states.append(ns)
      outs.append(cur)
    return (np.concatenate(outs, -1) if self.skip else cur), tuple(states)

  def desc(self):
    return (self.kind, self.h, tuple(l.desc() if isinstance(l, M) else l
                                     for l in getattr(self, 'layers', self.kids)),
            getattr(self, 'skip', None), getattr(self, 'double', None))


def rand_core(mon, n, cin, depth=0, no_reset=False):
  opts = ['vanilla', 'lstm', 'gru', 'user', 'lstm', 'identity']
  if depth < 2:
    opts += ['deep', 'deep']
  if not no_reset:
    opts += ['reset', 'reset', 'reset', 'deep']
  return M(mon, mon.pick(opts), n, cin, depth)


def make_sr(mon, core, b, t):
  """A should_reset sequence [T, ...] in one of the documented forms."""
  st = core.init_state(b)
  leaves = jax.tree_util.tree_leaves(st)
  p = mon.pick(0.2, 0.5, 0.8)
  rnd = lambda sh: mon.np.random(sh) < p
  if mon.chance(0.4) and leaves:
    mon.ev('nested_reset')
    return jax.tree_util.tree_map(lambda v: rnd((t,) + v.shape[:mon.randint(0, v.ndim)]), st)
  common = []
  while leaves and all(v.ndim > len(common) for v in leaves) and len(
      {v.shape[len(common)] for v in leaves}) == 1:
    common.append(leaves[0].shape[len(common)])
  if not leaves:
    common = [b] if b is not None else []
  k = mon.randint(0, len(common))
  if b is not None and mon.chance(0.6):
    k = 1 if common else 0
  return rnd((t, *common[:k]))


def at(seq, t):
  return jax.tree_util.tree_map(lambda v: v[t], seq)


def bt(seq):
  return jax.tree_util.tree_map(lambda v: np.swapaxes(v, 0, 1), seq)


def cores(mon):
  n = [0]
  cin = mon.randint(1, 3)
  core = rand_core(mon, n, cin)
  b = 0 if mon.chance(0.04) else mon.pick(None, 1, 2, 3)
  t = mon.randint(1, 5)
  xs = mon.normal((t, cin) if b is None else (t, b, cin))
  if core.kind == 'reset':
    seq = (xs, make_sr(mon, core.kids[0], b, t))
  else:
    seq = xs
  how = mon.pick('static', 'dynamic', 'loop', 'dynamic')
  time_major = True
  if b is not None and how != 'loop' and mon.chance(0.5) and all(
      v.ndim >= 2 and v.shape[1] == b for v in jax.tree_util.tree_leaves(seq)):
    time_major = False
  given = mon.chance(0.5)
  s0 = core.init_state(b)
  if given:
    s0 = jax.tree_util.tree_map(lambda v: mon.normal(v.shape), s0)
  s0_j = jax.tree_util.tree_map(lambda v: jnp.asarray(v, jnp.float32), s0)

  def fn(seq):
    c = core.build()
    st = s0_j if given else c.initial_state(b)
    if how == 'loop':
      outs = []
      for i in range(t):
        o, st = c(at(seq, i), st)
        outs.append(o)
      return jnp.stack(outs), st
    f = hk.static_unroll if how == 'static' else hk.dynamic_unroll
    if time_major and mon_kw:
      return f(c, seq, st)
    return f(core=c, input_sequence=seq, initial_state=st, time_major=time_major)

  mon_kw = mon.chance(0.5)
  arg = seq if time_major else bt(seq)
  want = {k: (v, 'float32') for k, v in core.params({}).items()}
  r = ref.Run(mon, fn, (arg,), want_params=want, scale=1.0)
  for (m, nme), v in two_level(r.init_params).items():
    if nme == 'b':
      mon.close(v, np.zeros(v.shape), 'biases start at zero')
  outs, final = r()
  st = s0
  want_out = []
  for i in range(t):
    if core.kind == 'reset':
      mon.ev('resets_fired', int(any(np.any(v) for v in jax.tree_util.tree_leaves(at(seq[1], i)))))
    o, st = core.step(r.p, at(ref_seq(seq), i), st, b)
    want_out.append(o)
    mon.ev('steps')
  want_out = np.stack(want_out, 0 if time_major else 1)
  cfg = dict(core=core.desc(), how=how, b=b, t=t, tm=time_major, given=given)
  mon.close(outs, want_out, 'outputs', rtol=1e-3, atol=1e-3, config=cfg)
  gl, gd = jax.tree_util.tree_flatten(final)
  wl, wd = jax.tree_util.tree_flatten(st)
  mon.eq(str(gd), str(wd), 'structure of the final state', config=cfg)
  for g, w in zip(gl, wl):
    mon.close(g, w, 'final state', rtol=1e-3, atol=1e-3, config=cfg)
  for c in core.walk():
    if c.kind == 'user' and c.count:
      mon.eq(int(two_level(r.new_state)[c.name, 'calls']), t, 'module state updates per step', config=cfg)
      mon.ev('stateful_cores')
    mon.ev('skip', int(getattr(c, 'skip', False)))
  if how != 'loop':
    mon.ev('unrolls')
    mon.ev(how)
  mon.ev('batch_major', int(not time_major))
  mon.ev('unbatched', int(b is None))
  mon.ev('empty_batches', int(b == 0))
  mon.nontrivial(core.desc(), how, b, t, time_major)
  mon.sample(cfg)


def ref_seq(seq):
  return jax.tree_util.tree_map(lambda v: v if v.dtype == bool else v.astype(np.float64), seq)


def initial(mon):
  """initial_state agrees with the documented shapes and values."""
  core = rand_core(mon, [0], 2)
  b = mon.pick(None, 0, 1, 4)
  if mon.chance(0.2):
    nd = mon.randint(1, 3)
    sp, h = tuple(mon.randint(1, 3) for _ in range(nd)), mon.randint(1, 3)
    got = hk.transform(
        lambda: [hk.Conv1DLSTM, hk.Conv2DLSTM, hk.Conv3DLSTM][nd - 1](sp, h, 2).initial_state(b)).apply({}, None)
    mon.check(isinstance(got, hk.LSTMState), 'type of the state of a convolutional LSTM')
    for v in got:
      mon.same(v, np.zeros((*(() if b is None else (b,)), *sp, h), np.float32), 'initial_state of a conv LSTM', b=b)
    mon.nontrivial('init-conv', nd, sp, h, b)
    return
  got = hk.transform(lambda: core.build().initial_state(b)).apply({}, None)
  gl, gd = jax.tree_util.tree_flatten(got)
  wl, wd = jax.tree_util.tree_flatten(core.init_state(b))
  mon.eq(str(gd), str(wd), 'structure of initial_state', core=core.desc())
  for g, w in zip(gl, wl):
    mon.same(g, w.astype(np.float32), 'initial_state', core=core.desc(), b=b)
  mon.nontrivial('init', core.desc(), b)


def conv_lstm(mon):
  nd = mon.randint(1, 3)
  sp = tuple(mon.randint(2, 4) for _ in range(nd))
  ks = [mon.randint(1, 3)] * nd if mon.chance(0.5) else [mon.randint(1, 3) for _ in range(nd)]
  cin, h, b, t = mon.randint(1, 2), mon.randint(1, 2), mon.pick(1, 2, None), mon.randint(1, 3)
  lead = () if b is None else (b,)
  xs = mon.normal((t, *lead, *sp, cin))
  karg = ks[0] if len(set(ks)) == 1 and mon.chance(0.5) else ks
  dyn = mon.chance(0.5)
  reset = mon.chance(0.4) and b is not None
  sr = mon.np.random((t, b or 1)) < 0.4
  def fn(xs, sr):
    c = [hk.Conv1DLSTM, hk.Conv2DLSTM, hk.Conv3DLSTM][nd - 1](sp, h, karg, name='core')
    s = c.initial_state(b)
    if reset:
      c = hk.ResetCore(c)
      xs = (xs, sr)
    return (hk.dynamic_unroll if dyn else hk.static_unroll)(c, xs, s)
  want = {}
  for nme, ci in (('input_to_hidden', cin), ('hidden_to_hidden', h)):
    want[f'core/{nme}', 'w'] = ((*ks, ci, 4 * h), 'float32')
    want[f'core/{nme}', 'b'] = ((4 * h,), 'float32')
  r = ref.Run(mon, fn, (xs, sr), want_params=want)
  outs, final = r()
  bb = b or 1
  hid = cell = np.zeros((bb, *sp, h))
  pads = [same_pads(n, k, 1) for n, k in zip(sp, ks)]
  one = [1] * nd
  res = []
  for i in range(t):
    if reset:
      m = sr[i].reshape((bb,) + (1,) * (nd + 1))
      hid, cell = np.where(m, 0, hid), np.where(m, 0, cell)
    x = xs[i].astype(np.float64).reshape((bb, *sp, cin))
    g = (correlate(x, r.p['core/input_to_hidden', 'w'], one, one, pads) + r.p['core/input_to_hidden', 'b']
         + correlate(hid, r.p['core/hidden_to_hidden', 'w'], one, one, pads) + r.p['core/hidden_to_hidden', 'b'])
    gi, gg, gf, go = np.split(g, 4, -1)
    cell = sig(gf + 1) * cell + sig(gi) * np.tanh(gg)
    hid = sig(go) * np.tanh(cell)
    res.append(hid)
  mon.eq(tuple(outs.shape), (t, *lead, *sp, h), 'shape of convolutional LSTM outputs')
  mon.eq(tuple(final.cell.shape), (*lead, *sp, h), 'shape of convolutional LSTM state')
  mon.eq(tuple(final.hidden.shape), (*lead, *sp, h), 'shape of convolutional LSTM state')
  res = np.stack(res).reshape(outs.shape)
  mon.close(outs, res, 'convolutional LSTM outputs', rtol=1e-3, atol=1e-3, cfg=(nd, sp, ks, reset))
  mon.close(final.hidden, hid.reshape(final.hidden.shape), 'final hidden', rtol=1e-3, atol=1e-3)
  mon.close(final.cell, cell.reshape(final.cell.shape), 'final cell', rtol=1e-3, atol=1e-3)
  mon.ev('conv_lstm')
  mon.nontrivial('conv', nd, sp, tuple(ks), cin, h, b, t, reset)


def plain_unroll(mon):
  """Outside a transform, with nested inputs and outputs."""
  t, b = mon.randint(1, 6), mon.randint(1, 3)
  seq = dict(a=mon.normal((t, b, 2)), b=(mon.normal((t, b)),))
  tm = mon.chance(0.5)
  arg = seq if tm else bt(seq)
  core = lambda x, s: (dict(y=x['a'] + s[:, None], z=(x['b'][0] * s,)), s * 0.5 + x['b'][0])
  s = mon.normal((b,))
  for f in (hk.static_unroll, hk.dynamic_unroll):
    out, fin = f(core, jax.tree_util.tree_map(jnp.asarray, arg), jnp.asarray(s), time_major=tm)
    st, ys, zs = s.astype(np.float64), [], []
    for i in range(t):
      ys.append(seq['a'][i] + st[:, None])
      zs.append(seq['b'][0][i] * st)
      st = st * 0.5 + seq['b'][0][i]
    ax = 0 if tm else 1
    mon.close(out['y'], np.stack(ys, ax), 'unrolled outputs', fn=f.__name__, tm=tm)
    mon.close(out['z'][0], np.stack(zs, ax), 'unrolled outputs', fn=f.__name__, tm=tm)
    mon.close(fin, st, 'final state', fn=f.__name__)
  mon.ev('unrolls', 2)
  mon.nontrivial('plain', t, b, tm)


def misuse(mon):
  x = np.ones((2, 3), np.float32)
  x3 = np.ones((2, 2, 3), np.float32)
  lstm = lambda: hk.LSTM(2)
  def go(c, v, b=2):
    return c(v, c.initial_state(b))
  cases = [
      lambda: go(lstm(), x3),
      lambda: go(lstm(), np.float32(1.)),
      lambda: go(hk.GRU(2), x3),
      lambda: go(hk.GRU(2), np.float32(1.)),
      lambda: go(hk.ResetCore(lstm()), (x, np.zeros((3,), bool))),
      lambda: go(hk.ResetCore(lstm()), (x, np.zeros((2, 3), bool))),
      lambda: go(hk.ResetCore(hk.GRU(2)), (x, np.zeros((1, 2), bool))),
      lambda: go(hk.ResetCore(lstm()), (x, np.zeros((2, 2, 1), bool))),
      lambda: hk.deep_rnn_with_skip_connections([lstm(), jax.nn.relu]),
      lambda: hk.deep_rnn_with_skip_connections([hk.Linear(2), lstm()]),
  ]
  f = cases[mon.index % len(cases)]
  mon.raises(ValueError, lambda: hk.transform(f).init(jax.random.PRNGKey(0)),
             'misuse of a recurrent core', case=mon.index % len(cases))
  mon.ev('rejected')
  mon.nontrivial('misuse', mon.index % len(cases))


SCENARIOS = {
    'cores': (cores, 260, 5000),
    'initial': (initial, 60, 500),
    'conv_lstm': (conv_lstm, 28, 600),
    'plain_unroll': (plain_unroll, 24, 400),
    'misuse': (misuse, 20, 40),
}
