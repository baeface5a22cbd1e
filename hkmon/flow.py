"""Random programs over hk.* JAX transforms, run wrapped and as plain Python.

The same AST is executed twice through the real library: once using hk.jit / hk.scan /
hk.cond / ..., once with each of them replaced by the Python construct it stands for
(call, for, if, while). Parameters, state, keys and outputs must agree exactly.
Derivatives are predicted in closed form: every statement maps x to mod(3x+v) with v
independent of x, so d(sum(body(x)))/dx = 3**(number of such steps executed).
"""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

MOD = 1009.0
sg = jax.lax.stop_gradient

BASIC = ['param', 'sinc', 'key', 'call', 'call', 'add', 'scope', 'wrng']
TRANS = ['jit', 'remat', 'named', 'vmap', 'vgrad', 'evalshape']
CTRL = ['cond', 'switch', 'scan', 'fori', 'while']


class FlowGen:

  def __init__(self, mon, wraps, n_mods=2, p_wrap=0.35):
    self.mon, self.wraps, self.n_mods, self.p_wrap = mon, wraps, n_mods, p_wrap

  def program(self):
    m = self.mon
    mods = []
    for _ in range(self.n_mods):
      mods.append(dict(
          init=m.chance(0.5), call=self.module_body(), encode=self.module_body(),
          inner=m.chance(0.5)))
    main = []
    for _ in range(m.randint(1, 3)):
      if m.chance(0.5):
        main.append(self.basic(m.pick('param', 'sinc', 'key', 'call', 'sset')))
      main.append(self.wrap(0, frozenset()))
    main.append(['sinc', 'tail', 3])
    if m.chance(0.7):
      main.append(['key'])
    return dict(mods=mods, main=main)

  def module_body(self):
    out = [self.basic(self.mon.pick('param', 'sinc', 'key', 'add'))
           for _ in range(self.mon.randint(1, 3))]
    # Transforms used inside a module's method (only those valid in every caller context).
    safe = [w for w in self.wraps if w in ('jit', 'remat', 'named', 'scan', 'fori')]
    if safe and self.mon.chance(0.3):
      kind = self.mon.pick(safe)
      inner = [self.basic(self.mon.pick('param', 'sinc', 'key')) for _ in range(2)]
      if kind == 'jit':
        out.append(['jit', inner, self.mon.randint(1, 2), 'plain'])
      elif kind == 'scan':
        out.append(['scan', inner, self.mon.randint(1, 2), self.mon.randint(0, 3),
                    self.mon.chance(0.4), 1, 'xs'])
      elif kind == 'fori':
        out.append(['fori', inner, 0, self.mon.randint(1, 2), self.mon.randint(0, 2)])
      else:
        out.append([kind, inner])
    return out

  def basic(self, kind):
    m = self.mon
    if kind == 'param':
      return ['param', m.pick('w', 'b'), m.randint(1, 30)]
    if kind in ('sinc', 'sset'):
      return [kind, m.pick('s', 'c'), m.randint(1, 30)]
    if kind == 'call':
      return ['call', m.randint(0, self.n_mods - 1), m.pick('__call__', 'encode')]
    if kind == 'add':
      return ['add', m.randint(1, 9)]
    if kind == 'scope':
      # A scope is a (counted) module: only used where it is opened once per trace.
      return ['add', m.randint(1, 9)]
    if kind == 'wrng':
      return ['wrng', m.randint(0, 9), [self.basic(m.pick('key', 'call'))]]
    return ['key']

  def body(self, depth, ctx):
    m = self.mon
    out = []
    for _ in range(m.randint(1, 3)):
      if depth < 2 and m.chance(self.p_wrap):
        out.append(self.wrap(depth, ctx))
      elif m.chance(0.2) and not (ctx & {'vmap', 'grad'}):
        out.append(self.basic('sset'))
      else:
        out.append(self.basic(m.pick(BASIC)))
    return out

  def wrap(self, depth, ctx):
    m = self.mon
    opts = list(self.wraps)
    if 'vmap' in ctx:
      opts = [o for o in opts if o not in ('cond', 'switch', 'while', 'vgrad')]
    if 'grad' in ctx:
      opts = [o for o in opts if o != 'while']
    if not opts:
      return self.basic('param')
    kind = m.pick(opts)
    d = depth + 1
    if kind == 'jit':
      return ['jit', self.body(d, ctx), m.randint(1, 2), m.pick('plain', 'kw', 'static')]
    if kind in ('remat', 'named', 'evalshape'):
      return [kind, self.body(d, ctx)]
    if kind == 'vmap':
      return ['vmap', self.body(d, ctx | {'vmap'}), m.pick('0', '1', '01', 'tuple', 'neg', 'none')]
    if kind == 'vgrad':
      return ['vgrad', self.body(d, ctx | {'grad'}), m.pick('grad', 'value'), m.chance(0.5),
              m.pick('0', '1', 'tuple')]
    if kind == 'cond':
      return ['cond', self.body(d, ctx), self.body(d, ctx), m.randint(0, 3),
              m.pick('new', 'old', 'same', 'const')]
    if kind == 'switch':
      return ['switch', [self.body(d, ctx) for _ in range(m.randint(1, 3))], m.randint(0, 9)]
    if kind == 'scan':
      return ['scan', self.body(d, ctx), m.randint(1, 3), m.randint(0, 4), m.chance(0.4),
              m.pick(1, 1, 2), m.pick('xs', 'xs', 'both', 'length')]
    if kind == 'fori':
      return ['fori', self.body(d, ctx), m.randint(-1, 2), m.randint(1, 3), m.randint(0, 3)]
    if kind == 'while':
      return ['while', self.body(d, ctx), m.randint(0, 3)]
    raise AssertionError(kind)


class Flow:

  def __init__(self, program, wrapped, mon=None, fault_at=None):
    self.p, self.wrapped, self.mon = program, wrapped, mon
    self.mixes = 0
    self.mods = []
    self.ticks = 0
    self.fault_at = fault_at

  def tick(self):
    from hkmon.core import Injected
    i = self.ticks
    self.ticks += 1
    if self.fault_at is not None and i == self.fault_at:
      raise Injected(str(i))

  def make_mods(self):
    flow = self

    class Inner(hk.Module):
      def __call__(self, x):
        return flow.run([['param', 'iw', 4], ['sinc', 'is', 2]], x)

    class Mod(hk.Module):
      def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.sub = Inner() if spec['init'] else None

      def __call__(self, x):
        x = flow.run(self.spec['call'], x)
        if self.sub is not None:
          x = self.sub(x)
        if self.spec['inner']:
          x = Inner(name='dyn')(x)
        return x

      def encode(self, x):
        return flow.run(self.spec['encode'], x)

    self.mods = [Mod(s) for s in self.p['mods']]

  def main(self, x):
    self.make_mods()
    return self.run(self.p['main'], x)

  def run(self, body, x):
    for s in body:
      x = self.step(s, x)
    return x

  def mix(self, x, v):
    self.mixes += 1
    return jnp.mod(x * 3 + sg(v), MOD)

  def step(self, s, x):
    self.tick()
    kind = s[0]
    if kind == 'param':
      return self.mix(x, hk.get_parameter(s[1], [], init=lambda sh, d: jnp.full(sh, s[2], d)))
    if kind == 'sinc':
      v = hk.get_state(s[1], [], init=lambda sh, d: jnp.full(sh, s[2], d))
      hk.set_state(s[1], jnp.mod(v * 2 + 1, MOD))
      return self.mix(x, v)
    if kind == 'sset':
      hk.get_state(s[1], [], init=lambda sh, d: jnp.full(sh, s[2], d))
      hk.set_state(s[1], jnp.mod(jnp.sum(x) + s[2], MOD))
      return x
    if kind == 'key':
      k = hk.next_rng_key()
      return self.mix(x, (k[0] % 97).astype(jnp.float32))
    if kind == 'call':
      return getattr(self.mods[s[1]], s[2])(x)
    if kind == 'add':
      return jnp.mod(x + s[1], MOD)
    if kind == 'wrng':
      with hk.with_rng(jax.random.PRNGKey(s[1])):
        return self.run(s[2], x)
    return getattr(self, 'w_' + kind)(s, x)

  # -- transforms ----------------------------------------------------------
  def w_jit(self, s, x):
    _, body, times, form = s
    if not self.wrapped:
      for _ in range(times):
        x = self.run(body, x)
        x = jnp.mod(x + 2, MOD)
      return x
    if form == 'static':
      f = hk.jit(lambda n, x: jnp.mod(self.run(body, x) + n, MOD), static_argnums=0)
      g = lambda x: f(2, x)
    elif form == 'kw':
      f = hk.jit(lambda x, *, n: jnp.mod(self.run(body, x) + n, MOD))
      g = lambda x: f(x, n=2.)
    else:
      f = hk.jit(lambda x, n: jnp.mod(self.run(body, x) + n, MOD))
      g = lambda x: f(x, jnp.float32(2))
    for _ in range(times):
      x = g(x)
    return x

  def w_remat(self, s, x):
    if not self.wrapped:
      return self.run(s[1], x)
    return hk.remat(lambda x: self.run(s[1], x))(x)

  def w_named(self, s, x):
    if not self.wrapped:
      return self.run(s[1], x)
    return hk.experimental.named_call(lambda x: self.run(s[1], x), name='nm')(x)

  def w_evalshape(self, s, x):
    # Discards every effect; only the abstract result is visible. What it creates is
    # discarded too, so its body is connected once for real during init.
    x = self.touch([s[1]], x)
    if not self.wrapped:
      return jnp.mod(x + 4, MOD)
    out = hk.eval_shape(lambda x: (self.run(s[1], x), jnp.int32(3)), x)
    assert out[0].shape == x.shape and out[1].dtype == jnp.int32, out
    return jnp.mod(x + 4, MOD)

  def w_vmap(self, s, x):
    _, body, form = s
    a, b = x, jnp.mod(x + 1, MOD)
    axis_in, axis_out = 0, 0
    if form == '1' and x.ndim:
      axis_in = axis_out = 1
    elif form == '01' and x.ndim:
      axis_in, axis_out = 0, 1
    elif form == 'neg':
      axis_in = axis_out = -1
    xs = jnp.stack([a, b], axis=axis_in)
    if not self.wrapped:
      ys = self.run(body, xs)
      if axis_in != axis_out:
        ys = jnp.moveaxis(ys, axis_in, axis_out)
    elif form == 'tuple':
      ys = hk.vmap(lambda x, n: self.run(body, x) * n, in_axes=(axis_in, None),
                   out_axes=axis_out)(xs, jnp.float32(1))
    elif form == 'none':
      ys, one = hk.vmap(lambda x: (self.run(body, x), jnp.ones(())), in_axes=axis_in,
                        out_axes=(axis_out, None))(xs)
      ys = ys * one
    else:
      ys = hk.vmap(lambda x: self.run(body, x), in_axes=axis_in, out_axes=axis_out)(xs)
    y0 = jnp.take(ys, 0, axis=axis_out)
    y1 = jnp.take(ys, 1, axis=axis_out)
    return jnp.mod(y0 + sg(y1), MOD)

  def w_vgrad(self, s, x):
    _, body, which, has_aux, argn = s
    if not self.wrapped:
      before = self.mixes
      y = self.run(body, x)
      k = self.mixes - before
      self.mixes = before
      value = jnp.sum(y)
      g = jnp.full(x.shape, 3.0 ** k if k < 80 else 1e30, jnp.float32)
      other = jnp.float32(2)
      aux = jnp.float32(5)
    else:
      if argn == '0':
        argnums = 0
        def loss(x, z):
          y = jnp.sum(self.run(body, x)) + 0 * z
          return (y, jnp.float32(5)) if has_aux else y
        args = (x, jnp.float32(1))
      elif argn == '1':
        argnums = 1
        def loss(z, x):
          y = jnp.sum(self.run(body, x)) + 0 * z
          return (y, jnp.float32(5)) if has_aux else y
        args = (jnp.float32(1), x)
      else:
        argnums = (0, 1)
        def loss(x, z):
          y = jnp.sum(self.run(body, x)) + z * 2 - sg(z) * 2
          return (y, jnp.float32(5)) if has_aux else y
        args = (x, jnp.float32(1))
      before = self.mixes
      if which == 'grad':
        out = hk.grad(loss, argnums=argnums, has_aux=has_aux)(*args)
        g, aux = out if has_aux else (out, jnp.float32(5))
        value = None
      else:
        out, g = hk.value_and_grad(loss, argnums=argnums, has_aux=has_aux)(*args)
        value, aux = out if has_aux else (out, jnp.float32(5))
      other = jnp.float32(2)
      if argn == 'tuple':
        g, other = g
      self.mixes = before
    if which == 'grad':
      value = jnp.float32(0)
    gm = jnp.where(g < 1e6, jnp.mod(g, MOD), 7.0)
    v = jnp.mod(value, MOD) + jnp.mod(jnp.sum(gm), MOD) + other + aux
    return self.mix(x, jnp.mod(v, MOD))

  # -- control flow ----------------------------------------------------------
  def touch(self, bodies, x):
    """During init all branches are connected once, as the documentation advises."""
    if hk.running_init():
      for b in bodies:
        x = self.run(b, x)
    return x

  def w_cond(self, s, x):
    _, b1, b2, k, form = s
    x = self.touch([b1, b2], x)
    if form == 'const':
      pred = k % 2 == 0
    else:
      pred = jnp.mod(jnp.sum(sg(x)) + k, 2) < 1
    f1 = lambda x: self.run(b1, x)
    f2 = lambda x: jnp.mod(self.run(b2, x) + 1, MOD)
    if form == 'same':
      f2 = f1
    if not self.wrapped:
      return f1(x) if bool(pred) else f2(jnp.mod(x + 2, MOD) if form == 'old' else x)
    if form == 'old':
      return hk.cond(pred, x, f1, jnp.mod(x + 2, MOD), f2)
    return hk.cond(pred, f1, f2, x)

  def w_switch(self, s, x):
    _, bodies, k = s
    x = self.touch(bodies, x)
    idx = jnp.mod(jnp.sum(sg(x)) + k, len(bodies)).astype(jnp.int32)
    fs = [lambda x, i=i, b=b: jnp.mod(self.run(b, x) + i, MOD) for i, b in enumerate(bodies)]
    if not self.wrapped:
      return fs[int(idx)](x)
    return hk.switch(idx, fs, x)

  def w_scan(self, s, x):
    _, body, l_init, l_apply, reverse, unroll, form = s
    n = l_init if hk.running_init() else l_apply
    if form == 'length':
      xs = None
    else:
      xs = {'a': jnp.arange(1., n + 1), 'b': jnp.arange(n)[:, None] * jnp.ones((1, 2))}
    def f(c, v):
      c = self.run(body, c)
      if v is not None:
        c = jnp.mod(c + v['a'], MOD)
        y = jnp.mod(sg(c) + v['b'].sum(), MOD)
      else:
        y = jnp.mod(sg(c) + 1, MOD)
      return c, (y, y + 1)
    if not self.wrapped:
      order = range(n)
      ys = [None] * n
      for i in (reversed(order) if reverse else order):
        v = None if xs is None else {k: u[i] for k, u in xs.items()}
        x, ys[i] = f(x, v)
      zero = jnp.zeros((0,) + x.shape)
      y = jnp.stack([a for a, _ in ys]) if n else zero
      y2 = jnp.stack([a for _, a in ys]) if n else zero
    else:
      kw = {} if form == 'xs' else dict(length=n)
      x, (y, y2) = hk.scan(f, x, xs, reverse=reverse, unroll=unroll, **kw)
    assert y.shape == (n,) + x.shape and y2.shape == y.shape, (y.shape, n)
    w = jnp.arange(1., n + 1).reshape((n,) + (1,) * x.ndim)
    return self.mix(x, jnp.mod(jnp.sum(jnp.mod(y * w + y2, MOD), 0), MOD))

  def w_fori(self, s, x):
    _, body, lo, n_init, n_apply = s
    n = n_init if hk.running_init() else n_apply
    f = lambda i, x: jnp.mod(self.run(body, x) + i + 2, MOD)
    if not self.wrapped:
      for i in range(lo, lo + n):
        x = f(i, x)
      return x
    return hk.fori_loop(lo, lo + n, f, x)

  def w_while(self, s, x):
    _, body, n = s
    f = lambda v: (v[0] + 1, jnp.mod(self.run(body, v[1]) + v[0], MOD))
    if hk.running_init():
      return f((jnp.int32(0), x))[1]
    if not self.wrapped:
      v = (0, x)
      while v[0] < n:
        v = f(v)
      return v[1]
    return hk.while_loop(lambda v: v[0] < n, f, (jnp.int32(0), x))[1]


def fn_of(program, wrapped, fault_at=None, holder=None):
  def f(x):
    fl = Flow(program, wrapped, fault_at=fault_at)
    if holder is not None:
      holder['flow'] = fl
    out = fl.main(x)
    # Records what the program computed during init as an initial value.
    hk.get_parameter('seen', [], init=lambda s, d: jnp.mod(jnp.sum(out), MOD))
    hk.get_state('seen', [], init=lambda s, d: jnp.mod(jnp.sum(out) * 3, MOD))
    return out, hk.next_rng_key()
  return f


def kinds_of(program):
  seen = []
  def walk(o):
    if isinstance(o, list):
      if o and isinstance(o[0], str):
        seen.append(o[0])
      for q in o:
        walk(q)
  walk(program['main'])
  return seen


def compare(mon, program, jit_apply=False):
  """Wrapped vs plain, init and a chain of applies."""
  tw = hk.transform_with_state(fn_of(program, True))
  tp = hk.transform_with_state(fn_of(program, False))
  x = np.asarray([2., 3., 5.], np.float32)
  key = jax.random.PRNGKey(mon.randint(0, 99))
  pp, sp = tp.init(key, x)
  pw, sw = tw.init(key, x)
  mon.tree_same(pw, pp, 'params created under hk transforms vs plain Python')
  mon.tree_same(sw, sp, 'initial state under hk transforms vs plain Python')
  mon.ev('flow_init')
  from hkmon import progs
  vp = progs.nest(progs.fresh_values(mon, progs.np_tree(pp)))
  apply_w = jax.jit(tw.apply) if jit_apply else tw.apply
  for i in range(2):
    k = jax.random.PRNGKey(100 + i)
    (op, kp), sp2 = tp.apply(vp, sp, k, x + i)
    (ow, kw), sw2 = apply_w(vp, sp, k, x + i)
    mon.same(ow, op, 'output under hk transforms vs plain Python')
    mon.tree_same(sw2, sp2, 'state under hk transforms vs plain Python')
    mon.same(kw, kp, 'next key after hk transforms vs plain Python')
    sp = sp2
    mon.ev('flow_apply')
  for kd in kinds_of(program):
    if kd in TRANS + CTRL:
      mon.ev('node_' + kd)
