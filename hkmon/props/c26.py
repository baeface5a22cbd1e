"""C26: transformed functions compose with every JAX transformation."""
import gc
import weakref

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, progs
from hkmon.core import two_level

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('Random networks exist twice: as Haiku modules and as a pure function of plain dicts. '
        'Random stacks of JAX transformations (jit, vmap over inputs/keys/parameter ensembles, '
        'grad, jvp, vjp, linearize, remat, scan, while_loop, cond, pmap, eval_shape, make_jaxpr) '
        'are applied to init/apply and to the pure function and compared; traces are counted, '
        'tracer leaks and objects kept alive are watched. Non-trivial: network with parameters '
        'and >=1 transformation; distinct by network and stack.')
REQUIRED = {'stacks': 60, 'transforms_applied': 120, 'vmapped_programs': 20, 'leak_checked': 40,
            'trace_counts': 15, 'pmapped': 4, 'objects_watched': 300, 'shape_checks': 25}
ASSUMPTIONS = ['reference network and PRNGSequence ordering (C05) are correct',
               'JAX transformations of the reference function are correct']


# --- networks that exist twice ----------------------------------------------

def gen_net(mon, stateful=True, noise=True):
  """A random layer list; all widths equal so that layers compose."""
  layers = []
  for i in range(mon.randint(1, 5)):
    kind = mon.pick('lin', 'lin', 'scale', 'block', 'tanh', 'shared',
                    *(['noise'] if noise else []), *(['ema', 'count'] if stateful else []))
    layers.append((kind, i))
  if not any(k in ('lin', 'scale', 'block', 'shared') for k, _ in layers):
    layers.insert(0, ('lin', 99))
  return layers


W = 3


class Lin(hk.Module):

  def __call__(self, x):
    w = hk.get_parameter('w', [W, W], init=hk.initializers.RandomNormal(0.5))
    b = hk.get_parameter('b', [W], init=jnp.zeros)
    return x @ w + b


class Scale(hk.Module):

  def __call__(self, x):
    return x * hk.get_parameter('s', [W], init=jnp.ones)


class Block(hk.Module):

  def __init__(self, name=None):
    super().__init__(name=name)
    self.inner = Lin(name='inner')

  def __call__(self, x):
    return x + jnp.sin(self.inner(jnp.cos(Scale(name='pre')(x))))


class Ema(hk.Module):

  def __call__(self, x):
    m = hk.get_state('m', [W], init=jnp.zeros)
    new = 0.5 * m + 0.5 * jnp.tanh(x).reshape(-1, W).mean(0)
    hk.set_state('m', new)
    return x + new


class Count(hk.Module):

  def __call__(self, x):
    n = hk.get_state('n', [], init=jnp.zeros)
    hk.set_state('n', n + 1)
    return x * (1 + n * 0.125)


def hk_net(layers):
  def net(x):
    shared = None
    for kind, i in layers:
      if kind == 'lin':
        x = Lin(name=f'l{i}')(x)
      elif kind == 'scale':
        x = Scale(name=f'l{i}')(x)
      elif kind == 'block':
        x = Block(name=f'l{i}')(x)
      elif kind == 'tanh':
        x = jnp.tanh(x)
      elif kind == 'shared':
        shared = shared or Lin(name='sh')
        x = x + shared(jnp.tanh(x))
      elif kind == 'noise':
        x = x + 0.1 * jax.random.uniform(hk.next_rng_key(), x.shape)
      elif kind == 'ema':
        x = Ema(name=f'l{i}')(x)
      elif kind == 'count':
        x = Count(name=f'l{i}')(x)
    return x
  return net


def ref_net(layers):
  """Pure function of plain dicts, same definition written without Haiku modules."""
  def lin(p, x):
    return x @ p['w'] + p['b']

  def net(p, s, key, x):
    s = {k: dict(v) for k, v in s.items()}
    for kind, i in layers:
      l = f'l{i}'
      if kind == 'lin':
        x = lin(p[l], x)
      elif kind == 'scale':
        x = x * p[l]['s']
      elif kind == 'block':
        x = x + jnp.sin(lin(p[l + '/~/inner'], jnp.cos(x * p[l + '/pre']['s'])))
      elif kind == 'tanh':
        x = jnp.tanh(x)
      elif kind == 'shared':
        x = x + lin(p['sh'], jnp.tanh(x))
      elif kind == 'noise':
        key, sub = jax.random.split(key)
        x = x + 0.1 * jax.random.uniform(sub, x.shape)
      elif kind == 'ema':
        new = 0.5 * s[l]['m'] + 0.5 * jnp.tanh(x).reshape(-1, W).mean(0)
        s[l]['m'] = new
        x = x + new
      elif kind == 'count':
        n = s[l]['n']
        s[l]['n'] = n + 1
        x = x * (1 + n * 0.125)
    return x, s
  return net


def plain(t):
  return {m: dict(t[m]) for m in t}


def compare(mon, got, want, msg, rtol=2e-4, atol=2e-4, **ctx):
  """got may hold Haiku containers where want has dicts."""
  def norm(t):
    if isinstance(t, (tuple, list)):
      return [norm(v) for v in t]
    if hasattr(t, 'items'):
      return {k: norm(t[k]) for k in t}
    return t
  g, gd = jax.tree_util.tree_flatten(norm(got))
  w, wd = jax.tree_util.tree_flatten(norm(want))
  mon.check(gd == wd, msg + ': structure', got=gd, want=wd, **ctx)
  for a, b in zip(g, w):
    mon.close(a, b, msg, rtol=rtol, atol=atol, **ctx)


# --- scenarios ---------------------------------------------------------------

def stacks(mon):
  """Any stack of JAX transformations over apply."""
  layers = gen_net(mon)
  t = hk.transform_with_state(hk_net(layers))
  ref = ref_net(layers)
  x = mon.normal((2, W))
  key = jax.random.PRNGKey(mon.randint(0, 99))
  p, s = t.init(key, x)
  p = jax.tree_util.tree_map(lambda v: jnp.asarray(mon.normal(v.shape, 0.5)), p)
  s = jax.tree_util.tree_map(lambda v: jnp.asarray(mon.normal(v.shape, 0.5)), s)
  f, g = t.apply, ref
  p2, s2 = plain(p), plain(s)
  p1, s1 = (p if mon.chance(0.6) else p2), s  # carries need the container apply returns
  names = []
  batched = 0
  for _ in range(mon.randint(1, 3)):
    kind = mon.pick('jit', 'vmap_x', 'vmap_p', 'vmap_k', 'vmap_all', 'remat', 'scan', 'cond',
                    'closed', 'jaxpr', 'fori')
    if kind.startswith('vmap'):
      if batched == 2:
        continue
      batched += 1
      n = 2 + (batched % 2)
      st = lambda tr: jax.tree_util.tree_map(
          lambda v: jnp.stack([jnp.asarray(v) * (1 + 0.25 * i) for i in range(n)]), tr)
      ax = dict(vmap_x=(None, None, None, 0), vmap_p=(0, None, None, None),
                vmap_k=(None, None, 0, None), vmap_all=(0, 0, 0, 0))[kind]
      if ax[0] == 0:
        p1, p2 = st(p1), st(p2)
      if ax[1] == 0:
        s1, s2 = st(s1), st(s2)
      if ax[2] == 0:
        key = jnp.stack([jax.random.fold_in(key, i) for i in range(n)]) if key.ndim == 1 else (
            jnp.stack([jax.vmap(lambda k, i=i: jax.random.fold_in(k, i))(key)
                       for i in range(n)]))
      if ax[3] == 0:
        x = st(x)
      wrap = lambda h, ax=ax: jax.vmap(h, in_axes=ax)
    elif kind == 'jit':
      wrap = jax.jit
    elif kind == 'remat':
      wrap = jax.checkpoint
    elif kind == 'scan':
      def wrap(h):
        def scanned(p, s, k, x):
          def body(c, _):
            xx, ss = c
            o, ss2 = h(p, ss, k, xx)
            ss = jax.tree_util.tree_map(lambda a, b: jnp.broadcast_to(b, a.shape) * 0.5 + a * 0.5
                                        if a.shape == b.shape else a, ss, ss2) if not _same(
                                            ss, ss2) else ss2
            if o.shape != xx.shape:
              return c, o
            return (jnp.tanh(o), ss), o
          (_, ss), os = jax.lax.scan(body, (x, s), None, length=2)
          return os, ss
        return scanned
      if batched:
        continue  # carries must keep their shape
    elif kind == 'fori':
      if batched:
        continue
      def wrap(h):
        def looped(p, s, k, x):
          def body(i, c):
            o, ss = h(p, c[1], jax.random.fold_in(k, i), c[0])
            return jnp.tanh(o) if o.shape == c[0].shape else c[0], ss
          if not _shape_stable(h, p, s, k, x):
            return h(p, s, k, x)
          return jax.lax.fori_loop(0, 3, body, (x, s))
        return looped
    elif kind == 'cond':
      flag = mon.chance(0.5)
      def wrap(h, flag=flag):
        def branching(p, s, k, x):
          def other(p, s, k, x):
            return h(p, s, k, -x)
          return jax.lax.cond(jnp.asarray(flag), h, other, p, s, k, x)
        return branching
    elif kind == 'closed':
      wrap = lambda h: (lambda p, s, k, x: jax.closure_convert(h, p, s, k, x)[0](
          p, s, k, x, *jax.closure_convert(h, p, s, k, x)[1]))
    else:
      def wrap(h):
        def run(p, s, k, x):
          jaxpr, shape = jax.make_jaxpr(h, return_shape=True)(p, s, k, x)
          flat = jax.core.eval_jaxpr(jaxpr.jaxpr, jaxpr.consts,
                                     *jax.tree_util.tree_leaves((p, s, k, x)))
          return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(shape), flat)
        return run
    names.append(kind)
    f, g = wrap(f), wrap(g)
  deriv = mon.pick('none', 'grad', 'grad_x', 'jvp', 'vjp', 'linearize', 'value_and_grad', 'jacfwd')
  names.append(deriv)

  def loss(h):
    def l(p, s, k, x):
      o, s = h(p, s, k, x)
      return jnp.sum(jnp.sin(o)), (o, s)
    return l

  tang = lambda tr: jax.tree_util.tree_map(lambda v: jnp.ones_like(v) * 0.5, tr)

  def outcome(h, p, s):
    if deriv == 'none':
      return h(p, s, key, x)
    if deriv == 'grad':
      return jax.grad(loss(h), has_aux=True)(p, s, key, x)
    if deriv == 'value_and_grad':
      return jax.value_and_grad(loss(h), argnums=(0, 1), has_aux=True)(p, s, key, x)
    if deriv == 'grad_x':
      return jax.jit(jax.grad(loss(h), argnums=3, has_aux=True))(p, s, key, x)
    only = lambda p, x: h(p, s, key, x)
    if deriv == 'jvp':
      return jax.jvp(only, (p, x), (tang(p), tang(x)))
    if deriv == 'vjp':
      o, back = jax.vjp(only, p, x)
      return o, back(tang(o))
    if deriv == 'linearize':
      o, lin = jax.linearize(only, p, x)
      return o, lin(tang(p), tang(x))
    return jax.jacfwd(lambda x: h(p, s, key, x)[0])(x)

  x = jnp.asarray(x)
  got = outcome(f, p1, s1)
  want = outcome(g, p2, s2)
  compare(mon, got, want, 'transformed apply vs pure function', stack=names, layers=layers)
  mon.ev('stacks')
  mon.ev('transforms_applied', len(names))
  mon.nontrivial(layers, names)
  mon.sample(dict(layers=layers, stack=names))


def _same(a, b):
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  return len(la) == len(lb) and all(u.shape == v.shape for u, v in zip(la, lb))


def _shape_stable(h, p, s, k, x):
  o, ss = jax.eval_shape(h, p, s, k, x)
  return o.shape == x.shape and _same(ss, s)


def _to_tree(t):
  return {m: {n: np.asarray(t[m][n]) for n in t[m]} for m in t}


def vmapped(mon):
  """vmap of init and apply of arbitrary programs equals the stacked single calls."""
  program, _ = lang.gen_program(mon, hi=35, param=4, sget=1, sset=1, sinc=1, key=1)
  fn, _ = lang.haiku_fn(program, record=False)
  t = hk.transform_with_state(fn)
  n = 3
  xs = jnp.stack([lang.X0 + i for i in range(n)])
  keys = jnp.stack([jax.random.PRNGKey(mon.randint(0, 999)) for _ in range(n)])
  jit = jax.jit if mon.chance(0.4) else (lambda f: f)
  p, s = jit(jax.vmap(t.init))(keys, xs)
  single = [t.init(keys[i], xs[i]) for i in range(n)]
  ps = [progs.nest(progs.fresh_values(mon, progs.np_tree(single[0][0]))) for _ in range(n)]
  ss = [progs.nest(progs.fresh_values(mon, progs.np_tree(single[0][1]))) for _ in range(n)]
  for i in range(n):
    mon.tree_same(jax.tree_util.tree_map(lambda v, i=i: v[i], p), single[i][0],
                  'vmap(init) parameters')
    mon.tree_same(jax.tree_util.tree_map(lambda v, i=i: v[i], s), single[i][1],
                  'vmap(init) state')
  stack = lambda ts: jax.tree_util.tree_map(lambda *v: jnp.stack([jnp.asarray(u) for u in v]), *ts)
  o, s2 = jit(jax.vmap(t.apply))(stack(ps), stack(ss), keys, xs)
  for i in range(n):
    oi, si = t.apply(ps[i], ss[i], keys[i], xs[i])
    mon.same(np.asarray(o)[i], oi, 'vmap(apply) output')
    mon.tree_same(jax.tree_util.tree_map(lambda v, i=i: v[i], s2), si, 'vmap(apply) state')
  mon.ev('vmapped_programs')
  if two_level(p) or two_level(s):
    mon.nontrivial('vmap', program)


def shapes(mon):
  """eval_shape / AOT lowering / make_jaxpr of init and apply agree with running them."""
  program, _ = lang.gen_program(mon, hi=40, param=5, sget=1, sset=1, sinc=1, key=1)
  fn, _ = lang.haiku_fn(program, record=False)
  t = hk.transform_with_state(fn)
  key = jax.random.PRNGKey(1)
  p, s = t.init(key, lang.X0)
  o, s2 = t.apply(p, s, key, lang.X0)
  spec = lambda tr: jax.tree_util.tree_map(
      lambda v: jax.ShapeDtypeStruct(np.shape(v), jnp.asarray(v).dtype), tr)
  def match(shape, real, msg):
    a, ad = jax.tree_util.tree_flatten(shape)
    b, bd = jax.tree_util.tree_flatten(real)
    mon.check(ad == bd, msg + ': structure (containers and order)', got=ad, want=bd)
    for u, v in zip(a, b):
      mon.check(u.shape == np.shape(v) and u.dtype == jnp.asarray(v).dtype, msg,
                got=(u.shape, u.dtype), want=(np.shape(v), jnp.asarray(v).dtype))
  match(jax.eval_shape(t.init, key, lang.X0), (p, s), 'eval_shape(init)')
  match(jax.eval_shape(t.init, spec(key), spec(jnp.asarray(lang.X0))), (p, s),
        'eval_shape(init) from abstract inputs')
  match(jax.eval_shape(t.apply, spec(p), spec(s), key, lang.X0), (o, s2), 'eval_shape(apply)')
  aot = jax.jit(t.apply).lower(p, s, key, jnp.asarray(lang.X0)).compile()
  o3, s3 = aot(p, s, key, jnp.asarray(lang.X0))
  mon.same(o3, o, 'ahead-of-time compiled apply')
  mon.tree_same(s3, s2, 'ahead-of-time compiled apply: state')
  # The order and structure of repeated results never varies.
  mon.check(jax.tree_util.tree_structure(t.init(key, lang.X0)) ==
            jax.tree_util.tree_structure((p, s)), 'structure of repeated init')
  mon.check(jax.tree_util.tree_structure(s2) == jax.tree_util.tree_structure(s),
            'state keeps its structure through apply', got=s2, want=s)
  mon.ev('shape_checks')
  mon.nontrivial('shapes', program)


def trace_once(mon):
  """A jitted training step is traced once however long the loop runs."""
  layers = gen_net(mon)
  traces = [0]
  net = hk_net(layers)
  t = hk.transform_with_state(net)
  ref = ref_net(layers)
  x = mon.normal((4, W))
  key = jax.random.PRNGKey(0)
  wrap_state = mon.pick('direct', 'dict')

  def step(apply, p, s, key, x):
    def loss(p, s):
      o, s = apply(p, s, key, x)
      return jnp.mean(jnp.square(jnp.tanh(o) - 0.3)), s
    (l, s), g = jax.value_and_grad(loss, has_aux=True)(p, s)
    p = jax.tree_util.tree_map(lambda a, b: a - 0.1 * b, p, g)
    return p, s, l

  @jax.jit
  def hk_step(p, s, key, x):
    traces[0] += 1
    return step(t.apply, p, s, key, x)

  p, s = (jax.jit(t.init) if mon.chance(0.5) else t.init)(key, x)
  if wrap_state == 'dict':
    p, s = plain(p), plain(s)
  # Strong types only: initial counters are strongly typed float32 arrays already.
  rp, rs = plain(p), plain(s)
  losses = []
  for i in range(6):
    k = jax.random.fold_in(key, i)
    p, s, l = hk_step(p, s, k, x)
    rp, rs, rl = step(ref, rp, rs, k, x)
    mon.close(l, rl, 'loss of training step', step=i, layers=layers)
    losses.append(float(l))
  want = 1 if wrap_state == 'direct' else 2
  mon.check(traces[0] <= want, 'a jitted training step was retraced', traces=traces[0], layers=layers)
  compare(mon, p, rp, 'parameters after training', layers=layers)
  compare(mon, s, rs, 'state after training', layers=layers)
  mon.ev('trace_counts')
  mon.nontrivial('trace', layers, wrap_state)


def leaks(mon):
  """No tracer escapes and nothing is kept alive after init/apply (sanitizer run)."""
  program, n = lang.gen_program(mon, hi=40, param=5, sget=1, sset=1, sinc=1, key=1)
  fault = mon.chance(0.3)
  fn, _ = lang.haiku_fn(program, record=False)
  refs = []
  boom = [False]

  class Probe(hk.Module):

    def __call__(self, x):
      w = hk.get_parameter('pw', [2], init=jnp.ones)
      st = hk.get_state('ps', [], init=jnp.zeros)
      hk.set_state('ps', st + 1)
      refs.append(weakref.ref(self))
      if boom[0]:
        raise KeyError('boom')
      return x + 0 * w.sum().astype(x.dtype)

  def outer(x):
    m = Probe()
    y = fn(x)
    return m(y) if np.shape(y) == np.shape(x) else (y, m(x))

  t = hk.transform_with_state(outer)
  key = jax.random.PRNGKey(0)
  p, s = t.init(key, lang.X0)
  pp, sp = plain(p), plain(s)

  def observed(fun):
    with jax.checking_leaks():
      return fun()

  mode = mon.pick('jit', 'vmap', 'grad', 'shape')
  def run():
    if mode == 'jit':
      jax.jit(lambda *a: t.init(*a))(key, lang.X0)
      jax.jit(lambda *a: t.apply(*a))(p, s, key, lang.X0)
    elif mode == 'vmap':
      jax.vmap(lambda k: t.init(k, lang.X0))(jnp.stack([key, key]))
      jax.vmap(lambda k: t.apply(p, s, k, lang.X0))(jnp.stack([key, key]))
    elif mode == 'grad':
      jax.grad(lambda p: sum(jnp.sum(l).astype(jnp.float32) for l in jax.tree_util.tree_leaves(
          t.apply(p, s, key, lang.X0)[0])))(
              jax.tree_util.tree_map(lambda v: jnp.asarray(v, jnp.float32), p))
    else:
      jax.eval_shape(t.init, key, lang.X0)
      jax.eval_shape(t.apply, p, s, key, lang.X0)
  if fault:
    boom[0] = True
    try:
      observed(run)
      mon.fail('the injected exception disappeared')
    except KeyError:
      pass
    boom[0] = False
  try:
    observed(run)
  except Exception as e:  # pylint: disable=broad-except
    if 'leak' in str(e).lower():
      mon.fail('a tracer leaked out of a transformed function', error=e, mode=mode)
    raise
  mon.ev('leak_checked')

  # Eager run with parameters nobody else holds: all must be collectable afterwards.
  class Arr(np.ndarray):
    """ndarray subclass: weak-referenceable."""

  def tracked(tr):
    out = {}
    for m in tr:
      out[m] = {}
      for nme in tr[m]:
        a = np.array(tr[m][nme]).view(Arr)
        watch.append(weakref.ref(a))
        out[m][nme] = a
    return out

  watch = []
  a, b = tracked(pp), tracked(sp)
  out = t.apply(a, b, key, lang.X0)
  del a, b, out
  x = np.array(lang.X0).view(Arr)
  watch.append(weakref.ref(x))
  out = t.init(key, x)
  del out, x
  gc.collect()
  alive = sum(w() is not None for w in watch)
  mon.check(alive == 0, 'arguments of finished calls are kept alive', alive=alive, of=len(watch),
            program=program)
  alive = sum(r() is not None for r in refs)
  mon.check(alive == 0, 'modules of finished calls are kept alive', alive=alive, of=len(refs))
  mon.ev('objects_watched', len(watch) + len(refs))
  mon.nontrivial('leaks', program, mode, fault)


def pmapped(mon):
  """pmap over devices equals the per-device calls."""
  layers = gen_net(mon)
  t = hk.transform_with_state(hk_net(layers))
  n = jax.local_device_count()
  mon.check(n >= 2, 'harness: several devices expected', n=n)
  keys = jax.random.split(jax.random.PRNGKey(mon.randint(0, 99)), n)
  xs = mon.normal((n, 2, W))
  p, s = jax.pmap(t.init)(keys, xs)
  o, s2 = jax.pmap(t.apply)(p, s, keys, xs)
  for i in range(n):
    pi, si = t.init(keys[i], xs[i])
    pick = lambda tr, i=i: jax.tree_util.tree_map(lambda v: np.asarray(v)[i], tr)
    compare(mon, pick(p), pi, 'pmap(init) parameters', layers=layers)
    oi, s2i = t.apply(pi, si, keys[i], xs[i])
    compare(mon, np.asarray(o)[i], oi, 'pmap(apply) output', layers=layers)
    compare(mon, pick(s2), s2i, 'pmap(apply) state', layers=layers)
  mon.ev('pmapped')
  mon.nontrivial('pmap', layers)


SCENARIOS = {
    'stacks': (stacks, 130, 4000),
    'vmapped': (vmapped, 36, 1000),
    'shapes': (shapes, 48, 1200),
    'trace_once': (trace_once, 32, 600),
    'leaks': (leaks, 80, 2000),
    'pmapped': (pmapped, 8, 100),
}
