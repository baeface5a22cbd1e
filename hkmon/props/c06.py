"""C06: Haiku's function transforms behave like the plain function call."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import flow, progs, zoo
from hkmon.core import two_level

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('Random programs over modules/parameters/state/keys using hk.jit, remat, named_call, '
        'vmap, grad, value_and_grad, eval_shape (nested, inside methods, mixed with control '
        'flow) run through the real library twice: wrapped, and with each transform replaced '
        'by the plain Python call (derivatives predicted in closed form); parameters, state, '
        'outputs and keys must agree bit for bit in init and over a chain of applies. Library '
        'layers are wrapped too. Non-trivial: >=1 transform executed; distinct by program.')
REQUIRED = {'flow_init': 100, 'flow_apply': 200, 'node_jit': 20, 'node_remat': 20,
            'node_vmap': 20, 'node_vgrad': 20, 'node_named': 20, 'node_evalshape': 10,
            'layer_wrapped': 40, 'outside_rejected': 10, 'derivatives': 20,
            'shape_only': 20}
ASSUMPTIONS = ['bodies draw from the same outer key stream as the unwrapped call would',
               'hk.vmap bodies keep state and parameters independent of the mapped axis']


def trans(mon):
  p = flow.FlowGen(mon, flow.TRANS).program()
  flow.compare(mon, p)
  mon.nontrivial(p)
  mon.sample(p['main'])


def mixed(mon):
  p = flow.FlowGen(mon, flow.TRANS + ['cond', 'scan', 'fori']).program()
  flow.compare(mon, p)
  mon.nontrivial(p)


def jitted(mon):
  p = flow.FlowGen(mon, flow.TRANS, p_wrap=0.2).program()
  flow.compare(mon, p, jit_apply=True)
  mon.nontrivial('j', p)


def layers(mon):
  """Library layers under hk.jit / hk.remat / hk.named_call equal the plain layer."""
  e = zoo.entry(mon, zoo.LIGHT + zoo.HEAVY)
  how = mon.pick('jit', 'remat', 'named', 'jit-remat', 'grad')
  heavy = e['name'] in ('resnet_block', 'conv_lstm')
  args = e['args']
  def plain(*a):
    return e['fn'](*a), hk.maybe_next_rng_key()
  def wrapped(*a):
    f = e['fn']
    if how == 'jit':
      f = hk.jit(f)
    elif how == 'remat':
      f = hk.remat(f)
    elif how == 'named':
      f = hk.experimental.named_call(f, name='x')
    elif how == 'jit-remat':
      f = hk.jit(hk.remat(f))
    elif how == 'grad':
      g = e['fn']
      def f(*a):
        _, out = hk.grad(lambda z, *a: ((lambda o: (jnp.sum(o) * 0. + z, o))(g(*a))),
                         has_aux=True)(jnp.float32(1), *a)
        return out
    return f(*a), hk.maybe_next_rng_key()
  key = jax.random.PRNGKey(mon.randint(0, 99))
  tp, tw = hk.transform_with_state(plain), hk.transform_with_state(wrapped)
  pp, sp = tp.init(key, *args)
  pw, sw = tw.init(key, *args)
  mon.tree_close(pw, pp, f'{how}({e["name"]}): parameters', rtol=1e-5, atol=1e-6)
  mon.tree_close(sw, sp, f'{how}({e["name"]}): state', rtol=1e-4, atol=1e-5)
  (op, kp), sp2 = tp.apply(pp, sp, key, *args)
  (ow, kw), sw2 = tw.apply(pp, sp, key, *args)
  mon.close(ow, op, f'{how}({e["name"]}): output', rtol=1e-3, atol=1e-4)
  mon.tree_close(sw2, sp2, f'{how}({e["name"]}): state after apply', rtol=1e-3, atol=1e-4)
  mon.same(kw, kp, f'{how}({e["name"]}): next key')
  del heavy
  mon.ev('layer_wrapped')
  mon.nontrivial('layer', e['name'], how)


def derivs(mon):
  """Derivatives through and inside hk transforms equal those of the pure function."""
  n = mon.randint(1, 3)
  wrap = mon.pick('jit', 'remat', 'named', 'none', 'vmap')
  argnums = mon.pick(0, 1, (0, 1), (1, 0))
  x, y = mon.normal((n,)), mon.normal((n,))
  scale = float(mon.randint(1, 4))

  class Net(hk.Module):
    def __call__(self, x, y):
      w = hk.get_parameter('w', [n], init=hk.initializers.Constant(0.5))
      c = hk.get_state('c', [], init=jnp.zeros)
      hk.set_state('c', c + 1)
      return jnp.sum(jnp.sin(x * w) * y ** 2) * scale

  def body(x, y):
    m = Net()
    f = m
    if wrap == 'jit':
      f = hk.jit(lambda a, b: m(a, b))
    elif wrap == 'remat':
      f = hk.remat(lambda a, b: m(a, b))
    elif wrap == 'named':
      f = hk.experimental.named_call(lambda a, b: m(a, b), name='q')
    elif wrap == 'vmap':
      f = lambda a, b: hk.vmap(lambda a, b: m(a, b), in_axes=(0, None))(a[None], b)[0]
    v, g = hk.value_and_grad(f, argnums=argnums)(x, y)
    g2 = hk.grad(f, argnums=argnums)(x, y)
    (v3, aux), g3 = hk.value_and_grad(lambda a, b: (f(a, b), a * 2), argnums=argnums,
                                      has_aux=True)(x, y)
    g4, aux4 = hk.grad(lambda a, b: (f(a, b), b * 3), argnums=argnums, has_aux=True)(x, y)
    return (v, v3, v3, v), (g, g2, g3, g4), (aux, aux4)

  t = hk.transform_with_state(body)
  p, s = t.init(None, x, y)
  mon.eq(sorted(two_level(p)), [('net', 'w')], 'parameters created under grad')
  w = mon.normal((n,))
  p = {'net': {'w': w}}
  (vs, gs, auxs), s2 = t.apply(p, s, None, x, y)
  # Closed form.
  xf, yf, wf = (np.asarray(a, np.float64) for a in (x, y, w))
  val = np.sum(np.sin(xf * wf) * yf ** 2) * scale
  gx = np.cos(xf * wf) * wf * yf ** 2 * scale
  gy = np.sin(xf * wf) * 2 * yf * scale
  by = {0: gx, 1: gy}
  for v in vs:
    mon.close(v, val, f'{wrap}: value under hk.value_and_grad')
  for g in gs:
    if isinstance(argnums, tuple):
      mon.check(isinstance(g, tuple) and len(g) == len(argnums), 'gradient structure')
      for gi, a in zip(g, argnums):
        mon.close(gi, by[a], f'{wrap}: gradient w.r.t. argument {a}', argnums=argnums)
    else:
      mon.close(g, by[argnums], f'{wrap}: gradient w.r.t. argument {argnums}')
  mon.close(auxs[0], xf * 2, 'aux of value_and_grad')
  mon.close(auxs[1], yf * 3, 'aux of grad')
  # Each derivative runs the function exactly once.
  mon.close(np.asarray(s2['net']['c']) - np.asarray(s['net']['c']), 4.,
            f'{wrap}: state updates made while differentiating')
  # Derivative w.r.t. params from outside.
  def loss(p):
    (vs, _, _), _ = t.apply(p, s, None, x, y)
    return vs[0]
  gw = jax.grad(loss)(p)['net']['w']
  mon.close(gw, np.cos(xf * wf) * xf * yf ** 2 * scale, f'{wrap}: outer gradient w.r.t. params')
  mon.ev('derivatives', 4)
  mon.nontrivial('deriv', wrap, argnums, n)


def shapes(mon):
  """hk.eval_shape reports shapes/dtypes and leaves no trace."""
  e = zoo.entry(mon)
  twice = mon.chance(0.5)
  def f(*a):
    if hk.running_init():
      e['fn'](*a)
      return
    k0 = hk.next_rng_key()
    box = []
    sd = hk.eval_shape(lambda *a: box.append(e['fn'](*a)) or box[-1], *a)
    if twice:
      sd = hk.eval_shape(e['fn'], *a)
    out = sd
    return k0, hk.next_rng_key(), jax.tree_map(lambda s: np.zeros(s.shape, s.dtype), out)
  key = jax.random.PRNGKey(mon.randint(0, 99))
  t = hk.transform_with_state(f)
  p, s = t.init(key, *e['args'])
  (k0, k1, sd), s2 = t.apply(p, s, key, *e['args'])
  w0, w1 = hk.transform(lambda: (hk.next_rng_key(), hk.next_rng_key())).apply({}, key)
  mon.same(k0, w0, 'key before eval_shape')
  mon.same(k1, w1, f'eval_shape({e["name"]}) consumed keys')
  mon.tree_same(s2, s, f'eval_shape({e["name"]}) changed state')
  real, _ = hk.transform_with_state(e['fn']).apply(p, s, key, *e['args'])
  mon.eq((sd.shape, sd.dtype), (real.shape, real.dtype), f'eval_shape({e["name"]}) result')
  # During init its effects are discarded as well.
  def g(*a):
    hk.eval_shape(e['fn'], *a)
    return hk.next_rng_key()
  p2, s3 = hk.transform_with_state(g).init(key, *e['args'])
  mon.check(not two_level(p2) and not two_level(s3), 'eval_shape created entries during init',
            params=p2, state=s3)
  mon.ev('shape_only')
  mon.nontrivial('shape', e['name'], twice)


def args_(mon):
  """Arguments, keyword arguments and pytrees go through unchanged."""
  kw = mon.chance(0.5)
  tree = {'a': mon.normal((2,)), 'b': (mon.normal(()), [mon.normal((3,))])}
  which = mon.pick('jit', 'remat', 'named', 'vmap', 'donate', 'static')
  seen = []
  shift = mon.normal((2,))
  top, res = mon.pick(tuple, list), mon.pick(tuple, list)
  def fn(t, n=1.0, *rest, flag=2.0):
    seen.append(1)
    hk.set_state('k', hk.get_state('k', [], init=jnp.zeros) + 1)
    return jax.tree_map(lambda v: v * n + flag, t), sum(rest)
  def plain():
    out = jax.tree_map(lambda v: v * 3. + (5. if kw else 2.), tree)
    if which == 'vmap' and kw:
      out['a'] = out['a'] + shift
    return (res if which == 'vmap' else tuple)((out, 7.))
  def f():
    if which in ('jit', 'donate'):
      g = hk.jit(fn)
    elif which == 'static':
      g = hk.jit(fn, static_argnums=(1,))
    elif which == 'remat':
      g = hk.remat(fn)
    elif which == 'named':
      g = hk.experimental.named_call(fn, name='n')
    else:
      def one(t, n, a, b, shift=None):  # Keyword arguments are mapped over their first axis.
        r, total = fn(t, n, a, b, flag=5. if kw else 2.)
        return res((r if shift is None else dict(r, a=r['a'] + shift['v'][0]), total))
      g = hk.vmap(one,
                  in_axes=top(({'a': 0, 'b': (None, [None])}, None, None, None)),
                  out_axes=res(({'a': 0, 'b': (None, [None])}, None)))
      return g(tree, 3., 3., 4., **(dict(shift={'v': shift[:, None]}) if kw else {}))
    if kw:
      return g(tree, 3., 3., 4., flag=5.)
    return g(tree, 3., 3., 4.)
  t = hk.transform_with_state(f)
  p, s = t.init(None)
  out, s2 = t.apply(p, s, None)
  want = plain()
  mon.eq(jax.tree_util.tree_structure(out), jax.tree_util.tree_structure(want),
         f'{which}: result structure')
  for a, b in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(want)):
    mon.close(a, b, f'{which}: forwarded arguments', rtol=1e-6, atol=1e-6)
  mon.close(s2['~']['k'] - s['~']['k'], 1., f'{which}: executed exactly once')
  mon.nontrivial('args', which, kw)


def outside(mon):
  """Outside a transform these raise ValueError instead of silently losing state."""
  f = lambda x: x
  x = jnp.float32(1)
  for name, call in dict(
      jit=lambda: hk.jit(f)(x), remat=lambda: hk.remat(f)(x), grad=lambda: hk.grad(f)(x),
      value_and_grad=lambda: hk.value_and_grad(f)(x)).items():
    mon.raises(ValueError, call, f'hk.{name} outside a transform')
    mon.ev('outside_rejected')
  # named_call is documented to work outside as well.
  mon.close(hk.experimental.named_call(f, name='z')(x), 1., 'named_call outside')
  mon.nontrivial('outside')


SCENARIOS = {
    'trans': (trans, 110, 3000),
    'mixed': (mixed, 50, 1500),
    'jitted': (jitted, 16, 300),
    'layers': (layers, 72, 900),
    'derivs': (derivs, 32, 400),
    'shapes': (shapes, 40, 500),
    'args': (args_, 24, 200),
    'outside': (outside, 4, 4),
}
