"""C04: state threading through init and apply."""
from typing import Any, NamedTuple

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, progs
from hkmon.core import two_level

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('Random state-heavy programs; apply histories feed states forward, rewind to '
        'earlier states, drop or add entries; every returned state and output is compared '
        'with the reference model. Non-trivial: >=1 state entry and >=3 apply steps; '
        'distinct by program text.')
REQUIRED = {'init_runs': 100, 'apply_runs': 500, 'states_created': 200, 'rewinds': 50,
            'stateless_rejected': 20, 'created_in_apply': 20, 'pytree_states': 80}
ASSUMPTIONS = []


def _gen(mon, **kw):
  kw = dict(dict(param=1, sget=3, sset=3, sinc=4, key=0.3, new=3, newcall=3, call=4), **kw)
  return lang.gen_program(mon, **kw)


def history(mon):
  """A chain of applies, with rewinds, equals the model's chain."""
  program, n = _gen(mon)
  x = lang.X0
  t, h, params, state = progs.check_init(mon, program, mon.randint(0, 50), x)
  fp = progs.fresh_values(mon, progs.np_tree(params))
  states = [state]
  if mon.chance(0.3):
    states = [progs.nest(progs.fresh_values(mon, progs.np_tree(state)))]
  for i in range(mon.randint(3, 5)):
    s = states[-1]
    if mon.chance(0.3):
      s = mon.pick(states)
      mon.ev('rewinds')
    fs = progs.np_tree(s)
    _, new_state, _ = progs.check_apply(mon, program, t, h, fp, fs, mon.randint(0, 9),
                                        x + i, state=s)
    mon.check(sorted(two_level(new_state)) >= sorted(two_level(s)) or
              set(two_level(new_state)) >= set(two_level(s)), 'apply dropped a state entry')
    states.append(new_state)
  if two_level(state):
    mon.nontrivial(program)
  mon.sample(dict(states=[list(k) for k in two_level(state)], steps=len(states) - 1))


def partial(mon):
  """Entries missing at apply are created by their initializer; extras are kept."""
  program, _ = _gen(mon, hi=80)
  x = lang.X0
  t, h, params, state = progs.check_init(mon, program, 3, x)
  fp = progs.np_tree(params)
  fs = progs.fresh_values(mon, progs.np_tree(state))
  for k in list(fs):
    if mon.chance(0.4):
      del fs[k]
      mon.ev('created_in_apply')
  if mon.chance(0.6):
    fs[('zz_extra', 's')] = np.ones(2, np.float32) * mon.randint(0, 9)
  for k in list(fs):
    if mon.chance(0.2):
      fs[(k[0], 'zz')] = np.float32(4)
  progs.check_apply(mon, program, t, h, fp, fs, 2, x)
  if fs:
    mon.nontrivial('partial', program, sorted(fs))


def stateless(mon):
  """hk.transform refuses functions that use state, in init and in apply."""
  program, _ = _gen(mon, hi=60, sget=1, sset=1, sinc=1)
  fn, h = lang.haiku_fn(program)
  key = jax.random.PRNGKey(0)
  p, s = hk.transform_with_state(fn).init(key, lang.X0)
  t = hk.transform(fn)
  ws = hk.without_state(hk.transform_with_state(fn))
  for u in (t, ws):
    if two_level(s):
      mon.raises(ValueError, lambda: u.init(key, lang.X0), 'stateful function in hk.transform (init)')
      mon.raises(ValueError, lambda: u.apply(p, key, lang.X0),
                 'stateful function in hk.transform (apply)')
      mon.ev('stateless_rejected')
    else:
      mon.tree_same(u.init(key, lang.X0), p, 'hk.transform init')
      o1, _ = hk.transform_with_state(fn).apply(p, {}, key, lang.X0)
      mon.same(u.apply(p, key, lang.X0), o1, 'hk.transform apply')
      mon.ev('stateless_accepted')
  mon.nontrivial('stateless', program)


class Pair(NamedTuple):
  left: Any
  right: Any


def pytrees(mon):
  """State values may be any pytree and are threaded verbatim, also through Haiku's transforms."""
  wrap = mon.pick(None, None, None, 'jit', 'remat', 'cond', 'scan', 'fori', 'named', 'vmap')
  def tree(depth=0):
    k = mon.randint(0, 7 if depth < 2 else 3)
    if k <= 1:
      return jnp.asarray(mon.np.integers(0, 99, size=mon.pick([(), (2,), (1, 2), (0,)])),
                         mon.pick('float32', 'int32', 'bool', 'uint32'))
    if k == 2:
      return mon.pick(None, None, (), [], {}, Pair(None, ()))
    if k == 3:
      return mon.pick(1, True, 2.5, np.arange(3.), np.float16(3), np.int32(4)) if wrap is None else None
    if k == 4:
      return {f'k{i}': tree(depth + 1) for i in range(mon.randint(0, 2))}
    if k == 5:
      return tuple(tree(depth + 1) for _ in range(mon.randint(0, 2)))
    if k == 6:
      return Pair(tree(depth + 1), tree(depth + 1))
    return [tree(depth + 1) for _ in range(mon.randint(0, 2))]
  v0 = tree()
  # Control flow keeps structures and dtypes fixed.
  vary = lambda v: jax.tree_util.tree_map(lambda a: a + np.ones((), a.dtype) if wrap else a, v)
  v1, v2 = (tree(), tree()) if wrap in (None, 'jit', 'remat', 'named', 'vmap') else (vary(v0), vary(vary(v0)))

  class M(hk.Module):
    def __call__(self, set_first):
      if set_first:
        hk.set_state('t', v0)
      old = hk.get_state('t', [], init=lambda *_: v0)
      hk.set_state('t', v1)
      mid = hk.get_state('t', [], init=lambda *_: 1 / 0)
      hk.set_state('t', v2)
      return old, mid, hk.get_state('t', [], init=lambda *_: 1 / 0)
  first = mon.chance(0.5)

  def plain(v):  # dictionaries come back as (immutable) mappings
    if hasattr(v, 'items'):
      return {k: plain(u) for k, u in v.items()}
    if isinstance(v, Pair):
      return Pair(*map(plain, v))
    if isinstance(v, (list, tuple)):
      return type(v)(plain(u) for u in v)
    return v

  def run():
    m = M()
    if wrap is None or (wrap == 'cond' and hk.running_init()):
      return m(first)
    z = jnp.zeros([])
    if wrap in ('jit', 'remat'):
      return getattr(hk, wrap)(lambda: m(first))()
    if wrap == 'named':
      return hk.experimental.named_call(lambda: m(first), name='n')()
    if wrap == 'cond':
      return hk.cond(z > -1, lambda _: plain(m(first)), lambda _: (v0, v1, v2), None)
    if wrap == 'scan':
      ys = hk.scan(lambda c, _: (c, m(first)), (), None, length=1)[1]
      return jax.tree_util.tree_map(lambda y: y[0], ys)
    if wrap == 'vmap':
      return hk.vmap(lambda _: m(first), out_axes=None)(jnp.zeros([2]))
    hk.fori_loop(0, 1, lambda i, c: (m(first), c)[1], z)
    return None
  t = hk.transform_with_state(run)
  _, s = t.init(None)
  def same(a, b, what):
    a, b = plain(a), plain(b)
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    mon.eq(ta, tb, what + ': structure')
    for p, q in zip(la, lb):
      mon.same(p, q, what)
      if wrap is None:
        mon.check(p is q, what + ': value replaced by another object')
  read = lambda out, w: out is None or [same(o, v, what) for o, v, what in zip(
      out, w, ('first read', 'read after write', 'last read'))]
  same(s['m']['t'], v0, 'initial pytree state')
  # Modules without entries and entries nobody uses are passed through.
  s = dict(s, empty_module={}, other={'u': tree(), 'n': None})
  out, s2 = t.apply({}, s, None)
  read(out, (v0, v1, v2))
  same(s2['m']['t'], v2, 'final pytree state')
  out, s3 = t.apply({}, s2, None)
  read(out, (v0 if first else v2, v1, v2))
  for u in (s2, s3):
    mon.eq(sorted(u), ['empty_module', 'm', 'other'], 'modules of the state')
    same({k: u[k] for k in ('empty_module', 'other')}, {k: s[k] for k in ('empty_module', 'other')},
         'untouched state')
  mon.ev('pytree_states')
  mon.nontrivial('pytree', str(jax.tree_util.tree_structure((v0, v1, v2))), first, wrap)


def errors(mon):
  """get_state without a value needs an initializer and a shape."""
  name = mon.pick('a', 'b')
  mon.raises(ValueError, lambda: hk.transform_with_state(lambda: hk.get_state(name)).init(None),
             'get_state of an unknown entry without init')
  mon.raises(ValueError, lambda: hk.transform_with_state(
      lambda: hk.get_state(name, init=jnp.zeros)).init(None), 'get_state without a shape')
  mon.raises(ValueError, lambda: hk.transform_with_state(
      lambda: hk.get_state(name)).apply({}, {'~': {'zz': 1.}}, None),
             'get_state of an unknown entry in apply')
  # Initializer runs exactly once, with the requested shape and dtype.
  ran = []
  shape, dt = mon.pick(lang.SHAPES), mon.pick('float32', 'int32', 'float16')
  def init(s, d):
    ran.append((tuple(s), str(jnp.dtype(d))))
    return jnp.full(s, 3, d)
  def f():
    for _ in range(3):
      v = hk.get_state(name, shape, dt, init=init)
      hk.set_state(name, v + 1)
    return hk.get_state(name)
  t = hk.transform_with_state(f)
  _, s = t.init(None)
  mon.eq(ran, [(shape, dt)], 'state initializer runs once')
  mon.same(s['~'][name], np.full(shape, 3, dt), 'initial value')
  out, s2 = t.apply({}, s, None)
  mon.eq(len(ran), 1, 'state initializer does not run when a value is passed')
  mon.same(out, np.full(shape, 6, dt), 'value after three increments')
  mon.same(s2['~'][name], np.full(shape, 6, dt), 'returned value after three increments')
  # Params and state live in separate tables.
  def g():
    hk.get_parameter('v', [], init=lambda *_: jnp.asarray(5.))
    hk.get_state('v', [], init=lambda *_: jnp.asarray(7.))
    hk.set_state('v', jnp.asarray(9.))
    return hk.get_parameter('v', [], init=jnp.zeros)
  tg = hk.transform_with_state(g)
  p, s = tg.init(None)
  out, s2 = tg.apply(p, s, None)
  mon.eq([float(p['~']['v']), float(s['~']['v']), float(out), float(s2['~']['v'])],
         [5., 7., 5., 9.], 'params/state separation')
  mon.nontrivial('errors', name, shape, dt)


def jit_loop(mon):
  """A jitted training-like loop threads state exactly like eager calls."""
  program, _ = _gen(mon, hi=35)
  fn, _ = lang.haiku_fn(program, record=False)
  t = hk.transform_with_state(fn)
  p, s = t.init(jax.random.PRNGKey(0), lang.X0)
  ap = jax.jit(t.apply)
  s1 = s2 = s
  for i in range(4):
    o1, s1 = t.apply(p, s1, jax.random.PRNGKey(i), lang.X0 + i)
    o2, s2 = ap(p, s2, jax.random.PRNGKey(i), lang.X0 + i)
    mon.same(o2, o1, 'jitted output')
    mon.tree_same(s2, s1, 'jitted state')
  mon.ev('jit_loops')
  if two_level(s):
    mon.nontrivial('jit', program)


SCENARIOS = {
    'history': (history, 300, 8000),
    'partial': (partial, 200, 4000),
    'stateless': (stateless, 80, 1000),
    'pytrees': (pytrees, 150, 2500),
    'errors': (errors, 16, 60),
    'jit_loop': (jit_loop, 24, 500),
}
