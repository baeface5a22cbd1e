"""C11: filter/partition/map/merge and size accounting."""
import collections

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, zoo
from hkmon.core import two_level

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('Random two-level structures (dict, OrderedDict, containers from init, arrays of many '
        'dtypes/shapes incl. zero-size, None, pytree values) and random predicates/functions; '
        'every result is compared with set/dict algebra computed independently, calls of user '
        'functions are recorded. Non-trivial: both sides of a partition non-empty or >=2 '
        'merged structures; distinct by structure and predicate.')
REQUIRED = {'partitions': 200, 'merges': 200, 'maps': 200, 'sizes': 200, 'predicate_calls': 1000}
ASSUMPTIONS = []

MODS = ['linear', 'linear_1', 'mlp/~/linear_0', 'mlp/~/linear_1', '~', 'a/b/c', 'conv2_d', 'x',
        'linear_10', 'batch_norm/~/mean_ema']
NAMES = ['w', 'b', 'scale', 'offset', 'w_i', 'counter', 'w_1']


def value(mon):
  k = mon.pick('arr', 'arr', 'arr', 'none', 'scalar', 'tree', 'zero', 'falsy')
  if k == 'arr':
    dt = mon.pick(np.float32, np.float16, np.int32, np.int8, np.uint32, np.bool_, np.complex64)
    return mon.np.integers(0, 2, mon.pick((), (3,), (2, 3), (1, 4, 2))).astype(dt)
  if k == 'none':
    return None
  if k == 'scalar':
    return float(mon.randint(-3, 3))
  if k == 'tree':
    return (mon.normal((2,)), [np.int32(1)])
  if k == 'falsy':
    return mon.pick(0, 0., False, ())
  return np.zeros((0, 2), np.float32)


def build(mon, n_mods=None, arrays=False):
  out = collections.OrderedDict() if mon.chance(0.3) else {}
  for m in mon.py.sample(MODS, mon.randint(0, 5) if n_mods is None else n_mods):
    b = {}
    for n in mon.py.sample(NAMES, mon.randint(0 if mon.chance(0.2) else 1, 4)):
      v = value(mon)
      while arrays and not isinstance(v, np.ndarray):
        v = value(mon)
      b[n] = v
    out[m] = b
  if mon.chance(0.4):
    return hk.data_structures.to_immutable_dict(dict(out))
  return out


def same_leaf(a, b):
  if a is b:
    return True
  if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
    return len(a) == len(b) and all(same_leaf(x, y) for x, y in zip(a, b))
  if a is None or b is None:
    return False
  x, y = np.asarray(a), np.asarray(b)
  return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()


def expect(mon, got, want, msg, **ctx):
  """got (two-level) has exactly the entries of the flat dict `want`."""
  g = two_level(got)
  mon.check(set(g) == set(want), msg + ': entries', extra=sorted(set(g) - set(want)),
            missing=sorted(set(want) - set(g)), **ctx)
  for k in want:
    mon.check(same_leaf(g[k], want[k]), msg + f': value of {k}', got=g[k], want=want[k])
  for m in got:
    mon.check(len(got[m]) > 0, msg + ': empty module entry', module=m)
    mon.check(isinstance(got[m], collections.abc.Mapping), msg + ': nested mapping')
  # Results combine with parameters in jax.tree_util: they are the same kind of container.
  kind = hk.data_structures.to_immutable_dict({'a': {'b': 0}})
  mon.check(type(got) is type(kind) and all(type(b) is type(kind['a']) for b in got.values()),
            msg + ': kind of container', got=type(got))


def predicate(mon):
  kind = mon.pick('name', 'module', 'prefix', 'hash', 'all', 'none', 'value', 'truthy', 'count')
  nm = mon.pick(NAMES)
  pf = mon.pick('linear', 'mlp', 'a/', '~')
  r = mon.randint(0, 1)
  def p(m, n, v):
    if kind == 'name':
      return n == nm
    if kind == 'module':
      return m == pf
    if kind == 'prefix':
      return m.startswith(pf)
    if kind == 'hash':
      return (len(m) * 3 + len(n) + ord(n[0])) % 2 == r
    if kind == 'all':
      return True
    if kind == 'none':
      return False
    if kind == 'value':
      return v is not None and not isinstance(v, tuple) and np.asarray(v).ndim >= 1
    if kind == 'truthy':   # truthy/falsy non-bool results
      return [0, 'x', '', 3, None][(len(m) + len(n)) % 5]
    return np.bool_((len(n) % 2) == 0)
  return p, (kind, nm, pf, r)


def split(mon):
  s = build(mon)
  flat = two_level(s)
  p, sig = predicate(mon)
  calls = []
  def rec(m, n, v):
    calls.append((m, n, v))
    mon.ev('predicate_calls')
    return p(m, n, v)
  snapshot = {k: v for k, v in flat.items()}
  t, f = hk.data_structures.partition(rec, s)
  want_t = {k: v for k, v in flat.items() if p(k[0], k[1], v)}
  want_f = {k: v for k, v in flat.items() if not p(k[0], k[1], v)}
  expect(mon, t, want_t, 'partition: matching side', pred=sig)
  expect(mon, f, want_f, 'partition: other side', pred=sig)
  mon.eq(sorted((a, b) for a, b, _ in calls), sorted(flat), 'predicate called once per entry')
  for a, b, v in calls:
    mon.check(v is flat[a, b] or same_leaf(v, flat[a, b]), 'predicate sees the right value')
  calls.clear()
  fl = hk.data_structures.filter(rec, s)
  expect(mon, fl, want_t, 'filter', pred=sig)
  mon.eq(sorted((a, b) for a, b, _ in calls), sorted(flat), 'filter: predicate called once per entry')
  expect(mon, hk.data_structures.merge(t, f), flat, 'merge(partition) restores the structure')
  expect(mon, hk.data_structures.merge(f, t), flat, 'merge in the other order')
  mon.check(two_level(s).keys() == snapshot.keys() and
            all(two_level(s)[k] is snapshot[k] or same_leaf(two_level(s)[k], snapshot[k])
                for k in snapshot), 'input structure modified')
  mon.ev('partitions')
  if want_t and want_f:
    mon.nontrivial(sorted(flat), sig)
  mon.sample(dict(entries=sorted(flat), predicate=sig, matched=len(want_t)))


def mapping(mon):
  s = build(mon)
  flat = two_level(s)
  seen = []
  tag = mon.randint(0, 9)
  def fn(m, n, v):
    seen.append((m, n))
    mon.ev('predicate_calls')
    if n == 'b':
      return None
    if n == 'scale':
      return v
    return (m, n, tag)
  out = hk.data_structures.map(fn, s)
  want = {k: fn(k[0], k[1], v) for k, v in flat.items()}
  mon.eq(sorted(seen[:len(flat)]), sorted(flat), 'map calls fn once per entry')
  g = two_level(out)
  mon.eq(sorted(g), sorted(flat), 'map: entries')
  for k in want:
    if k[1] not in ('b', 'scale'):
      mon.eq(g[k], want[k], 'map: value')
    else:
      mon.check(same_leaf(g[k], want[k]), 'map: value', got=g[k], want=want[k])
  mon.ev('maps')
  # Numeric use.
  arr = build(mon, arrays=True)
  fa = two_level(arr)
  doubled = hk.data_structures.map(lambda m, n, v: v * 2 if n.startswith('w') else v, arr)
  for k, v in two_level(doubled).items():
    mon.check(same_leaf(v, fa[k] * 2 if k[1].startswith('w') else fa[k]), 'map numeric', key=k)
  mon.nontrivial('map', sorted(flat))


def merging(mon):
  n = mon.randint(1, 4)
  ss = [build(mon) for _ in range(n)]
  want = {}
  for s in ss:
    want.update(two_level(s))
  before = [dict(two_level(s)) for s in ss]
  out = hk.data_structures.merge(*ss)
  expect(mon, out, want, f'merge of {n}')
  for s, b in zip(ss, before):
    a = two_level(s)
    mon.check(set(a) == set(b), 'merge modified an input')
    for k in b:
      mon.check(same_leaf(a[k], b[k]), 'merge modified an input value')
  if n > 1:
    nested = hk.data_structures.merge(hk.data_structures.merge(*ss[:-1]), ss[-1])
    expect(mon, nested, want, 'merge is associative')
    expect(mon, hk.data_structures.merge(out, out), want, 'merge is idempotent')
    mon.nontrivial('merge', [sorted(two_level(s)) for s in ss])
  # Results are snapshots, not views.
  mutable = [s for s in ss if isinstance(s, dict)]
  for s in mutable:
    for m in list(s):
      if isinstance(s[m], dict):
        s[m]['later'] = 1
    s['later_mod'] = {'w': 1}
  expect(mon, out, want, 'merge result is not a view')
  mon.ev('merges')


def sizes(mon):
  s = build(mon, arrays=True)
  flat = two_level(s)
  n = sum(int(np.prod(v.shape, dtype=np.int64)) for v in flat.values())
  b = sum(int(np.prod(v.shape, dtype=np.int64)) * v.dtype.itemsize for v in flat.values())
  mon.eq(hk.data_structures.tree_size(s), n, 'tree_size')
  mon.eq(hk.data_structures.tree_bytes(s), b, 'tree_bytes')
  js = {k: [jnp.asarray(v), {'q': v}] for k, v in enumerate(flat.values())}
  jb = sum(jnp.asarray(v).dtype.itemsize * int(np.prod(v.shape)) + v.dtype.itemsize *
           int(np.prod(v.shape)) for v in flat.values())
  mon.eq(hk.data_structures.tree_size(js), 2 * n, 'tree_size of a general pytree')
  mon.eq(hk.data_structures.tree_bytes(js), jb, 'tree_bytes of a general pytree')
  mon.eq(hk.data_structures.tree_size({}), 0, 'tree_size of nothing')
  bf = {'m': {'w': jnp.zeros((3, 5), jnp.bfloat16)}}
  mon.eq((hk.data_structures.tree_size(bf), hk.data_structures.tree_bytes(bf)), (15, 30), 'bfloat16')
  # Additive over partitions.
  p, sig = predicate(mon)
  t, f = hk.data_structures.partition(p, s)
  mon.eq(hk.data_structures.tree_size(t) + hk.data_structures.tree_size(f), n,
         'tree_size is additive over a partition', pred=sig)
  mon.eq(hk.data_structures.tree_bytes(t) + hk.data_structures.tree_bytes(f), b,
         'tree_bytes is additive over a partition')
  mon.ev('sizes')
  mon.nontrivial('size', sorted((k, v.shape, str(v.dtype)) for k, v in flat.items()))


def real(mon):
  """On parameters/state produced by init: training a subset, then merging back."""
  if mon.chance(0.5):
    program, _ = lang.gen_program(mon, hi=60)
    fn, _ = lang.haiku_fn(program)
    args = (lang.X0,)
  else:
    e = zoo.entry(mon)
    fn, args = e['fn'], e['args']
  t = hk.transform_with_state(fn)
  key = jax.random.PRNGKey(0)
  p, s = t.init(key, *args)
  out, s2 = t.apply(p, s, key, *args)
  pr, sig = predicate(mon)
  for what, c in (('params', p), ('state', s2)):
    a, b = hk.data_structures.partition(pr, c)
    m = hk.data_structures.merge(a, b)
    mon.eq(jax.tree_util.tree_structure(m), jax.tree_util.tree_structure(
        hk.data_structures.merge(c)), f'{what}: structure after partition+merge', pred=sig)
    expect(mon, m, two_level(c), f'{what}: partition+merge')
    expect(mon, hk.data_structures.map(lambda m, n, v: v, c), two_level(c), f'{what}: identity map')
    mon.eq(hk.data_structures.tree_size(c),
           sum(np.asarray(v).size for l in two_level(c).values()
               for v in jax.tree_util.tree_leaves(l)), f'{what}: tree_size')
    mon.ev('partitions')
  a, b = hk.data_structures.partition(pr, p)
  o2, _ = t.apply(hk.data_structures.merge(b, a), s, key, *args)
  mon.same(o2, out, 'apply with re-merged params')
  mon.ev('merges')


SCENARIOS = {
    'split': (split, 200, 6000),
    'map': (mapping, 200, 4000),
    'merge': (merging, 200, 6000),
    'sizes': (sizes, 200, 4000),
    'real': (real, 40, 400),
}
