"""C10: parameter/state containers are faithful, immutable mappings and pytrees."""
import collections
import copy
import pickle

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, zoo

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('Random (nested, unordered, empty, odd-keyed) mappings are turned into Haiku '
        'containers by to_immutable_dict / init / apply, and driven through random sequences '
        'of mapping reads, attempted writes, pytree maps, jit/grad/vmap, pickling, copying and '
        'conversion while a plain dict model is kept alongside. Non-trivial: >=2 leaves; '
        'distinct by structure and operation sequence.')
REQUIRED = {'ops': 2000, 'writes_rejected': 300, 'roundtrips': 200, 'init_containers': 20,
            'pickles': 100, 'jax_passes': 60, 'lazy_reads': 300}
ASSUMPTIONS = ['keys of one mapping are mutually sortable (JAX sorts dict keys)']

KEYS = ['w', 'b', 'linear', 'linear_1', 'mlp/~/linear_0', '~', 'scale', 'x_10', 'x_9', 'A', '',
        'keys2', 'items_', 'a b', 'ü']


def leaf(mon):
  k = mon.pick('arr', 'arr', 'scalar', 'int', 'f64', 'bool', 'zero')
  if k == 'arr':
    return mon.normal(mon.pick((2,), (3, 1), (1, 2, 2)))
  if k == 'scalar':
    return float(mon.randint(-5, 5))
  if k == 'int':
    return mon.np.integers(0, 9, (2,)).astype(np.int32)
  if k == 'f64':
    return mon.normal((), dtype=np.float16)
  if k == 'bool':
    return np.asarray([True, False])
  return np.zeros((0, 3), np.float32)


def structure(mon, depth):
  n = mon.randint(0 if depth < 2 else 1, 4)
  keys = mon.py.sample(KEYS, n)
  out = {}
  for k in keys:
    if depth > 0 and mon.chance(0.75):
      out[k] = structure(mon, depth - 1)
    else:
      out[k] = leaf(mon)
  return out


def plain(m):
  """Model view: nested plain dicts of byte-level leaves."""
  if isinstance(m, collections.abc.Mapping):
    return {k: plain(m[k]) for k in m}
  if isinstance(m, (list, tuple)):
    return [plain(v) for v in m]
  a = np.asarray(m)
  return (str(a.dtype), a.shape, a.tobytes())


def same(mon, got, want, msg, **ctx):
  mon.check(plain(got) == plain(want), msg, got=got, want=want, **ctx)


def frozen_everywhere(mon, m, msg):
  if isinstance(m, collections.abc.Mapping):
    mon.check(not isinstance(m, collections.abc.MutableMapping), msg + ': mutable mapping inside',
              type=type(m).__name__)
    for k in m:
      frozen_everywhere(mon, m[k], msg)


def subs(m):
  out = [m]
  for k in m:
    if isinstance(m[k], collections.abc.Mapping):
      out += subs(m[k])
  return out


def reads(mon, c, d, why):
  """c behaves like the dict d for every read."""
  mon.check(isinstance(c, collections.abc.Mapping), f'{why}: is a Mapping')
  mon.eq(len(c), len(d), f'{why}: len')
  mon.check(set(c) == set(d) and len(list(c)) == len(d), f'{why}: iteration')
  mon.eq(sorted(c.keys()), sorted(d), f'{why}: keys()')
  ks = list(c.keys())
  vs, its = list(c.values()), list(c.items())
  mon.eq([k for k, _ in its], ks, f'{why}: items order matches keys order')
  mon.eq(list(c), ks, f'{why}: iteration order matches keys order')
  for k, v, (k2, v2) in zip(ks, vs, its):
    same(mon, v, d[k], f'{why}: values() aligned with keys()')
    same(mon, v2, d[k], f'{why}: items()')
  for k in d:
    mon.check(k in c, f'{why}: contains', key=k)
    same(mon, c[k], d[k], f'{why}: getitem', key=k)
    same(mon, c.get(k), d[k], f'{why}: get', key=k)
    if isinstance(k, str) and k.isidentifier() and not hasattr(dict, k):
      same(mon, getattr(c, k), d[k], f'{why}: attribute access', key=k)
  for k in ('missing', 'W', 'linear_77'):
    if k not in d:
      mon.check(k not in c, f'{why}: contains a missing key')
      mon.raises(KeyError, lambda: c[k], f'{why}: missing key')
      mon.raises(AttributeError, lambda: getattr(c, k), f'{why}: missing attribute')
      mon.check(c.get(k, 5) == 5, f'{why}: get default')
  for k in d:
    mon.check(repr(k) in repr(c) and repr(k) in str(c.keys()), f'{why}: repr mentions keys', key=k)
  mon.ev('ops', 10)


def writes(mon, c, why):
  before = plain(c)
  k = next(iter(c), 'w')
  def attr():
    c.brand_new_attribute = 1
  ops = dict(
      setitem=lambda: c.__setitem__(k, 1), setnew=lambda: c.__setitem__('zz', 1),
      delitem=lambda: c.__delitem__(k), update=lambda: c.update({k: 1}),
      pop=lambda: c.pop(k), clear=lambda: c.clear(), popitem=lambda: c.popitem(),
      setdefault=lambda: c.setdefault('zz', 1), setattr=attr)
  for n, op in ops.items():
    if n in ('update', 'pop', 'clear', 'popitem', 'setdefault') and n in c:
      continue
    mon.raises((TypeError, AttributeError), op, f'{why}: {n} must be rejected')
    mon.ev('writes_rejected')
  try:
    c[k] = 3
    mon.fail(f'{why}: item assignment accepted')
  except TypeError:
    pass
  mon.check(plain(c) == before, f'{why}: a rejected write changed the container')


def lazy(mon, c, snap):
  """Each read as the very first operation on a freshly unflattened container."""
  leaves, td = jax.tree_util.tree_flatten(c)
  d = dict_only(snap)
  ks = sorted(d)
  k = mon.pick(ks) if ks else None
  comparable = all_hashable_eq(d)
  hd = hk.data_structures
  ops = dict(
      len=(len, len(d)), bool=(bool, bool(d)), iter=(lambda m: sorted(m), ks),
      keys=(lambda m: sorted(m.keys()), ks),
      nvalues=(lambda m: len(m.values()), len(d)), nitems=(lambda m: len(m.items()), len(d)),
      contains=(lambda m: [x in m for x in KEYS], [x in d for x in KEYS]),
      items=(lambda m: {a: plain(b) for a, b in m.items()}, plain(d)),
      pickle=(lambda m: plain(pickle.loads(pickle.dumps(m))), plain(d)),
      deepcopy=(lambda m: plain(copy.deepcopy(m)), plain(d)),
      mutable=(lambda m: plain(hd.to_mutable_dict(m)), plain(d)),
      immutable=(lambda m: plain(hd.to_immutable_dict(m)), plain(d)),
      leaves=(lambda m: [plain(x) for x in jax.tree_util.tree_leaves(m)],
              [plain(x) for x in jax.tree_util.tree_leaves(d)]),
      as_dict=(lambda m: plain(dict(m)), plain(d)), star=(lambda m: plain(dict(**m)), plain(d)),
      repr=(repr, repr(hd.to_immutable_dict(jax.tree_util.tree_unflatten(td, leaves)))),
      ne=(lambda m: m == None, False))  # pylint: disable=g-equals-none
  if k is not None:
    ops.update(getitem=(lambda m: plain(m[k]), plain(d[k])), get=(lambda m: plain(m.get(k)), plain(d[k])),
               has=(lambda m: k in m, True))
    if isinstance(d[k], dict):
      ops.update(nested=(lambda m: len(m[k]), len(d[k])))
  if comparable:
    ops.update(eq=(lambda m: m == d, True), req=(lambda m: d == m, True),
               eqc=(lambda m: m == c, True), ceq=(lambda m: c == m, True),
               eql=(lambda m: m == jax.tree_util.tree_unflatten(td, leaves), True),
               neq=(lambda m: m != dict(d, extra=1.), True))
  for n, (f, want) in ops.items():
    fresh = jax.tree_util.tree_unflatten(td, leaves)
    got = f(fresh)
    mon.check(got == want, f'{n} as the first operation on an unflattened container',
              got=got, want=want)
    if mon.chance(0.3):
      same(mon, fresh, d, f'contents after {n}')
  mon.ev('ops', len(ops))
  mon.ev('lazy_reads', len(ops))


def model(mon):
  d = structure(mon, mon.randint(1, 3))
  if mon.chance(0.3):
    d = collections.OrderedDict(d)
  snap = copy.deepcopy(d)
  c = hk.data_structures.to_immutable_dict(d)
  log = []
  for _ in range(mon.randint(4, 9)):
    op = mon.pick('reads', 'writes', 'map', 'flatten', 'pickle', 'deepcopy', 'copy', 'mutable',
                  'source', 'eq', 'reimm', 'sub', 'order', 'none', 'hash', 'listmap', 'lazy', 'mixmap')
    log.append(op)
    mon.ev('ops')
    if op == 'reads':
      reads(mon, c, snap, 'container')
    elif op == 'writes':
      for s in subs(c):
        writes(mon, s, 'container')
    elif op == 'map':
      m = jax.tree_util.tree_map(lambda v: np.asarray(v) * 2, c)
      want = jax.tree_util.tree_map(lambda v: np.asarray(v) * 2, dict_only(snap))
      mon.check(type(m) is type(c), 'tree_map keeps the container type')
      same(mon, m, want, 'tree_map over a container')
      same(mon, c, snap, 'tree_map left its input alone')
      c, snap = m, want
    elif op == 'listmap':
      m = jax.tree_util.tree_map(lambda v: [v, {'q': v}], c)
      want = jax.tree_util.tree_map(lambda v: [v, {'q': v}], dict_only(snap))
      same(mon, m, want, 'tree_map producing subtrees')
      back = jax.tree_util.tree_map(lambda v: v, m)
      same(mon, back, want, 'tree_map identity after producing subtrees')
      mon.eq(len(jax.tree_util.tree_leaves(m)), 2 * len(jax.tree_util.tree_leaves(c)),
             'leaf count after producing subtrees')
    elif op == 'mixmap':
      # Some leaves stay leaves, others become subtrees or vanish.
      n = len(jax.tree_util.tree_leaves(dict_only(snap)))
      kinds = [mon.pick('leaf', 'leaf', 'list', 'tuple', 'none', 'empty') for _ in range(n)]
      conv = dict(leaf=lambda v: v, list=lambda v: [v, 1], tuple=lambda v: (v, (2, v)), none=lambda v: None,
                  empty=lambda v: [])
      def mixed(tree):
        it = iter(kinds)
        return jax.tree_util.tree_map(lambda v: conv[next(it)](v), tree)
      m, want = mixed(c), mixed(dict_only(snap))
      nl = len(jax.tree_util.tree_leaves(want))
      mon.eq(len(jax.tree_util.tree_leaves(m)), nl, 'leaf count after replacing some leaves by subtrees', kinds=kinds)
      mon.eq(str(jax.tree_util.tree_structure(m)),
             str(jax.tree_util.tree_structure(hk.data_structures.to_immutable_dict(want))),
             'structure after replacing some leaves by subtrees', kinds=kinds)
      seen = []
      back = jax.tree_util.tree_map(lambda v: seen.append(v) or v, m)
      mon.eq(len(seen), nl, 'leaves visited by tree_map', kinds=kinds)
      same(mon, m, want, 'tree_map replacing some leaves')
      same(mon, back, want, 'tree_map identity after replacing some leaves')
      mon.ev('mixed_maps')
    elif op == 'flatten':
      leaves, td = jax.tree_util.tree_flatten(c)
      wl = jax.tree_util.tree_leaves(dict_only(snap))
      mon.eq(len(leaves), len(wl), 'number of leaves')
      for a, b in zip(leaves, wl):
        mon.check(plain(a) == plain(b), 'leaf order/values vs dict', got=a, want=b)
      back = jax.tree_util.tree_unflatten(td, leaves)
      mon.check(type(back) is type(c), 'unflatten type')
      same(mon, back, snap, 'flatten/unflatten round trip')
      reads(mon, back, snap, 'unflattened container')
      writes(mon, back, 'unflattened container')
      sw = [i for i in range(len(leaves))]
      back2 = jax.tree_util.tree_unflatten(td, sw)
      mon.eq(jax.tree_util.tree_leaves(back2), sw, 'unflatten keeps given leaves in order')
      mon.ev('roundtrips')
    elif op in ('pickle', 'deepcopy', 'copy'):
      if op == 'pickle':
        q = pickle.loads(pickle.dumps(c, protocol=mon.randint(2, pickle.HIGHEST_PROTOCOL)))
      elif op == 'deepcopy':
        q = copy.deepcopy(c)
      else:
        q = copy.copy(c)
      mon.check(type(q) is type(c), f'{op} keeps the type')
      same(mon, q, snap, f'{op} round trip')
      frozen_everywhere(mon, q, op)
      mon.eq(jax.tree_util.tree_structure(q), jax.tree_util.tree_structure(c), f'{op}: treedef')
      mon.ev('pickles')
      if mon.chance(0.5):
        c = q
    elif op == 'mutable':
      m = hk.data_structures.to_mutable_dict(c)
      mon.check(type(m) is dict, 'to_mutable_dict returns a dict')
      same(mon, m, snap, 'to_mutable_dict contents')
      all_dicts(mon, m)
      scribble(m)
      same(mon, c, snap, 'mutating the result of to_mutable_dict changed the container')
      m = hk.data_structures.to_mutable_dict(c)
      r = hk.data_structures.to_immutable_dict(m)
      same(mon, r, snap, 'mutable -> immutable round trip')
      mon.eq(jax.tree_util.tree_structure(r), jax.tree_util.tree_structure(c), 'treedef round trip')
      scribble(m)
      same(mon, r, snap, 'mutating the source changed the container')
      c = r
      mon.ev('roundtrips')
    elif op == 'source':
      scribble(d)
      same(mon, c, snap, 'mutating the source mapping changed the container')
    elif op == 'eq':
      if all_hashable_eq(snap):
        other = hk.data_structures.to_immutable_dict(dict_only(snap))
        mon.check(c == other and not c != other, 'equal containers compare equal')
        mon.check(c == dict_only(snap) and dict_only(snap) == c, 'equality with plain dicts')
        mod = dict_only(snap)
        mod['extra'] = 1.
        mon.check(c != mod and c != hk.data_structures.to_immutable_dict(mod),
                  'different containers compare unequal')
      mon.check(c != None, 'never equal to None')  # pylint: disable=g-equals-none
    elif op == 'hash':
      simple = jax.tree_util.tree_map(lambda v: int(np.asarray(v).size), dict_only(snap))
      a = hk.data_structures.to_immutable_dict(simple)
      b = hk.data_structures.to_immutable_dict(shuffle(mon, simple))
      mon.check(a == b and hash(a) == hash(b), 'equal containers hash equal', a=a, b=b)
      b2 = jax.tree_util.tree_map(lambda v: v, a)
      mon.check(hash(a) == hash(b2) and a == b2, 'hash stable under tree_map identity')
    elif op == 'reimm':
      again = hk.data_structures.to_immutable_dict(c)
      same(mon, again, snap, 'to_immutable_dict of a container')
      frozen_everywhere(mon, again, 'to_immutable_dict')
    elif op == 'sub':
      for k in c:
        if isinstance(snap[k], dict):
          reads(mon, c[k], snap[k], 'nested container')
          mon.eq(len(jax.tree_util.tree_leaves(c[k])),
                 len(jax.tree_util.tree_leaves(dict_only(snap[k]))), 'nested leaves')
    elif op == 'order':
      o = hk.data_structures.to_immutable_dict(shuffle(mon, dict_only(snap)))
      mon.eq(jax.tree_util.tree_structure(o), jax.tree_util.tree_structure(c),
             'tree structure depends on insertion order')
      for a, b in zip(jax.tree_util.tree_leaves(o), jax.tree_util.tree_leaves(c)):
        mon.check(plain(a) == plain(b), 'leaf order depends on insertion order')
    elif op == 'lazy':
      lazy(mon, c, snap)
    elif op == 'none':
      n = hk.data_structures.to_immutable_dict({'m': {'w': None, 'b': 1.}})
      mon.check(n['m']['w'] is None and set(n['m']) == {'w', 'b'}, 'None values are kept')
  same(mon, c, snap, 'contents at the end')
  frozen_everywhere(mon, c, 'container')
  if len(jax.tree_util.tree_leaves(dict_only(snap))) >= 2:
    mon.nontrivial(sorted(map(str, jax.tree_util.tree_structure(dict_only(snap)).children())), log)
  mon.sample(dict(structure=str(jax.tree_util.tree_structure(dict_only(snap)))[:300], ops=log))


def dict_only(m):
  return {k: dict_only(v) if isinstance(v, collections.abc.Mapping) else v for k, v in m.items()}


def shuffle(mon, m):
  ks = list(m)
  mon.py.shuffle(ks)
  return {k: shuffle(mon, m[k]) if isinstance(m[k], dict) else m[k] for k in ks}


def all_hashable_eq(m):
  return all(all_hashable_eq(v) if isinstance(v, dict) else np.asarray(v).ndim == 0
             for v in m.values())


def all_dicts(mon, m):
  for v in m.values():
    if isinstance(v, collections.abc.Mapping):
      mon.check(type(v) is dict, 'to_mutable_dict leaves an immutable mapping inside')
      all_dicts(mon, v)


def scribble(m):
  """Mutates a nested dict in place (containers only, leaves are left alone)."""
  for k in list(m):
    if isinstance(m[k], dict):
      scribble(m[k])
      m[k]['scribble'] = 1.
    else:
      del m[k]
  m['scribbled'] = 0.


def containers(mon):
  """What init/apply return."""
  if mon.chance(0.5):
    program, _ = lang.gen_program(mon, hi=60, sget=2, sinc=2)
    fn, _ = lang.haiku_fn(program)
    args = (lang.X0,)
    sig = ('lang', program)
  else:
    e = zoo.entry(mon)
    fn, args, sig = e['fn'], e['args'], ('zoo', e['name'])
  t = hk.transform_with_state(fn)
  key = jax.random.PRNGKey(1)
  p, s = t.init(key, *args)
  out, s2 = t.apply(p, s, key, *args)
  for what, c in (('params', p), ('initial state', s), ('new state', s2)):
    frozen_everywhere(mon, c, what)
    writes(mon, c, what)
    for sub in subs(c)[1:3]:
      writes(mon, sub, what)
    q = pickle.loads(pickle.dumps(jax.device_get(c)))
    same(mon, q, c, f'{what}: pickle round trip')
    m = hk.data_structures.to_mutable_dict(c)
    same(mon, m, c, f'{what}: to_mutable_dict')
    mon.eq(jax.tree_util.tree_structure(hk.data_structures.to_immutable_dict(m)),
           jax.tree_util.tree_structure(c), f'{what}: treedef round trip')
    mon.ev('roundtrips')
  # apply accepts any mapping form and gives the same result.
  forms = [p, hk.data_structures.to_mutable_dict(p), pickle.loads(pickle.dumps(jax.device_get(p))),
           collections.OrderedDict(shuffle(mon, hk.data_structures.to_mutable_dict(p)))]
  for f in forms[1:]:
    o2, s3 = t.apply(f, s, key, *args)
    mon.same(o2, out, 'apply with another mapping type for params')
    same(mon, s3, s2, 'state with another mapping type for params')
  o2, s3 = t.apply(p, hk.data_structures.to_mutable_dict(s), key, *args)
  mon.same(o2, out, 'apply with a dict state')
  mon.eq(jax.tree_util.tree_structure(s3), jax.tree_util.tree_structure(s2),
         'state tree structure must not depend on the input mapping type')
  t1 = jax.tree_util.tree_structure(s)
  if set((a, b) for a in s for b in s[a]) == set((a, b) for a in s2 for b in s2[a]):
    mon.eq(jax.tree_util.tree_structure(s2), t1, 'state structure is stable across apply')
  mon.ev('init_containers')
  mon.nontrivial(*sig)


def through_jax(mon):
  """Containers pass through jit, grad, vmap, tree_map of several trees."""
  d = {f'm{i}': {k: mon.normal((2,)) for k in mon.py.sample(['w', 'b', 'c'], mon.randint(1, 3))}
       for i in range(mon.randint(1, 3))}
  c = hk.data_structures.to_immutable_dict(d)
  f = lambda p: jax.tree_util.tree_map(lambda v: v * 2 + 1, p)
  want = {m: {n: v * 2 + 1 for n, v in b.items()} for m, b in d.items()}
  for name, g in (('jit', jax.jit(f)), ('vmap', jax.vmap(f)), ('plain', f)):
    r = g(c)
    mon.check(type(r) is type(c), f'{name} keeps the container type')
    for m in want:
      for n in want[m]:
        mon.close(r[m][n], want[m][n], f'{name} over a container', rtol=1e-6, atol=1e-6)
    mon.eq(jax.tree_util.tree_structure(r), jax.tree_util.tree_structure(c), f'{name} treedef')
    mon.ev('jax_passes')
  g = jax.grad(lambda p: sum(jnp.sum(v ** 2) for b in p.values() for v in b.values()))(c)
  mon.check(type(g) is type(c), 'grad returns the same container type')
  for m in d:
    for n in d[m]:
      mon.close(g[m][n], 2 * d[m][n], 'gradient container entries', rtol=1e-5, atol=1e-5)
  upd = jax.tree_util.tree_map(lambda a, b: a - 0.1 * b, c, g)
  for m in d:
    for n in d[m]:
      mon.close(upd[m][n], d[m][n] * 0.8, 'two-tree tree_map', rtol=1e-4, atol=1e-5)
  st = jax.tree_util.tree_map(lambda *xs: np.stack(xs), c, c, c)
  for m in d:
    for n in d[m]:
      mon.same(st[m][n], np.stack([d[m][n]] * 3), 'stacking containers')
  tr = jax.tree_util.tree_transpose(jax.tree_util.tree_structure(c),
                                    jax.tree_util.tree_structure([0, 0]),
                                    jax.tree_util.tree_map(lambda v: [v, v + 1], c))
  mon.check(isinstance(tr, list) and len(tr) == 2, 'tree_transpose')
  same(mon, tr[0], c, 'tree_transpose contents')
  mon.ev('jax_passes')
  mon.nontrivial('jax', str(jax.tree_util.tree_structure(c)))


SCENARIOS = {
    'model': (model, 400, 12000),
    'containers': (containers, 48, 600),
    'through_jax': (through_jax, 40, 400),
}
