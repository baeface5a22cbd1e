"""C13: transform adapters, lifting and per-module views agree with the base transform."""
import functools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, progs, zoo
from hkmon.core import two_level

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('Random programs and library layers run through transform / transform_with_state / '
        'without_state / without_apply_rng / testing.transform_and_run / experimental.lift and '
        'compared bit for bit with the equivalent explicit use; params_dict/state_dict taken at '
        'random moments are compared with a model. Non-trivial: >=1 parameter; distinct by '
        'program and adapter chain.')
REQUIRED = {'init_runs': 50, 'adapters': 150, 'lifts': 60, 'views': 200, 'run_tool': 40,
            'state_rejected': 10}
ASSUMPTIONS = []


def bits(r):
  leaves, treedef = jax.tree_util.tree_flatten(r)
  return str(treedef), [(str(np.asarray(l).dtype), np.asarray(l).shape,
                         np.asarray(l).tobytes()) for l in leaves]


def views(mon):
  """params_dict / state_dict list the module's own entries and its submodules' ones."""
  program, n = lang.gen_program(mon, pdict=5, param=4, sget=1.5, sinc=1.5, sset=1, new=4,
                                newcall=3, call=5, scope=1)
  t, h, params, state = progs.check_init(mon, program, mon.randint(0, 50), lang.X0)
  n_views = sum(e[0] == 'pdict' for e in h['b'].events)
  mon.ev('views', n_views)
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  progs.check_apply(mon, program, t, h, progs.fresh_values(mon, fp),
                    progs.fresh_values(mon, fs), mon.randint(0, 99), lang.X0)
  if n_views:
    mon.nontrivial(program)
  mon.sample(dict(ticks=n, views=n_views))


def adapters(mon):
  stateful = mon.chance(0.5)
  rngy = mon.chance(0.5)
  kw = {} if stateful else dict(sget=0, sset=0, sinc=0)
  if not rngy:
    kw.update(key=0, wrng=0)
  program, _ = lang.gen_program(mon, param=5, hi=60, **kw)
  fn, _ = lang.haiku_fn(program)
  x = lang.X0 + mon.randint(0, 9)
  k1, k2 = jax.random.PRNGKey(mon.randint(0, 99)), jax.random.PRNGKey(mon.randint(0, 99))
  base = hk.transform_with_state(fn)
  p, s = base.init(k1, x)
  out, s2 = base.apply(p, s, k2, x)
  has_state = bool(two_level(s)) or bool(two_level(s2))
  plain, stripped = hk.transform(fn), hk.without_state(base)
  for name, t in (('transform', plain), ('without_state', stripped)):
    mon.ev('adapters')
    mon.check(isinstance(t, hk.Transformed), f'{name} does not return a Transformed', t=t)
    if has_state:
      mon.raises(ValueError, lambda: (t.init(k1, x), t.apply(p, k2, x)),
                 f'{name}: use of state must be reported')
      mon.ev('state_rejected')
    else:
      mon.eq(bits(t.init(k1, x)), bits(p), f'{name}.init differs from transform_with_state')
      mon.eq(bits(t.apply(p, k2, x)), bits(out), f'{name}.apply differs')
  # without_apply_rng == passing None
  def attempt(f):
    try:
      return 'ok', bits(f())
    except lang_errors() as e:
      return type(e).__name__, str(e)[:60]
  w = hk.without_apply_rng(base)
  mon.check(type(w) is hk.TransformedWithState, 'without_apply_rng changed the kind')
  mon.eq(bits(w.init(k1, x)), bits((p, s)), 'without_apply_rng: init')
  mon.eq(attempt(lambda: w.apply(p, s, x)), attempt(lambda: base.apply(p, s, None, x)),
         'without_apply_rng(with state): apply')
  mon.ev('adapters', 2)
  if not has_state:
    for t in (hk.without_apply_rng(plain), hk.without_apply_rng(stripped),
              hk.without_state(hk.without_apply_rng(base))):
      mon.check(type(t) is hk.Transformed, 'without_apply_rng changed the kind')
      mon.eq(bits(t.init(k1, x)), bits(p), 'adapter chain: init')
      mon.eq(attempt(lambda: t.apply(p, x)), attempt(lambda: plain.apply(p, None, x)),
             'adapter chain: apply')
      mon.ev('adapters')
  mon.nontrivial(program)


def lang_errors():
  return (ValueError, TypeError)


def run_tool(mon):
  """transform_and_run(f, seed)(x) == init with PRNGKey(seed), then apply with it."""
  if mon.chance(0.5):
    e = zoo.entry(mon)
    fn, args = e['fn'], e['args']
    tag = e['name']
  else:
    program, _ = lang.gen_program(mon, hi=50)
    fn, _ = lang.haiku_fn(program)
    args = (lang.X0 + mon.randint(0, 9),)
    tag = program
  seed = mon.pick(0, 1, 7, 42, 1234, None)
  calls = []

  def f(*a, scale=1):
    calls.append(hk.running_init())
    o = fn(*a)
    return jax.tree_util.tree_map(lambda v: v * scale, o)

  key = None if seed is None else jax.random.PRNGKey(seed)
  t = hk.transform_with_state(lambda: f(*args, scale=2))
  try:
    want = t.apply(*t.init(key), key)[0]
    ok = True
  except ValueError as ex:
    ok, want = False, ex
  style = mon.pick('direct', 'decorator', 'default')
  if style == 'default' and seed == 42:
    g = hk.testing.transform_and_run(f)
  elif style == 'decorator':
    g = hk.testing.transform_and_run(seed=seed)(f)
  else:
    g = hk.testing.transform_and_run(f, seed=seed)
  calls.clear()
  mon.ev('run_tool')
  if not ok:
    mon.raises(ValueError, lambda: g(*args, scale=2), 'transform_and_run without a seed')
    return
  mon.eq(bits(g(*args, scale=2)), bits(want), 'transform_and_run differs from init+apply', what=tag)
  mon.eq(calls, [True, False], 'transform_and_run: calls of the function')
  calls.clear()
  h = hk.testing.transform_and_run(f, seed=seed, run_apply=False)
  mon.check(h(*args, scale=2) is None, 'run_apply=False returned something')
  mon.eq(calls, [True], 'run_apply=False: calls of the function')
  mon.eq(g.__name__, 'f', 'transform_and_run keeps the function name')
  mon.nontrivial(tag, seed)


def lift_(mon):
  """Lifted parameters appear under the lifting module, come back unchanged at apply, and are
  exactly what the inner apply receives."""
  n = mon.randint(1, 3)
  names = [mon.pick('lifted', 'inner', 'lin', 'linear', 'block_1', None) for _ in range(n)]
  inners = []
  for i in range(n):
    if mon.chance(0.4):
      e = zoo.entry(mon, [zoo.linear, zoo.mlp, zoo.conv, zoo.layer_norm, zoo.embed, zoo.sequential])
      inners.append((hk.transform(e['fn']), e['args']))
    else:
      prog, _ = lang.gen_program(mon, hi=40, param=5, sget=0, sset=0, sinc=0, key=0, wrng=0)
      fn, _ = lang.haiku_fn(prog)
      inners.append((hk.transform(fn), (lang.X0,)))
  where = mon.pick('top', 'module', 'method', 'scope', 'owners', 'owners', 'mixed', 'mixed')
  nested = mon.chance(0.3)
  owners = [mon.pick('outer', 'linear', 'lifted', 'a') for _ in range(n)]
  extra = {k: mon.randint(0, 9) for k in mon.pick([], [], ['scale'], ['name', 'args'], ['params', 'rng'])}
  if where == 'mixed':  # 'x' next to 'owner/~one/x'
    n = max(n, 2)
    at_top = [i == n - 1 for i in range(n)]
    while len(names) < n:
      names.append(names[0])
      owners.append(mon.pick('outer', 'linear', 'a'))
      inners.append(inners[0])
  if where in ('owners', 'mixed') and mon.chance(0.7):
    names = [names[0]] * n
    inners = [inners[0]] * n
  seen = {}

  def lift_one(i):
    t, args = inners[i]
    kw = {} if names[i] is None else dict(name=names[i])
    init = t.init
    if nested and i == 0:
      mid = hk.transform(lambda *a: t.apply(
          hk.experimental.lift(t.init, name='deep')(hk.next_rng_key() if hk.running_init()
                                                    else None, *a), None, *a))
      init, apply = mid.init, mid.apply
    else:
      apply = t.apply
    if extra:
      inner_init = init
      def init(*a, **k):
        mon.eq(k, extra, 'keyword arguments of a lifted init')
        mon.ev('lift_kwargs')
        return inner_init(*a)
    mod = hk.experimental.lift(init, **kw)
    key = seen.get(('key', i))
    if hk.running_init():
      key = hk.next_rng_key()
      seen['key', i] = key
    p = mod(key, *args, **extra)
    seen['name', i] = mod.module_name
    seen['params', i] = p
    seen['init', i] = inner_init if extra else init
    return apply(p, None, *args)

  class Outer(hk.Module):
    def __call__(self):
      return self.go()

    def go(self):
      return [lift_one(i) for i in range(n)]

    def one(self, i):
      return lift_one(i)

    @hk.transparent
    def all(self):
      return [lift_one(i) for i in range(n)]

  def fn():
    lin = hk.Linear(2, name='linear')(jnp.ones([1, 2]))
    hk.get_parameter('w', [], init=jnp.ones)
    if where == 'top':
      outs = [lift_one(i) for i in range(n)]
    elif where == 'module':
      outs = Outer()()
    elif where == 'method':
      outs = Outer().go()
    elif where == 'owners':
      # Modules of one name below different owners.
      outs = [Outer(name=owners[i]).one(i) for i in range(n)]
    elif where == 'mixed':
      outs = [lift_one(i) if at_top[i] else Outer(name=owners[i]).one(i) for i in range(n)]
    else:
      with hk.experimental.name_scope('sc'):
        outs = [lift_one(i) for i in range(n)]
    return lin, outs

  t = hk.transform(fn)
  try:
    params = t.init(jax.random.PRNGKey(3))
  except ValueError as e:
    if 'not unique' in str(e):
      return
    raise
  names_used = [seen['name', i] for i in range(n)]
  mon.eq(len(set(names_used)), n, 'lifting modules share a name')
  want = {('~', 'w'): np.ones((), np.float32)}
  lin_name = 'linear'
  for k, v in two_level(params).items():
    if k[0] == lin_name and k[1] in ('w', 'b'):
      want[k] = v
  for i in range(n):
    inner = seen['init', i](seen['key', i], *inners[i][1])
    mon.tree_same(seen['params', i], inner, 'lifted init result')
    for (m, nme), v in two_level(inner).items():
      want[(f'{names_used[i]}/{m}', nme)] = v
  mon.tree_same(params, progs.nest(want), 'outer params with lifted ones')
  # fresh values at apply
  fresh = progs.fresh_values(mon, progs.np_tree(params))
  lin, outs = t.apply(progs.nest(fresh), None)
  for i in range(n):
    pre = names_used[i] + '/'
    mine = {}
    for (m, nme), v in fresh.items():
      if m.startswith(pre):
        mine.setdefault(m[len(pre):], {})[nme] = v
    mon.tree_same(seen['params', i], mine, 'lifted params at apply')
    kind = jax.tree_util.tree_structure
    mon.eq(str(kind(seen['params', i])), str(kind(seen['init', i](jax.random.PRNGKey(0), *inners[i][1]))),
           'kind of container of lifted params')
    mon.ev('lifts')
    if nested and i == 0:
      mine = {m[len('deep/'):]: b for m, b in mine.items()}
    mon.eq(bits(outs[i]), bits(inners[i][0].apply(mine, None, *inners[i][1])),
           'inner apply with lifted params')
  mon.nontrivial(names, where, nested, mon.index)


def original(mon):
  """params_dict over library modules: full names, own + nested entries, nothing else."""
  box = {}

  def fn():
    mlp = hk.nets.MLP([mon_n, 2], name='mlp')
    other = hk.nets.MLP([2], name='mlp_extra')
    bn = hk.BatchNorm(True, True, 0.9, name='bn')
    before = set(mlp.params_dict())
    x = mlp(jnp.ones([2, 3]))
    x = bn(x, is_training=True)
    other(x)
    box['r'] = (before, dict(mlp.params_dict()), dict(other.params_dict()),
                dict(bn.params_dict()), dict(bn.state_dict()), dict(mlp.state_dict()))
    return x
  mon_n = mon.randint(1, 4)
  t = hk.transform_with_state(fn)
  p, s = t.init(jax.random.PRNGKey(0))
  for run in ('init', 'apply'):
    if run == 'apply':
      p = {m: {n: np.asarray(mon.np.integers(0, 9, v.shape), v.dtype) for n, v in b.items()}
           for m, b in p.items()}
      _, s = t.apply(p, s, None)
    flat = {f'{m}/{n}': v for (m, n), v in two_level(p).items()}
    sflat = {f'{m}/{n}' for m, n in two_level(s)}
    before, a, b, c, d, e = box['r']
    for got, pre in ((a, 'mlp/'), (b, 'mlp_extra/'), (c, 'bn/')):
      want = {k: v for k, v in flat.items() if k.startswith(pre)}
      mon.eq(sorted(got), sorted(want), f'params_dict of {pre} in {run}')
      if run == 'apply':
        for k in want:
          mon.same(got[k], want[k], f'params_dict value of {k}')
    mon.eq(sorted(d), sorted(sflat), 'state_dict')
    mon.eq(e, {}, 'state_dict of a stateless module')
    mon.eq(before, set() if run == 'init' else {k for k in flat if k.startswith('mlp/')},
           f'params_dict before the first call in {run}')
    mon.ev('views', 6)
  mon.nontrivial('lib', mon_n)


SCENARIOS = {
    'views': (views, 300, 8000),
    'adapters': (adapters, 80, 2000),
    'run_tool': (run_tool, 80, 1000),
    'lift': (lift_, 90, 1500),
    'library_views': (original, 8, 16),
}
