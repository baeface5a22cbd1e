"""C01: init and apply are pure functions."""
import collections
import copy

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, progs
from hkmon.core import two_level

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('Random programs; each case runs a history of init/apply calls (repeats, other '
        'transforms in between, failing calls, nested transforms, jax.jit) and compares '
        'every result with the first one bit for bit, and every input with a snapshot. '
        'Non-trivial: the program creates parameters or state and draws from >=3 '
        'history step kinds; distinct by program text + history.')
REQUIRED = {'repeat_calls': 200, 'container_states': 35, 'input_snapshots': 200, 'jit_runs': 20,
            'nested_runs': 40, 'arg_forwarding': 20, 'inplace_calls': 100}
ASSUMPTIONS = ['integer-valued float32 arithmetic gives identical bits with and without jit']


def snapshot(tree):
  """Deep structural snapshot incl. identity of containers and leaves."""
  if isinstance(tree, dict):
    return ('d', id(tree), [(k, snapshot(v)) for k, v in tree.items()])
  a = np.asarray(tree)
  return ('a', id(tree), str(a.dtype), a.shape, a.tobytes())


def result_bits(r):
  leaves, treedef = jax.tree_util.tree_flatten(r)
  return (str(treedef), [(str(np.asarray(l).dtype), np.asarray(l).shape,
                          np.asarray(l).tobytes()) for l in leaves])


def frozen_view(t):
  """Order-insensitive content of a two-level mapping."""
  return {k: (str(np.asarray(v).dtype), np.asarray(v).shape, np.asarray(v).tobytes())
          for k, v in two_level(t).items()}


def bits(out):
  a = np.asarray(out)
  return (str(a.dtype), a.shape, a.tobytes())


class Subject:
  """One transformed program with recorded reference results."""

  def __init__(self, mon, hi=90):
    self.mon = mon
    self.program, self.n = lang.gen_program(mon, hi=hi, param=5, sget=1, sset=1, sinc=1.5)
    fn, self.holder = lang.haiku_fn(self.program)
    self.t = hk.transform_with_state(fn)
    self.seed = mon.randint(0, 1000)
    self.x = lang.X0 + mon.randint(0, 30)
    p, s = self.t.init(jax.random.PRNGKey(self.seed), self.x)
    self.p0, self.s0 = p, s
    self.want_init = (frozen_view(p), frozen_view(s))
    self.params = progs.nest(progs.fresh_values(mon, progs.np_tree(p)))
    self.state = progs.nest(progs.fresh_values(mon, progs.np_tree(s)))
    self.want = None
    self.apply_once('first')

  def init_once(self, why):
    p, s = self.t.init(jax.random.PRNGKey(self.seed), self.x)
    self.mon.ev('repeat_calls')
    got = (frozen_view(p), frozen_view(s))
    self.mon.check(got == self.want_init, f'init is not a function of its arguments ({why})',
                   got=got, want=self.want_init)

  def apply_once(self, why):
    snap = snapshot(self.params), snapshot(self.state)
    xs = np.array(self.x)
    out, s = self.t.apply(self.params, self.state, jax.random.PRNGKey(self.seed + 1), self.x)
    self.mon.ev('repeat_calls')
    self.mon.ev('input_snapshots')
    self.mon.check((snapshot(self.params), snapshot(self.state)) == snap,
                   f'apply modified its params/state argument ({why})')
    self.mon.check(np.array_equal(xs, self.x), 'apply modified its input array')
    got = (bits(out), frozen_view(s))
    if self.want is None:
      self.want = got
      self.out0, self.state0 = out, s
    self.mon.check(got == self.want, f'apply is not a function of its arguments ({why})',
                   got=got, want=self.want)
    return out, s

  def failing(self):
    """A call that raises half way through."""
    from hkmon.core import Injected
    fn, h = lang.haiku_fn(self.program, fault_at=self.mon.randint(0, self.n - 1))
    t = hk.transform_with_state(fn)
    try:
      if self.mon.chance(0.5):
        t.init(jax.random.PRNGKey(0), self.x)
      else:
        t.apply(self.params, self.state, jax.random.PRNGKey(0), self.x)
    except Injected:
      pass

  def earlier_results_intact(self):
    got = (bits(self.out0), frozen_view(self.state0))
    self.mon.check(got == self.want, 'an earlier result changed after later calls')
    got = (frozen_view(self.p0), frozen_view(self.s0))
    self.mon.check(got == self.want_init, 'an earlier init result changed after later calls')


def history(mon):
  """Any history of other calls leaves init/apply results unchanged."""
  subs = [Subject(mon, hi=60) for _ in range(mon.randint(1, 3))]
  steps = []
  for _ in range(mon.randint(4, 8)):
    s = mon.pick(subs)
    step = mon.pick('init', 'apply', 'apply', 'fail', 'again', 'feed')
    steps.append(step)
    if step == 'init':
      s.init_once(steps)
    elif step == 'apply':
      s.apply_once(steps)
    elif step == 'fail':
      s.failing()
    elif step == 'again':
      # Re-transforming the same function gives the same pair of functions.
      s.t = hk.transform_with_state(lang.haiku_fn(s.program)[0])
    else:
      # Feeding a returned state back does not modify it.
      before = frozen_view(s.state0)
      s.t.apply(s.params, s.state0, jax.random.PRNGKey(7), s.x)
      mon.check(frozen_view(s.state0) == before, 'apply modified a state it was given')
  for s in subs:
    s.init_once(steps)
    s.apply_once(steps)
    s.earlier_results_intact()
  if len(set(steps)) >= 3 and any(s.p0 or s.s0 for s in subs):
    mon.nontrivial([s.program for s in subs], steps)
  mon.sample(dict(steps=steps, params=sorted(map(str, two_level(subs[0].p0)))))


def aliasing(mon):
  """Results do not alias the caller's containers, in either direction."""
  s = Subject(mon)
  p = copy.deepcopy(s.params)
  st = copy.deepcopy(s.state)
  out, new_state = s.t.apply(p, st, jax.random.PRNGKey(s.seed + 1), s.x)
  want = (bits(out), frozen_view(new_state))
  # The caller may do anything to its own containers afterwards.
  for d in (p, st):
    for m in list(d):
      for n in list(d[m]):
        if mon.chance(0.5):
          d[m][n] = np.float32(-1)
        elif mon.chance(0.5):
          del d[m][n]
      if mon.chance(0.5):
        d[m]['zz'] = np.float32(1)
      if mon.chance(0.3):
        del d[m]
    d['zzz'] = {'q': np.float32(0)}
  mon.check((bits(out), frozen_view(new_state)) == want,
            'mutating the arguments after the call changed the returned values')
  # Mutable copies of results do not write through to the results.
  before = frozen_view(s.p0), frozen_view(new_state)
  for r in (s.p0, new_state):
    mut = hk.data_structures.to_mutable_dict(r)
    for m in mut:
      for n in list(mut[m]):
        mut[m][n] = None
  mon.check((frozen_view(s.p0), frozen_view(new_state)) == before,
            'a mutable copy aliases the result it was made from')
  s.apply_once('after mutation of other copies')
  mon.ev('aliasing_cases')
  if s.params or s.state:
    mon.nontrivial('alias', s.program)


def containers(mon):
  """State values that are containers of the caller are copied, never shared, and never modified."""
  def tree(depth=0):
    k = mon.randint(0, 6 if depth < 2 else 1)
    if k <= 1:
      return np.float32(mon.randint(0, 99))
    kids = [tree(depth + 1) for _ in range(mon.randint(1, 3))]
    named = {f'k{i}': v for i, v in enumerate(kids)}
    return {2: kids, 3: named, 4: collections.OrderedDict(named), 5: tuple(kids),
            6: collections.defaultdict(list, named)}[k]

  def scramble(t):
    if isinstance(t, list):
      for v in t:
        scramble(v)
      t.append(np.float32(-1))
    elif isinstance(t, tuple):
      for v in t:
        scramble(v)
    elif isinstance(t, dict):
      for v in list(t.values()):
        scramble(v)
      t['zz'] = np.float32(-2)
      del t[min(t)]
    return t
  vals = [tree() for _ in range(mon.randint(1, 3))]

  def f(args, given):
    for i, v in enumerate(args):
      if i in given:
        hk.set_state(f's{i}', v)
      else:
        hk.get_state(f's{i}', [], init=lambda *_: v)
  given = [i for i in range(len(vals)) if mon.chance(0.5)]
  t = hk.transform_with_state(f)
  view = lambda s: {m: copy.deepcopy(plain_maps(s[m])) for m in s}
  mine = copy.deepcopy(vals)
  _, s0 = t.init(None, mine, given)
  mon.eq(mine, vals, 'arguments left alone by init')
  want = view(s0)
  scramble(mine)
  mon.eq(view(s0), want, 'initial state after the caller changed its containers')
  st = {'~': copy.deepcopy(vals[:1] and {'s0': vals[0]}), 'unused': {'q': copy.deepcopy(vals[-1])}}
  keep = copy.deepcopy(st)
  mine = copy.deepcopy(vals)
  _, s1 = t.apply({}, st, None, mine, given)
  mon.eq((mine, st), (vals, keep), 'arguments left alone by apply')
  want = view(s1)
  mon.eq(want, {'~': plain_maps({f's{i}': v for i, v in enumerate(vals)}), 'unused': plain_maps({'q': vals[-1]})},
         'state returned by apply')
  _, s2 = t.apply({}, s1, None, mine, given)
  for m in st:
    for n in st[m]:
      scramble(st[m][n])
  scramble(mine)
  mon.eq(view(s1), want, 'returned state after the caller changed its containers')
  for m in s1:
    for v in s1[m].values():
      if not isinstance(v, np.float32):
        scramble(v)
  mon.eq(view(s2), want, 'state returned by the next call after the previous one was changed')
  mon.ev('container_states')
  mon.nontrivial('containers', str(vals), given)


def plain_maps(t):
  """Nested dictionaries of any kind as dict, the rest as it is."""
  if hasattr(t, 'items'):
    return {k: plain_maps(v) for k, v in t.items()}
  if isinstance(t, (list, tuple)):
    return type(t)(plain_maps(v) for v in t)
  return t


def inplace(mon):
  """The caller edits the very containers it passed before, then calls again.

  Only the contents at the time of the call may matter: the result has to equal that
  of fresh containers with the same contents passed to a fresh transform.
  """
  s = Subject(mon, hi=60)
  wrap = mon.pick(['transform_with_state', 'transform_with_state', 'jit'])
  fn = lang.haiku_fn(s.program, record=False)[0]
  def make():
    f = hk.transform_with_state(fn).apply
    return jax.jit(f) if wrap == 'jit' else f
  live = make()
  p, st = copy.deepcopy(s.params), copy.deepcopy(s.state)
  if mon.chance(0.3):
    p = {m: hk.data_structures.to_immutable_dict(v) for m, v in p.items()}
  x = np.array(s.x)
  runs = []
  for _ in range(mon.randint(3, 5)):
    key = jax.random.PRNGKey(mon.randint(0, 3))
    out, new = live(p, st, key, x)
    runs.append(((bits(out), frozen_view(new)),
                 (copy.deepcopy(dict(p)), copy.deepcopy(st), key, np.array(x))))
    # Edit the same objects in place.
    for d in (p, st):
      for m in list(d):
        if mon.chance(0.3) or not isinstance(d[m], dict):
          d[m] = {n: np.asarray(v) + np.asarray(v).dtype.type(1) for n, v in d[m].items()}
          continue
        for n in list(d[m]):
          v = np.asarray(d[m][n])
          how = mon.pick(['keep', 'replace', 'edit'])
          if how == 'replace':
            d[m][n] = (v + v.dtype.type(mon.randint(1, 9))).astype(v.dtype)
          elif how == 'edit' and isinstance(d[m][n], np.ndarray) and d[m][n].flags.writeable:
            d[m][n][...] = d[m][n] + d[m][n].dtype.type(2)
    if mon.chance(0.5):
      x += x.dtype.type(1)
  # Only now run the fresh ones: nothing else may come between the live calls.
  for i, (got, args) in enumerate(runs):
    fresh = make()(*args)
    want = (bits(fresh[0]), frozen_view(fresh[1]))
    mon.check(got == want, 'the result depends on earlier calls with the same containers',
              call=i, wrap=wrap, got=got, want=want)
    mon.ev('inplace_calls')
  if s.params or s.state:
    mon.nontrivial('inplace', s.program, wrap)


def jitted(mon):
  """jax.jit of init and apply computes the same results."""
  program, n = lang.gen_program(mon, hi=40, param=4, sget=1, sset=1, sinc=1, key=1)
  fn, _ = lang.haiku_fn(program, record=False)
  t = hk.transform_with_state(fn)
  x = lang.X0
  key = jax.random.PRNGKey(mon.randint(0, 99))
  p, s = t.init(key, x)
  jinit, japply = jax.jit(t.init), jax.jit(t.apply)
  jp, js = jinit(key, x)
  mon.tree_same(jp, p, 'jit(init) params')
  mon.tree_same(js, s, 'jit(init) state')
  for i in range(3):
    k = jax.random.PRNGKey(i)
    vp = progs.nest(progs.fresh_values(mon, progs.np_tree(p)))
    vs = progs.nest(progs.fresh_values(mon, progs.np_tree(s)))
    o1, s1 = t.apply(vp, vs, k, x + i)
    o2, s2 = japply(vp, vs, k, x + i)
    mon.same(o2, o1, 'jit(apply) output')
    mon.tree_same(s2, s1, 'jit(apply) state')
    mon.ev('jit_runs')
  if two_level(p) or two_level(s):
    mon.nontrivial('jit', program)


def nested(mon):
  """A transformed function called inside another one does not disturb it."""
  inner_prog, _ = lang.gen_program(mon, hi=40)
  ifn, _ = lang.haiku_fn(inner_prog)
  it = hk.transform_with_state(ifn)
  ip, is_ = it.init(jax.random.PRNGKey(1), lang.X0)
  iout, istate = it.apply(ip, is_, jax.random.PRNGKey(2), lang.X0)
  want_inner = (frozen_view(ip), frozen_view(is_), bits(iout), frozen_view(istate))
  program, _ = lang.gen_program(mon, hi=70)

  def with_inner(every):
    def fn(x):
      b = lang.HkBackend(program)
      w = lang.Walker(program, b)
      orig = w.step
      count = [0]
      def step(s, x, env):
        count[0] += 1
        if every and count[0] % every == 0:
          p1, s1 = it.init(jax.random.PRNGKey(1), lang.X0)
          o1, s2 = it.apply(p1, s1, jax.random.PRNGKey(2), lang.X0)
          got = (frozen_view(p1), frozen_view(s1), bits(o1), frozen_view(s2))
          mon.check(got == want_inner, 'inner transform is affected by the outer one')
          mon.ev('nested_runs')
        return orig(s, x, env)
      w.step = step
      return w.main(x)
    return hk.transform_with_state(fn)

  res = []
  for every in (0, mon.randint(2, 6)):
    t = with_inner(every)
    p, s = t.init(jax.random.PRNGKey(3), lang.X0)
    out, s2 = t.apply(p, s, jax.random.PRNGKey(4), lang.X0)
    res.append((frozen_view(p), frozen_view(s), bits(out), frozen_view(s2)))
  mon.check(res[0] == res[1], 'outer transform is affected by inner transforms',
            without=res[0], with_inner=res[1])
  mon.nontrivial('nested', program, inner_prog)


def forwarding(mon):
  """Arguments, rng forms and return values pass through unchanged."""
  seen = []
  ret = object()

  def f(*args, **kwargs):
    seen.append((args, kwargs))
    hk.get_parameter('w', [], init=jnp.ones)
    hk.set_state('s', jnp.zeros(()))
    return ret

  na, nk = mon.randint(0, 4), mon.randint(0, 3)
  args = tuple(object() for _ in range(na))
  kwargs = {f'k{i}': object() for i in range(nk)}
  names = mon.pick([['rng', 'params', 'state'], ['k'], []])
  del names
  which = mon.pick('state', 'plain')
  if which == 'state':
    t = hk.transform_with_state(f)
    seed = mon.randint(0, 2**31 - 1)
    form = mon.pick(['int', 'key', 'none'])
    rng = {'int': seed, 'key': jax.random.PRNGKey(seed), 'none': None}[form]
    p, s = t.init(rng, *args, **kwargs)
    out, s2 = t.apply(p, s, rng, *args, **kwargs)
    mon.check(out is ret, 'apply must return the function result itself')
    mon.eq(sorted(two_level(s2)), [('~', 's')], 'state entries')
  else:
    def g(*a, **k):
      seen.append((a, k))
      hk.get_parameter('w', [], init=jnp.ones)
      return ret
    t = hk.transform(g)
    p = t.init(None, *args, **kwargs)
    out = t.apply(p, None, *args, **kwargs)
    mon.check(out is ret, 'apply must return the function result itself')
    t2 = hk.without_apply_rng(t)
    mon.check(t2.apply(p, *args, **kwargs) is ret, 'without_apply_rng result')
  for a, k in seen:
    mon.check(len(a) == na and all(x is y for x, y in zip(a, args)),
              'positional arguments changed on the way')
    mon.check(sorted(k) == sorted(kwargs) and all(k[n] is kwargs[n] for n in k),
              'keyword arguments changed on the way')
  # int seed and PRNGKey are interchangeable.
  def r():
    return hk.next_rng_keys(3)
  seed = mon.randint(0, 2**31 - 1)
  a = hk.transform(r).apply({}, seed)
  b = hk.transform(r).apply({}, jax.random.PRNGKey(seed))
  for x, y in zip(a, b):
    mon.same(x, y, 'integer seed vs PRNGKey')
  bad = mon.pick([1.5, 'abc', np.zeros(3), jnp.zeros((2,), jnp.float32), jnp.zeros((3,), jnp.uint32),
                  {}, [1, 2]])
  mon.raises(ValueError, lambda: hk.transform(r).init(bad), 'invalid rng for init', bad=bad)
  mon.raises(ValueError, lambda: hk.transform(r).apply({}, bad), 'invalid rng for apply', bad=bad)
  badp = mon.pick([[1], 'p', 3, np.ones(2), (1, 2)])
  mon.raises(TypeError, lambda: hk.transform(r).apply(badp, 1), 'invalid params', bad=badp)
  mon.raises(TypeError, lambda: hk.transform_with_state(r).apply({}, badp, 1),
             'invalid state', bad=badp)
  mon.ev('arg_forwarding')
  mon.nontrivial('fwd', na, nk, which, str(type(bad)))


SCENARIOS = {
    'history': (history, 160, 5000),
    'aliasing': (aliasing, 120, 3000),
    'containers': (containers, 60, 1500),
    'inplace': (inplace, 60, 1500),
    'jitted': (jitted, 48, 1200),
    'nested': (nested, 60, 1500),
    'forwarding': (forwarding, 40, 600),
}
