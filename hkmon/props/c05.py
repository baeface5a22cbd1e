"""C05: random key discipline."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon.core import Injected, two_level

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('Random scripts of key requests (next / next-n / maybe / reserve / overriding key '
        'blocks / modules / control flow) run in init and apply; all keys handed out are '
        'recorded at the client boundary and checked offline for uniqueness (including '
        'against keys the user derives by splitting), determinism and block isolation. '
        'Non-trivial: >=3 keys drawn; distinct by script.')
REQUIRED = {'keys_observed': 2000, 'derived_keys': 2000, 'flow_keys': 300,
            'none_rejected': 20, 'with_rng_blocks': 50, 'seq_ops': 500}
ASSUMPTIONS = ['jax.random.split does not collide on the sampled keys (threefry)']


def kt(k):
  if isinstance(k, jax.core.Tracer):
    return 'traced'
  a = np.asarray(k)
  return tuple(int(i) for i in a)


def script(mon, depth=0, with_block=True):
  ops = []
  for _ in range(mon.randint(2, 6)):
    o = mon.pick('next', 'next', 'next', 'keys', 'maybe', 'reserve', 'module', 'block', 'init')
    if o in ('next', 'maybe'):
      ops.append([o])
    elif o in ('keys', 'reserve'):
      ops.append([o, mon.randint(0 if o == 'reserve' else 1, 4)])
    elif o == 'init':
      ops.append(['init', f'p{len(ops)}_{depth}_{mon.randint(0, 99)}'])
    elif o == 'module' and depth < 2:
      ops.append(['module', script(mon, depth + 1, with_block)])
    elif o == 'block' and with_block and depth < 2:
      ops.append(['block', mon.randint(0, 3), script(mon, depth + 1, with_block)])
  return ops


def execute(ops, out, stream='main'):
  """Runs a script; appends (stream, key)."""
  def got(k):
    out.append((stream, kt(k), k.shape, str(k.dtype)))
  class Mod(hk.Module):
    def __call__(self, sub):
      execute(sub, out, stream)
  for o in ops:
    if o[0] == 'next':
      got(hk.next_rng_key())
    elif o[0] == 'maybe':
      k = hk.maybe_next_rng_key()
      if k is not None:
        got(k)
      else:
        out.append((stream, None, None, None))
    elif o[0] == 'keys':
      ks = hk.next_rng_keys(o[1])
      if len(ks) != o[1]:
        out.append((stream, 'BADLEN', len(ks), o[1]))
      for k in ks:
        got(k)
    elif o[0] == 'reserve':
      hk.reserve_rng_keys(o[1])
    elif o[0] == 'init':
      def init(s, d):
        k = hk.next_rng_key()
        got(k)
        return jnp.zeros(s, d)
      hk.get_parameter(o[1], [], init=init)
    elif o[0] == 'module':
      Mod()(o[1])
    elif o[0] == 'block':
      with hk.with_rng(jax.random.PRNGKey(7000 + o[1])):
        execute(o[2], out, f'block{len(out)}:{o[1]}')


def run(ops, seed, mode='init', params=None):
  out = []
  t = hk.transform(lambda: execute(ops, out))
  key = None if seed is None else jax.random.PRNGKey(seed)
  if mode == 'init':
    params = t.init(key)
  else:
    t.apply(params, key)
  return out, params


def uniqueness(mon, recs, input_key=None):
  by = {}
  for s, k, shape, dt in recs:
    if k is None:
      continue
    mon.check(k != 'BADLEN', 'next_rng_keys returned the wrong number of keys')
    mon.check(shape == (2,) and dt == 'uint32', 'key has wrong shape/dtype')
    by.setdefault(s, []).append(k)
  for s, ks in by.items():
    mon.ev('keys_observed', len(ks))
    mon.check(len(set(ks)) == len(ks), f'duplicate key handed out in stream {s}', keys=ks)
    if input_key is not None and s == 'main':
      mon.check(kt(input_key) not in ks, 'the input key itself was handed out')
    # User-side derivations must never collide with keys handed out later/earlier.
    derived = {}
    for k in ks[:12]:
      for n in (2, 3, 5):
        for j, d in enumerate(np.asarray(jax.random.split(jnp.asarray(k, jnp.uint32), n))):
          dk = kt(d)
          mon.ev('derived_keys')
          mon.check(dk not in ks, 'a key handed out equals one derived from another '
                    'key handed out', parent=k, split=n, index=j)
          derived[dk] = k


def stream(mon):
  ops = script(mon)
  seed = mon.randint(0, 10**6)
  recs, params = run(ops, seed)
  uniqueness(mon, recs, jax.random.PRNGKey(seed))
  recs2, _ = run(ops, seed)
  mon.eq(recs2, recs, 'key sequence is not deterministic (init)')
  a1, _ = run(ops, seed, 'apply', params)
  uniqueness(mon, a1, jax.random.PRNGKey(seed))
  a2, _ = run(ops, seed, 'apply', params)
  mon.eq(a2, a1, 'key sequence is not deterministic (apply)')
  other, _ = run(ops, seed + 1)
  for x, y in zip(recs, other):
    if x[0] == 'main' and x[1] is not None:
      mon.check(x[1] != y[1], 'different input keys gave the same key')
  if len(recs) >= 3:
    mon.nontrivial(ops)
  mon.sample(dict(ops=ops, keys=[r[1] for r in recs[:4]]))


def blocks(mon):
  """with_rng: inside, keys depend on the given key only; outside, nothing changes."""
  pre, post = [['next']] * mon.randint(0, 3), [['next']] * mon.randint(1, 3)
  inner = script(mon, depth=1, with_block=False) or [['next']]
  inner = [o for o in inner if o[0] != 'init'] + [['next']]
  bid = mon.randint(0, 3)
  seed = mon.randint(0, 10**6)
  full, _ = run(pre + [['block', bid, inner]] + post, seed)
  bare, _ = run(pre + post, seed)
  main = [k for s, k, *_ in full if s == 'main']
  mon.eq(main, [k for s, k, *_ in bare if s == 'main'],
         'a with_rng block changed the keys drawn outside it')
  blk = [k for s, k, *_ in full if s != 'main']
  again, _ = run([['block', bid, inner]], seed + 5)
  mon.eq(blk, [k for s, k, *_ in again if s != 'main'],
         'keys inside with_rng depend on more than its key')
  nokey, _ = run([['block', bid, inner]], None)
  mon.eq(blk, [k for s, k, *_ in nokey if s != 'main'], 'with_rng without an outer key')
  # Same as a transform seeded with that key.
  direct, _ = run(inner, 7000 + bid)
  mon.eq(blk, [k for s, k, *_ in direct], 'with_rng(key) vs passing key to init')
  # The block is undone when it is left by an exception.
  def f():
    a = hk.next_rng_key()
    try:
      with hk.with_rng(jax.random.PRNGKey(9)):
        hk.next_rng_key()
        raise Injected('x')
    except Injected:
      pass
    return a, hk.next_rng_key()
  a, b = hk.transform(f).apply({}, jax.random.PRNGKey(seed))
  two, _ = run([['next'], ['next']], seed)
  mon.eq([kt(a), kt(b)], [k for _, k, *_ in two], 'with_rng left by exception')
  mon.ev('with_rng_blocks')
  mon.nontrivial('block', pre, inner, post, bid)


def maybe_(mon):
  """maybe_next_rng_key draws exactly like next_rng_key, and is None without a key."""
  n = mon.randint(2, 7)
  kinds = [mon.pick('next', 'maybe') for _ in range(n)]
  seed = mon.randint(0, 10**6)
  a, _ = run([[k] for k in kinds], seed)
  b, _ = run([['next']] * n, seed)
  mon.eq([r[1] for r in a], [r[1] for r in b], 'maybe_next_rng_key advances the stream differently')
  none, _ = run([['maybe']] * n, None)
  mon.eq([r[1] for r in none], [None] * n, 'maybe_next_rng_key without a key')
  for op in (['next'], ['keys', 2], ['reserve', 2]):
    mon.raises(ValueError, lambda: run([op], None), f'{op} without a key in init')
    mon.raises(ValueError, lambda: hk.transform(lambda: execute([op], [])).apply({}, None),
               f'{op} without a key in apply')
    mon.ev('none_rejected')
  # Mixed reservation: drawing n keys one by one or at once never repeats.
  mixed, _ = run([['reserve', mon.randint(1, 4)], ['next'], ['keys', mon.randint(1, 5)],
                  ['reserve', mon.randint(0, 2)], ['next'], ['keys', 3]], seed)
  uniqueness(mon, mixed)
  mon.nontrivial('maybe', kinds)


def sequence(mon):
  """hk.PRNGSequence on its own, against its own prefix behaviour."""
  seed = mon.randint(0, 10**6)
  ops = [(mon.pick('next', 'next', 'take', 'reserve', 'method', 'iter'), mon.randint(0, 4))
         for _ in range(mon.randint(3, 10))]
  def go(arg):
    seq = hk.PRNGSequence(arg)
    out = []
    for o, n in ops:
      mon.ev('seq_ops')
      if o == 'next':
        out.append(next(seq))
      elif o == 'method':
        out.append(seq.next())
      elif o == 'take':
        ks = seq.take(n)
        mon.eq(len(ks), n, 'take(n) length')
        mon.check(isinstance(ks, tuple), 'take returns a tuple')
        out.extend(ks)
      elif o == 'iter':
        mon.check(iter(seq) is seq, 'a PRNGSequence is its own iterator')
        for _, k in zip(range(n), seq):
          out.append(k)
        if n:
          pass
      else:
        seq.reserve(n)
    return [(('s'), kt(k), k.shape, str(k.dtype)) for k in out]
  a = go(seed)
  mon.eq(go(jax.random.PRNGKey(seed)), a, 'int seed vs PRNGKey')
  mon.eq(go(seed), a, 'PRNGSequence is deterministic')
  uniqueness(mon, a, jax.random.PRNGKey(seed))
  for bad in (jnp.zeros(3), 'x', 1.5, jnp.zeros((2,), jnp.int32)):
    mon.raises(ValueError, lambda: hk.PRNGSequence(bad), 'invalid key accepted', key=bad)
  # Reserving ahead never loses the no-repeat guarantee between two sequences.
  b = go(seed + 1)
  mon.check(not ({r[1] for r in a} & {r[1] for r in b}), 'two seeds share keys')
  mon.nontrivial('seq', ops)


def flow(mon):
  """Keys drawn inside jit/cond/switch/scan/fori/while bodies are unique too."""
  kinds = ['jit', 'remat', 'cond', 'switch', 'scan', 'fori', 'while', 'plain', 'named', 'grad',
           'vmap']
  plan = [mon.pick(kinds) for _ in range(mon.randint(2, 4))]
  n = mon.randint(1, 3)
  steps = mon.randint(1, 3)
  pre = mon.randint(0, 3)
  reserve = mon.chance(0.3)
  branch = mon.randint(0, 2)

  def draw():
    return jnp.stack([hk.next_rng_key() for _ in range(n)])

  def f():
    outs = []
    if pre:
      outs.append(jnp.stack(hk.next_rng_keys(pre)))
    if reserve:
      hk.reserve_rng_keys(mon_reserve)
    for kind in plan:
      if kind == 'jit':
        g = hk.jit(lambda: draw())
        outs += [g(), g()]
      elif kind == 'remat':
        outs.append(hk.remat(lambda a: draw())(1.))
      elif kind == 'named':
        outs.append(hk.experimental.named_call(lambda: draw(), name='nm')())
      elif kind == 'grad':
        def loss(x):
          return jnp.sum(x * x), draw()
        (_, ks), _ = hk.value_and_grad(loss, has_aux=True)(jnp.ones(2))
        outs.append(ks)
      elif kind == 'vmap':
        ks = hk.vmap(lambda x: (x, draw()), out_axes=(0, None))(jnp.ones(3))[1]
        outs.append(ks)
      elif kind == 'cond':
        outs.append(hk.cond(jnp.asarray(branch) > 0, lambda _: draw(), lambda _: draw()[::-1], None))
      elif kind == 'switch':
        outs.append(hk.switch(jnp.asarray(branch), [lambda _: draw()] * 2 + [lambda _: draw() + 0], None))
      elif kind == 'scan':
        _, ks = hk.scan(lambda c, x: (c, draw()), 0, jnp.arange(steps))
        outs.append(ks.reshape(-1, 2))
      elif kind == 'fori':
        buf = jnp.zeros((steps, n, 2), jnp.uint32)
        buf = hk.fori_loop(0, steps, lambda i, b: b.at[i].set(draw()), buf)
        outs.append(buf.reshape(-1, 2))
      elif kind == 'while':
        if hk.running_init():
          continue
        buf = jnp.zeros((steps, n, 2), jnp.uint32)
        _, buf = hk.while_loop(lambda v: v[0] < steps,
                               lambda v: (v[0] + 1, v[1].at[v[0]].set(draw())), (0, buf))
        outs.append(buf.reshape(-1, 2))
      else:
        outs.append(draw())
    outs.append(draw())
    f.outs = outs
    return jnp.concatenate(outs)

  mon_reserve = mon.randint(1, 3)
  seed = mon.randint(0, 10**6)
  t = hk.transform(f)
  t.init(jax.random.PRNGKey(seed))
  for where in ('init', 'apply', 'jit-apply'):
    if where == 'init':
      ks = jnp.concatenate(f.outs)
    elif where == 'apply':
      ks = t.apply({}, jax.random.PRNGKey(seed))
      ks2 = t.apply({}, jax.random.PRNGKey(seed))
      mon.same(ks2, ks, 'keys under control flow are not deterministic')
    else:
      if mon.index % 2:
        continue
      ks3 = jax.jit(t.apply)({}, jax.random.PRNGKey(seed))
      mon.same(ks3, ks, 'keys differ when apply is jitted')
    recs = [('main', kt(k), (2,), 'uint32') for k in np.asarray(ks)]
    mon.ev('flow_keys', len(recs))
    uniqueness(mon, recs, jax.random.PRNGKey(seed))
  mon.nontrivial('flow', plan, n, steps, pre, reserve)


def optimize(mon):
  """optimize_rng_use keeps keys unique and deterministic."""
  ops = [o for o in script(mon, with_block=False)] + [['next'], ['next']]
  seed = mon.randint(0, 10**6)
  def go(mode, params=None):
    out = []
    def f():
      del out[:]
      fn = hk.experimental.optimize_rng_use(lambda: execute(ops, out))
      fn()
    t = hk.transform(f)
    if mode == 'init':
      p = t.init(jax.random.PRNGKey(seed))
    else:
      p = params
      t.apply(p, jax.random.PRNGKey(seed))
    return [r for r in out if r[1] != 'traced'], p
  a, p = go('init')
  uniqueness(mon, a, jax.random.PRNGKey(seed))
  mon.eq(go('init')[0], a, 'optimize_rng_use is not deterministic')
  b, _ = go('apply', p)
  uniqueness(mon, b, jax.random.PRNGKey(seed))
  plain, _ = run(ops, seed)
  mon.eq(len([r for r in a]), len(plain), 'optimize_rng_use changes the number of keys')
  # Arguments of any name reach the function, and exactly the reserved keys are used.
  names = mon.py.sample(['params', 'state', 'rng', 'fun', 'args', 'kwargs', 'x', 'f'], 3)
  n = mon.randint(1, 5)
  def g(first, **kw):
    return [hk.next_rng_key() for _ in range(n)], first, kw
  vals = {k: np.float32(mon.randint(0, 99)) for k in names}
  ks, first, kw = hk.transform(lambda: hk.experimental.optimize_rng_use(g)(3, **vals)).apply({}, jax.random.PRNGKey(seed))
  mon.eq((first, kw), (3, vals), 'arguments of a function under optimize_rng_use')
  mon.same(np.stack(ks), np.asarray(jax.random.split(jax.random.PRNGKey(seed), n + 1))[1:],
           'one split provides all keys under optimize_rng_use')
  mon.ev('optimize_runs')
  mon.nontrivial('opt', ops)


def optimize_in(mon):
  """optimize_rng_use anywhere in a function: with parameters, state and modules made before, in
  methods, with arguments and results of any type; only the grouping of keys changes."""
  n, before, after = mon.randint(1, 4), mon.randint(0, 2), mon.randint(0, 2)
  where = mon.pick('top', 'method', 'nested', 'scope')
  own = mon.chance(0.7)

  class Inner(hk.Module):
    def __call__(self, x):
      hk.set_state('n', hk.get_state('n', [], init=jnp.zeros) + 1)
      return x + hk.get_parameter('w', [], init=hk.initializers.RandomNormal())

  class Outer(hk.Module):
    def __call__(self, f, *args, **kwargs):
      return f(*args, **kwargs)

  def make(opt):
    keys, seen = [], []
    def f(x):
      del keys[:], seen[:]
      def fun(x, training, label='a', *, mode):
        seen.append((training, label, mode))
        del keys[before:]  # of the counting run
        if training:
          keys.extend(hk.next_rng_key() for _ in range(n))
        x = inner(x) if own else Inner(name='made')(x)
        x = Inner()(x) + hk.get_parameter('p', [], init=jnp.ones)
        return x, label
      wrapped = hk.experimental.optimize_rng_use(fun) if opt else fun
      if where == 'nested' and opt:
        wrapped = hk.experimental.optimize_rng_use(wrapped)
      start = hk.get_parameter('start', [], init=jnp.ones)
      hk.set_state('s', hk.get_state('s', [], init=jnp.zeros) + 1)
      inner = Inner(name='before')
      del keys[:]
      keys.extend(hk.next_rng_key() for _ in range(before))
      if where == 'method':
        out = Outer()(wrapped, x, True, label='b', mode=None)
      elif where == 'scope':
        with hk.experimental.name_scope('scope'):
          out = wrapped(x, True, label='b', mode=None)
      else:
        out = wrapped(x, True, label='b', mode=None)
      keys.extend(hk.next_rng_key() for _ in range(after))
      mon.eq(seen[-1], (True, 'b', None), 'arguments under optimize_rng_use')
      mon.eq(out[1], 'b', 'result under optimize_rng_use')
      Inner()
      return out[0] * start
    return hk.transform_with_state(f), keys
  seed = mon.randint(0, 10 ** 6)
  (t, keys), (u, _) = make(True), make(False)
  key = jax.random.PRNGKey(seed)
  x = jnp.float32(3)
  p, s = t.init(key, x)
  p2, s2 = u.init(key, x)
  mon.eq({k: v.shape for k, v in two_level(p).items()}, {k: v.shape for k, v in two_level(p2).items()},
         'parameters under optimize_rng_use', where=where)
  mon.tree_same(s, s2, 'state under optimize_rng_use')
  for _ in range(2):
    got, gs = t.apply(p, s, key, x)
    recs = [('main', kt(k), (2,), 'uint32') for k in keys]
    want, ws = u.apply(p, s, key, x)
    mon.same(got, want, 'output under optimize_rng_use', where=where)
    mon.tree_same(gs, ws, 'state after apply under optimize_rng_use')
    mon.eq(len(recs), n + before + after, 'number of keys under optimize_rng_use')
    uniqueness(mon, recs, key)
    again, _ = t.apply(p, s, key, x)
    mon.same(again, got, 'optimize_rng_use is not deterministic')
    s = gs
  mon.ev('optimize_runs')
  mon.nontrivial('opt_in', where, n, before, after, own)


SCENARIOS = {
    'stream': (stream, 120, 3000),
    'blocks': (blocks, 60, 1000),
    'maybe': (maybe_, 40, 600),
    'sequence': (sequence, 60, 1500),
    'flow': (flow, 48, 1000),
    'optimize': (optimize, 40, 600),
    'optimize_in': (optimize_in, 24, 300),
}
