"""C07: Haiku's control flow behaves like the Python construct it stands for."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import flow
from hkmon.core import two_level

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('Random programs with hk.cond (both call styles), switch, scan, fori_loop and '
        'while_loop, nested and inside methods, run wrapped and as Python if/for/while: '
        'parameters, state, outputs and keys must agree bit for bit in init and over a chain '
        'of applies (trip counts 0..4, forward/reverse, unroll, xs/length forms). Misuse '
        'must be rejected. Non-trivial: >=1 construct executed; distinct by program.')
REQUIRED = {'flow_init': 100, 'flow_apply': 200, 'node_cond': 20, 'node_switch': 20,
            'node_scan': 20, 'node_fori': 20, 'node_while': 20, 'zero_length': 20,
            'misuse_rejected': 60, 'branches': 40, 'traced_runs': 50}
ASSUMPTIONS = ['branches of cond/switch and bodies of while_loop are connected once during '
               'init, as the documentation requires']


def ctrl(mon):
  p = flow.FlowGen(mon, flow.CTRL).program()
  flow.compare(mon, p)
  mon.nontrivial(p)
  mon.sample(p['main'])


def mixed(mon):
  p = flow.FlowGen(mon, flow.CTRL + ['jit', 'remat', 'vgrad', 'vmap']).program()
  flow.compare(mon, p)
  mon.nontrivial(p)


def jitted(mon):
  p = flow.FlowGen(mon, flow.CTRL, p_wrap=0.2).program()
  flow.compare(mon, p, jit_apply=True)
  mon.nontrivial('j', p)


def zero(mon):
  """Zero-length loops: no steps at apply; init still creates everything."""
  kind = mon.pick('scan', 'scan_none', 'fori', 'while')
  reverse = mon.chance(0.5)
  where = mon.pick('apply', 'init') if kind.startswith('scan') else 'apply'
  class M(hk.Module):
    def __call__(self, x):
      w = hk.get_parameter('w', [], init=hk.initializers.Constant(2.))
      c = hk.get_state('c', [], init=jnp.ones)
      if not hk.running_init():
        hk.set_state('c', c + 1)
        hk.next_rng_key()
      return x * w + c
  def f(n):
    m = M()
    x = jnp.float32(5)
    ys = None
    if kind == 'scan':
      x, ys = hk.scan(lambda c, v: (m(c), (c, v['i'].astype(jnp.int32))), x,
                      {'i': jnp.ones((n, 3))}, reverse=reverse)
    elif kind == 'scan_none':
      x, ys = hk.scan(lambda c, _: (m(c), c), x, None, length=n, reverse=reverse)
    elif kind == 'fori':
      x = hk.fori_loop(3, 3 + n, lambda i, c: m(c), x)
    else:
      if hk.running_init():
        m(x)
      else:
        x = hk.while_loop(lambda c: c[0] < n, lambda c: (c[0] + 1, m(c[1])), (0, x))[1]
    return x, ys, hk.next_rng_key()
  t = hk.transform_with_state(f)
  key = jax.random.PRNGKey(mon.randint(0, 99))
  holder = {}
  if where == 'init':
    def g(n):
      out = f(n)
      holder['out'] = out
      return out
    p, s = hk.transform_with_state(g).init(key, 0)
    x, ys, _ = holder['out']
    mon.close(x, 5., 'a zero-length scan must return its initial carry (init)')
  else:
    p, s = t.init(key, 1)
  mon.eq(sorted(two_level(p)), [('m', 'w')], f'{kind}: parameters created')
  mon.eq(sorted(two_level(s)), [('m', 'c')], f'{kind}: state created')
  for n in (0, 2):
    (x, ys, k), s2 = t.apply(p, s, key, n)
    ex, ec = 5., 1.
    for _ in range(n):
      ex, ec = ex * 2 + ec, ec + 1
    mon.close(x, ex, f'{kind}: carry after {n} steps')
    mon.close(s2['m']['c'], ec, f'{kind}: state after {n} steps')
    keys = hk.transform(lambda: [hk.next_rng_key() for _ in range(n + 1)]).apply({}, key)
    mon.same(k, keys[n], f'{kind}: keys consumed by {n} steps')
  for o, n in ((holder.get('out'), 0), (t.apply(p, s, key, 0)[0], 0)):
    if o is None or o[1] is None:
      continue
    if kind == 'scan':
      a, b = o[1]
      mon.eq((a.shape, a.dtype, b.shape, b.dtype), ((0,), np.float32, (0, 3), np.int32),
             'zero-length scan output shapes')
    else:
      mon.eq((o[1].shape, o[1].dtype), ((0,), np.float32), 'zero-length scan output shapes')
  mon.ev('zero_length')
  mon.nontrivial('zero', kind, reverse, where)


def branches(mon):
  """Exactly the selected branch's effects are visible, for every selector value."""
  nb = mon.randint(2, 4)
  kind = mon.pick('cond_new', 'cond_old', 'cond_old', 'cond_kw', 'switch', 'switch_scalar')
  # the two operands of an old style cond need not look alike
  forms = [mon.pick('value', 'value', 'none', 'empty', 'dict', 'pair')
           for _ in range(2)] if kind == 'cond_old' else ['value'] * 2
  wrap = {'value': lambda x: x, 'none': lambda x: None, 'empty': lambda x: (),
          'dict': lambda x: {'v': x}, 'pair': lambda x: (jnp.zeros(2), x)}
  def unwrap(form, op):
    if form in ('none', 'empty'):
      mon.eq(op, None if form == 'none' else (), f'{kind}: operand passed to the branch')
      return jnp.float32(7)
    return {'value': lambda: op, 'dict': lambda: op['v'], 'pair': lambda: op[1]}[form]()
  if kind.startswith('cond'):
    nb = 2
  extra = [mon.randint(0, 2) for _ in range(nb)]
  reserve = mon.randint(0, 3)
  class B(hk.Module):
    def __init__(self, i, name=None):
      super().__init__(name=name)
      self.i = i
    def __call__(self, x):
      n = hk.get_state('n', [], init=jnp.zeros)
      hk.set_state('n', n + self.i + 1)
      ks = [hk.next_rng_key() for _ in range(extra[self.i])]
      w = hk.get_parameter('w', [], init=hk.initializers.Constant(self.i + 1.))
      k = ks[-1] if ks else jnp.zeros(2, jnp.uint32)
      return x * w, k
  def f(sel, x):
    mods = [B(i, name=f'b{i}') for i in range(nb)]
    if hk.running_init():
      for m in mods:
        m(x)
      return
    if reserve:
      hk.reserve_rng_keys(reserve)
    fs = [lambda x, m=m: m(x) for m in mods]
    if kind == 'cond_new':
      out = hk.cond(sel == 0, fs[0], fs[1], x)
    elif kind == 'cond_old':
      out = hk.cond(sel == 0, wrap[forms[0]](x), lambda op: fs[0](unwrap(forms[0], op)),
                    wrap[forms[1]](x + 10), lambda op: fs[1](unwrap(forms[1], op)))
    elif kind == 'cond_kw':
      out = hk.cond(sel == 0, true_fun=fs[0], false_fun=fs[1], operand=x)
    else:
      out = hk.switch(sel, fs, x)
    tail = [hk.next_rng_key() for _ in range(3)]
    return out, tail
  t = hk.transform_with_state(f)
  key = jax.random.PRNGKey(mon.randint(0, 99))
  p, s = t.init(key, jnp.int32(0), jnp.float32(3))
  base = {k: float(v) for k, v in two_level(s).items()}
  for sel in range(-1, nb + 1):
    if kind.startswith('cond') and sel not in (0, 1):
      continue
    ((y, k), tail), s2 = t.apply(p, s, key, jnp.int32(sel), jnp.float32(3))
    hit = min(max(sel, 0), nb - 1)  # lax.switch clamps
    xin = 13. if (kind == 'cond_old' and hit == 1) else 3.
    if kind == 'cond_old' and forms[hit] in ('none', 'empty'):
      xin = 7.
    mon.close(y, xin * (hit + 1), f'{kind}: result of branch {hit}')
    for i in range(nb):
      want = base[(f'b{i}', 'n')] + (i + 1 if i == hit else 0)
      mon.close(s2[f'b{i}']['n'], want, f'{kind}: state of branch {i} when {hit} is taken')
    ks = ([k] if extra[hit] else []) + list(tail)
    u = {tuple(int(q) for q in np.asarray(z)) for z in ks}
    mon.eq(len(u), len(ks), f'{kind}: keys drawn in the branch and afterwards are distinct')
    if not reserve:
      seq = hk.transform(lambda: [hk.next_rng_key() for _ in range(extra[hit] + 3)]).apply({}, key)
      for a, b in zip(tail, seq[extra[hit]:]):
        mon.same(a, b, f'{kind}: keys after the construct continue the stream')
    mon.ev('branches')
  mon.nontrivial('branch', kind, nb, extra, reserve, *forms)


def misuse(mon):
  """while_loop misuse and use outside a transform is an error."""
  f = lambda x: x
  x = jnp.float32(1)
  for name, call in dict(
      cond=lambda: hk.cond(True, f, f, x), switch=lambda: hk.switch(0, [f, f], x),
      scan=lambda: hk.scan(lambda c, v: (c, v), x, jnp.ones(2)),
      fori=lambda: hk.fori_loop(0, 2, lambda i, v: v, x)).items():
    mon.raises(ValueError, call, f'hk.{name} outside a transform')
    mon.ev('misuse_rejected')
  t = hk.transform(lambda: hk.while_loop(lambda v: v < 3, lambda v: v + 1, x))
  mon.raises(ValueError, lambda: t.init(None), 'hk.while_loop during init')
  mon.close(t.apply({}, None), 3., 'hk.while_loop at apply')
  how = mon.pick('set', 'set_twice', 'key', 'maybe', 'keys', 'key_reserved', 'set_deep',
                 'set_same', 'with_params')
  pre = mon.randint(0, 3)
  def g():
    hk.get_state('c', [], init=jnp.zeros)
    hk.get_parameter('w', [], init=jnp.ones)
    if hk.running_init():
      return
    if how == 'key_reserved' or mon_res:
      hk.reserve_rng_keys(mon_res or 2)
    for _ in range(pre):
      hk.next_rng_key()
    def cond(v):
      if how == 'set':
        hk.set_state('c', jnp.float32(7))
      elif how == 'set_twice':
        hk.set_state('c', jnp.float32(7))
        hk.set_state('c', jnp.float32(8))
      elif how == 'set_same':
        hk.set_state('c', hk.get_state('c') + 0)
      elif how == 'set_deep':
        class Q(hk.Module):
          def __call__(self):
            hk.set_state('deep', jnp.float32(1))
        Q()()
      elif how in ('key', 'key_reserved'):
        hk.next_rng_key()
      elif how == 'maybe':
        hk.maybe_next_rng_key()
      elif how == 'keys':
        hk.next_rng_keys(2)
      elif how == 'with_params':
        return v < hk.get_parameter('w', [], init=jnp.ones) * 3 + hk.get_state('c')
      return v < 3
    return hk.while_loop(cond, lambda v: v + 1, x)
  mon_res = mon.randint(0, 3)
  t = hk.transform_with_state(g)
  p, s = t.init(jax.random.PRNGKey(0))
  call = lambda: t.apply(p, s, jax.random.PRNGKey(1))
  if how == 'with_params':
    out, s2 = call()
    mon.close(out, 3., 'while_loop condition may read parameters and state')
    mon.tree_same(s2, s, 'reading in the condition changes nothing')
  else:
    mon.raises(ValueError, call, f'while_loop condition that changes state/rng ({how})')
  # The library still works afterwards.
  mon.close(hk.transform(lambda: hk.while_loop(lambda v: v < 5, lambda v: v + 1, x)).apply({}, None),
            5., 'while_loop after a rejected one')
  mon.ev('misuse_rejected')
  # New parameters/state inside branches at apply are rejected, not invented.
  kind = mon.pick('cond', 'scan', 'fori', 'while')
  def h():
    if hk.running_init():
      return
    new = lambda v: v + hk.get_parameter('late', [], init=jnp.ones)
    if kind == 'cond':
      return hk.cond(True, new, lambda v: v, x)
    if kind == 'scan':
      return hk.scan(lambda c, _: (new(c), c), x, jnp.ones(2))
    if kind == 'fori':
      return hk.fori_loop(0, 2, lambda i, v: new(v), x)
    return hk.while_loop(lambda v: v < 3, new, x)
  t = hk.transform(h)
  p = t.init(None)
  mon.raises(ValueError, lambda: t.apply(p, None), f'parameter first used inside hk.{kind} at apply')
  mon.ev('misuse_rejected')
  mon.nontrivial('misuse', how, pre, mon_res, kind)


def pytrees(mon):
  """Nested carries/operands/outputs keep structure, dtype and values."""
  n = mon.randint(1, 4)
  rev = mon.chance(0.5)
  unroll = mon.randint(1, 3)
  carry = {'a': mon.normal((2,)), 'i': np.int32(3), 't': (np.float32(1), [np.zeros((1, 2), np.int32)])}
  xs = (np.arange(n, dtype=np.int32), {'q': mon.normal((n, 2, 3))})
  def step(c, x):
    w = hk.get_parameter('w', [], init=hk.initializers.Constant(2.))
    k = hk.get_state('k', [], jnp.int32, init=jnp.zeros)
    hk.set_state('k', k + 1)
    c = {'a': c['a'] * 0.5 + jnp.sum(x[1]['q'], -1) + w, 'i': c['i'] * 2 + x[0],
         't': (c['t'][0] + 1, [c['t'][1][0] + x[0]])}
    return c, (c['i'], {'s': x[1]['q'] * 2, 'k': k})
  def f(mode):
    if mode == 'py':
      c, ys = jax.tree_map(jnp.asarray, carry), []
      order = list(range(n))[::-1] if rev else range(n)
      for j in order:
        c, y = step(c, jax.tree_map(lambda v: v[j], xs))
        ys.append(y)
      if rev:
        ys = ys[::-1]
      return c, jax.tree_map(lambda *v: jnp.stack(v), *ys)
    return hk.scan(step, jax.tree_map(jnp.asarray, carry), xs, reverse=rev, unroll=unroll)
  t = hk.transform_with_state(f)
  p1, s1 = t.init(None, 'py')
  p2, s2 = t.init(None, 'hk')
  mon.tree_same(p2, p1, 'scan params')
  mon.tree_same(s2, s1, 'scan state after init')
  (o1, e1), (o2, e2) = t.apply(p1, s1, None, 'py'), t.apply(p1, s1, None, 'hk')
  mon.tree_same(e2, e1, 'scan state after apply')
  mon.eq(str(jax.tree_util.tree_structure(o2)), str(jax.tree_util.tree_structure(o1)),
         'scan result structure')
  for a, b in zip(jax.tree_util.tree_leaves(o2), jax.tree_util.tree_leaves(o1)):
    mon.check(a.dtype == b.dtype, 'scan dtype', got=a.dtype, want=b.dtype)
    mon.close(a, b, 'scan value', rtol=1e-5, atol=1e-5)
  # The same during init: results observed there equal those of the python loop.
  box = {}
  for mode in ('py', 'hk'):
    def g(mode=mode):
      box[mode] = f(mode)
    hk.transform_with_state(g).init(None)
  for a, b in zip(jax.tree_util.tree_leaves(box['hk']), jax.tree_util.tree_leaves(box['py'])):
    mon.check(a.dtype == b.dtype and a.shape == b.shape, 'scan dtype/shape during init')
    mon.close(a, b, 'scan value during init', rtol=1e-5, atol=1e-5, reverse=rev)
  mon.nontrivial('tree', n, rev, unroll)


def traced(mon):
  """Trip counts, selectors and predicates may be traced: jit of init and apply agree with the
  concrete runs, which agree with Python's control flow."""
  kind = mon.pick('fori', 'fori', 'fori_lo', 'switch', 'cond', 'while', 'nested')
  size = mon.randint(1, 3)

  class M(hk.Module):
    def __call__(self, x, i=0):
      w = hk.get_parameter('w', [], init=hk.initializers.Constant(2.))
      c = hk.get_state('c', [], init=jnp.zeros)
      hk.set_state('c', c + 1)
      k = hk.next_rng_key()
      return jnp.mod(x * w + c + i, 97.), k[0].astype(jnp.uint32)

  def run(lo, n, sel, x, wrapped):
    m, m2 = M(name='a'), M(name='b')
    init = hk.running_init()
    body = lambda i, v: (lambda y, k: (y, v[1] ^ k))(*m(v[0], i))
    v = (x, jnp.uint32(0))
    if kind in ('fori', 'fori_lo'):
      if wrapped:
        v = hk.fori_loop(lo if kind == 'fori_lo' else 0, n, body, v)
      else:
        for i in range(lo if kind == 'fori_lo' else 0, n):
          v = body(i, v)
    elif kind == 'nested':
      inner = lambda i, v: (hk.cond(sel > i, lambda v: body(i, v), lambda v: (v[0] + 1, v[1]), v)
                            if wrapped else body(i, v) if sel > i else (v[0] + 1, v[1]))
      if init:
        body(0, v)
      if wrapped:
        v = hk.fori_loop(0, n, inner, v)
      else:
        for i in range(n):
          v = inner(i, v)
    elif kind == 'while':
      step = lambda c: (c[0] + 1, body(c[0], c[1]))
      if init:
        v = body(0, v)
      elif wrapped:
        v = hk.while_loop(lambda c: c[0] < n, step, (jnp.int32(0), v))[1]
      else:
        c = (jnp.int32(0), v)
        while c[0] < n:
          c = step(c)
        v = c[1]
    else:
      f = [lambda v: body(3, v), lambda v: (lambda y, k: (y, v[1] ^ k))(*m2(v[0], 1)),
           lambda v: (v[0] + 1, v[1])]
      if init:
        f[0](v), f[1](v)
      if kind == 'cond':
        v = (hk.cond(sel > 0, f[0], f[1], v) if wrapped else f[0](v) if sel > 0 else f[1](v))
      else:
        v = hk.switch(sel, f, v) if wrapped else f[min(max(int(sel), 0), 2)](v)
    return v + (hk.next_rng_key(),)

  def f(*a):
    return run(*a, wrapped=True)
  def g(*a):
    return run(*a, wrapped=False)
  t, u = hk.transform_with_state(f), hk.transform_with_state(g)
  key = jax.random.PRNGKey(mon.randint(0, 99))
  x = jnp.arange(1., size + 1)
  n = mon.randint(1, 3)
  args = (0, n, mon.randint(0, 2), x)
  ji, ja = jax.jit(t.init), jax.jit(t.apply)
  p, s = t.init(key, *args)
  pu, su = u.init(key, *args)
  pj, sj = ji(key, *args)
  mon.tree_same(p, pu, f'{kind}: parameters of init')
  mon.tree_same(s, su, f'{kind}: state of init')
  mon.tree_same(pj, p, f'{kind}: parameters of the jitted init')
  mon.tree_same(sj, s, f'{kind}: state of the jitted init')
  if kind in ('fori', 'fori_lo'):
    out, outj = [jax.jit(g)(key, *args) if j else g(key, *args) for j, g in [
        (0, init_out(g)), (1, init_out(f))]]
    mon.same(outj[0], out[0], f'{kind}: value of the loop during a jitted init')
  for _ in range(4):
    lo = mon.randint(-1, 1)
    a = (lo, lo + mon.randint(-1, 4), mon.randint(-1, 3), x + mon.randint(0, 3))
    k2 = jax.random.PRNGKey(mon.randint(0, 99))
    want, ws = u.apply(p, s, k2, *a)
    for name, g in (('apply', t.apply), ('jitted apply', ja)):
      got, gs = g(p, s, k2, *a)
      mon.same(got[0], want[0], f'{kind}: value ({name})', args=a)
      mon.same(got[1], want[1], f'{kind}: keys inside ({name})', args=a)
      mon.same(got[2], want[2], f'{kind}: key afterwards ({name})', args=a)
      mon.tree_same(gs, ws, f'{kind}: state ({name})', args=a)
    mon.ev('traced_runs')
  mon.nontrivial('traced', kind, size)


def init_out(t):
  """The output which the transformed function computes during init."""
  def f(key, *args):
    box = []
    def g(*args):
      box.append(t(*args))
    hk.transform_with_state(g).init(key, *args)
    return box[0]
  return f


SCENARIOS = {
    'traced': (traced, 24, 400),
    'ctrl': (ctrl, 110, 3000),
    'mixed': (mixed, 50, 1500),
    'jitted': (jitted, 16, 300),
    'zero': (zero, 40, 300),
    'branches': (branches, 32, 400),
    'misuse': (misuse, 48, 300),
    'pytrees': (pytrees, 24, 300),
}
