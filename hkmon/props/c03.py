"""C03: module naming and parameter sharing."""
import contextlib
import dataclasses

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, progs
from hkmon.core import two_level

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('Random programs with name collisions, explicit numbering, constructor/method '
        'nesting, name scopes, transparent methods, properties, inheritance and modules '
        'passed between modules; every constructed module name and every parameter key is '
        'compared online with an independent naming model. Non-trivial: >=3 modules '
        'constructed; distinct by program text.')
REQUIRED = {'init_runs': 100, 'apply_runs': 100, 'names_checked': 1000, 'dup_errors': 10,
            'bad_names': 40, 'numbered': 45, 'collisions': 8, 'to_module': 20, 'dataclass': 10, 'sharing': 20}
ASSUMPTIONS = []


def _run(mon, program, x=lang.X0, tag='prog'):
  t, h, params, state = progs.check_init(mon, program, mon.randint(0, 50), x)
  ev = h['b'].events
  names = [e[1] for e in ev if e[0] == 'new']
  mon.ev('names_checked', len(names))
  mon.ev('dup_errors', sum(e[0] == 'dup' for e in ev))
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  progs.check_apply(mon, program, t, h, progs.fresh_values(mon, fp),
                    progs.fresh_values(mon, fs), mon.randint(0, 99), x)
  names2 = [e[1] for e in h['b'].events if e[0] == 'new']
  mon.eq(names2, names, 'module names differ between init and apply')
  if len(names) >= 3:
    mon.nontrivial(tag, program)
  mon.sample(dict(names=names[:12], params=[list(k) for k in fp][:12]))


def naming(mon):
  program, _ = lang.gen_program(mon, param=3, sget=0.4, sset=0.2, sinc=0.3, key=0.2,
                                new=6, newcall=4, call=4, scope=1.5, trydup=0.8, prop=0.8,
                                supercall=0.8, rinit=0)
  _run(mon, program)


def deep(mon):
  """Long runs of same-named modules inside methods and scopes."""
  program, _ = lang.gen_program(mon, lo=30, hi=300, param=2, sget=0, sset=0, sinc=0, key=0,
                                new=5, newcall=7, call=5, scope=3, loop=3, trydup=1,
                                wrng=0, rinit=0)
  _run(mon, program, tag='deep')


def profiled(mon):
  """Profiler name scopes never change names, params, state or values."""
  program, _ = lang.gen_program(mon, hi=80)
  prev = hk.experimental.profiler_name_scopes(True)
  try:
    _run(mon, program, tag='prof')
  finally:
    cur = hk.experimental.profiler_name_scopes(prev)
  mon.check(cur is True or cur == True, 'profiler_name_scopes returns the previous setting')
  mon.ev('profiled')


BAD = ['', '1foo', 'foo bar', 'foo-bar', 'foo/bar', '/foo', 'foo.', '~', 'foo~', 'é', 'a b', '9',
       'foo\n', 'a_1\n', 'foo ', '\nfoo', 'foo\x00', 'foo\t']
GOOD = ['a', '_', '_a9', 'A', 'foo_bar', 'x1', '__dunder', 'a_0', 'linear_10', 'camelCase']


def bad_names(mon):
  """Names must be identifiers; good names are used verbatim."""
  class M(hk.Module):
    def __call__(self):
      return hk.get_parameter('w', [], init=jnp.ones)
  bad, good = mon.pick(BAD), mon.pick(GOOD)
  where = mon.pick('top', 'method', 'init', 'scope')
  got = []

  class Outer(hk.Module):
    def __init__(self, name, inner, at):
      super().__init__(name=name)
      self.at, self.inner = at, inner
      if at == 'init':
        self.m = M(name=inner)
    def __call__(self):
      m = self.m if self.at == 'init' else M(name=self.inner)
      got.append(m.module_name)
      return m()

  def f(inner):
    if where == 'top':
      m = M(name=inner)
      got.append(m.module_name)
      m()
    elif where == 'scope':
      with hk.experimental.name_scope('sc'):
        m = M(name=inner)
        got.append(m.module_name)
        m()
    else:
      Outer('outer', inner, where)()

  mon.raises(ValueError, lambda: hk.transform(f).init(None, bad), 'invalid module name accepted',
             name=bad, where=where)
  del got[:]
  p = hk.transform(f).init(None, good)
  want = {'top': good, 'scope': 'sc/' + good, 'method': 'outer/' + good,
          'init': 'outer/~/' + good}[where]
  mon.eq(got, [want], 'explicit name')
  mon.eq(sorted(two_level(p)), [(want, 'w')], 'parameter key for an explicit name')
  mon.ev('bad_names')
  mon.nontrivial('bad', bad, good, where)


def numbered(mon):
  """Explicitly numbered names are kept; other names continue after the highest number used."""
  class M(hk.Module):
    def __call__(self):
      return hk.get_parameter('w', [], init=jnp.ones)
  base = mon.pick('m', 'a', 'a_1', 'x9', 'a_b')
  seq = [mon.pick(None, None, mon.randint(0, 4), mon.randint(0, 30)) for _ in range(mon.randint(1, 7))]
  scope = mon.pick('', 'sc', 'sc_2', 'sc/in')
  # the reference: one counter and one set of names per scope
  nxt, used, want = 0, set(), []
  if base == 'a_1':
    nxt = None      # "a_1" itself is a numbered name
  stem, unnumbered_ok = base, base != 'a_1'
  for n in seq:
    if n is None:
      if not unnumbered_ok:
        name = 'a_1'
        if name in used:
          want.append(ValueError)
          break
      else:
        name = stem if nxt == 0 else f'{stem}_{nxt}'
        nxt += 1
        if name in used:
          want.append(ValueError)
          break
    else:
      name = f'{stem}_{n}'
      if unnumbered_ok:
        nxt = max(nxt, n + 1)
      if name in used:
        want.append(ValueError)
        break
    used.add(name)
    want.append(name)
  got = []
  def f():
    for n in seq:
      m = M(name=base if n is None else f'{base}_{n}')
      got.append(m.module_name)
      m()
  def g():
    if scope:
      with hk.experimental.name_scope(scope):
        f()
    else:
      f()
  t = hk.transform(g)
  pre = scope + '/' if scope else ''
  full = [pre + n for n in want if n is not ValueError]
  for _ in range(2):
    del got[:]
    if want[-1] is ValueError:
      mon.raises(ValueError, lambda: t.init(None), 'a second module of the same explicit name', seq=seq)
      mon.ev('collisions')
    else:
      p = t.init(None)
      mon.eq(sorted(two_level(p)), sorted((n, 'w') for n in full), 'parameters', base=base, seq=seq)
    mon.eq(got, full, 'names of numbered modules', base=base, seq=seq)
  mon.ev('numbered')
  mon.nontrivial('numbered', base, tuple(seq), scope)


def zeros(mon):
  """A number written with leading zeros is part of the given name."""
  name = mon.pick('a', 'block', 'b_2') + '_' + mon.pick('0', '00') + str(mon.randint(0, 12))
  names = []
  hk.transform(lambda: names.append(hk.Module(name=name).module_name)).init(None)
  mon.eq(names, [name], 'leading zeros of a module number are dropped from the given name')
  mon.ev('leading_zeros')
  mon.nontrivial('zeros', name)


def sharing(mon):
  """Same instance (or same name in same scope) = same entry; else distinct entries."""
  n_mod = mon.randint(1, 4)
  calls = [mon.randint(0, n_mod - 1) for _ in range(mon.randint(2, 8))]
  names = [mon.pick(None, 'lin', 'lin', 'other') for _ in range(n_mod)]
  size = 2
  nest = mon.pick('top', 'method', 'ctor')

  def build():
    return [hk.Linear(size, name=n) if n else hk.Linear(size) for n in names]

  class Net(hk.Module):
    def __init__(self):
      super().__init__(name='net')
      if nest == 'ctor':
        self.mods = build()
    def __call__(self, x):
      mods = self.mods if nest == 'ctor' else build()
      outs = []
      for c in calls:
        outs.append(mods[c](x))
      return outs

  def f(x):
    if nest == 'top':
      mods = build()
      return [mods[c](x) for c in calls]
    return Net()(x)

  t = hk.transform(f)
  x = mon.normal((1, size))
  p = t.init(jax.random.PRNGKey(0), x)
  # Expected names, by hand: per-stem counters in creation order.
  cnt, expect = {}, []
  prefix = {'top': '', 'method': 'net/', 'ctor': 'net/~/'}[nest]
  for n in names:
    stem = n or 'linear'
    k = cnt.get(stem, 0)
    cnt[stem] = k + 1
    expect.append(prefix + stem + (f'_{k}' if k else ''))
  want = sorted({(expect[c], w) for c in calls for w in ('w', 'b')})
  mon.eq(sorted(two_level(p)), want, 'entries: exactly those of called modules')
  # Inject distinct weights: outputs reveal which entry each call used.
  inj = {m: {'w': np.full((size, size), i + 1., np.float32), 'b': np.full(size, 100. * i, np.float32)}
         for i, m in enumerate(sorted({w[0] for w in want}))}
  outs = t.apply(inj, None, x)
  for c, o in zip(calls, outs):
    e = inj[expect[c]]
    mon.close(o, x @ e['w'] + e['b'], 'call used the parameters of another module')
  mon.ev('sharing')
  mon.nontrivial('share', names, calls, nest)


def to_module_(mon):
  """hk.to_module: named after the function (or explicitly), numbered like any module."""
  def bias_fn(x):
    return x + hk.get_parameter('b', [], init=jnp.zeros)
  def other(x, *, k=1):
    return x * hk.get_parameter('s', [], init=jnp.ones) * k
  fns = [mon.pick(bias_fn, other) for _ in range(mon.randint(1, 5))]
  names = [mon.pick(None, None, 'zz', 'bias_fn', 'zz_7') for _ in fns]
  classes = {f.__name__: hk.to_module(f) for f in (bias_fn, other)}
  got = []
  def f(x):
    used = set()
    for fn, nm in zip(fns, names):
      try:
        m = classes[fn.__name__](name=nm) if nm or mon_flag else classes[fn.__name__]()
      except ValueError:
        got.append(None)
        continue
      got.append(m.module_name)
      x = m(x)
    return x
  mon_flag = mon.chance(0.5)
  t = hk.transform(f)
  p = t.init(None, 1.)
  cnt, used, expect = {}, set(), []
  for fn, nm in zip(fns, names):
    nm = nm or fn.__name__
    stem, _, num = nm.rpartition('_')
    if stem and num.isdigit():
      cnt[stem] = max(cnt.get(stem, 0), int(num) + 1)
      full = nm
    else:
      k = cnt.get(nm, 0)
      cnt[nm] = k + 1
      full = nm + (f'_{k}' if k else '')
    if full in used:
      expect.append(None)
      continue
    used.add(full)
    expect.append(full)
  mon.eq(got, expect, 'names of to_module instances')
  mon.raises((TypeError, ValueError), lambda: hk.transform(
      lambda x: classes['bias_fn'](x)).init(None, 1.), 'to_module called like a function')
  mon.ev('to_module')
  mon.nontrivial('tm', [f.__name__ for f in fns], names)


def dataclass_(mon):
  """@dataclass modules are named like ordinary ones."""
  @dataclasses.dataclass
  class MyData(hk.Module):
    size: int
    name: str = None
    def __call__(self, x):
      return hk.Linear(self.size)(x)
  names = [mon.pick(None, 'foo', 'foo_2') for _ in range(mon.randint(1, 4))]
  got = []
  def f(x):
    for n in names:
      try:
        m = MyData(2, name=n) if n else MyData(2)
      except ValueError:
        got.append('dup')
        continue
      got.append(m.module_name)
      mon.check(m.name == m.module_name.split('/')[-1], 'module.name')
      x = m(x)
    return x
  p = hk.transform(f).init(jax.random.PRNGKey(0), np.ones((1, 2), np.float32))
  cnt, used, expect = {}, set(), []
  for n in names:
    n = n or 'my_data'
    if n == 'foo_2':
      full = n
      cnt['foo'] = max(cnt.get('foo', 0), 3)
    else:
      k = cnt.get(n, 0)
      cnt[n] = k + 1
      full = n + (f'_{k}' if k else '')
    if full in used:
      expect.append('dup')
      continue
    used.add(full)
    expect.append(full)
  mon.eq(got, expect, 'names of dataclass modules')
  mon.eq(sorted({k[0] for k in two_level(p)}),
         sorted(e + '/linear' for e in expect if e != 'dup'), 'submodules of dataclass modules')
  mon.ev('dataclass')
  mon.nontrivial('dc', names)


def library_names(mon):
  """Every built-in module class gets its documented snake_case default name."""
  table = [
      (lambda: hk.Linear(1), 'linear'), (lambda: hk.Conv1D(1, 1), 'conv1_d'),
      (lambda: hk.Conv2D(1, 1), 'conv2_d'), (lambda: hk.Conv3D(1, 1), 'conv3_d'),
      (lambda: hk.Conv1DTranspose(1, 1), 'conv1_d_transpose'),
      (lambda: hk.Conv2DTranspose(1, 1), 'conv2_d_transpose'),
      (lambda: hk.Conv3DTranspose(1, 1), 'conv3_d_transpose'),
      (lambda: hk.BatchNorm(True, True, 0.9), 'batch_norm'),
      (lambda: hk.LayerNorm(-1, True, True), 'layer_norm'),
      (lambda: hk.InstanceNorm(True, True), 'instance_norm'),
      (lambda: hk.GroupNorm(1), 'group_norm'),
      (lambda: hk.LSTM(1), 'lstm'), (lambda: hk.GRU(1), 'gru'),
      (lambda: hk.VanillaRNN(1), 'vanilla_rnn'), (lambda: hk.Flatten(), 'flatten'),
      (lambda: hk.Reshape((1,)), 'reshape'), (lambda: hk.Bias(), 'bias'),
      (lambda: hk.Embed(2, 2), 'embed'), (lambda: hk.nets.MLP([1]), 'mlp'),
      (lambda: hk.Sequential([]), 'sequential'),
      (lambda: hk.ExponentialMovingAverage(0.9), 'exponential_moving_average'),
      (lambda: hk.SpectralNorm(), 'spectral_norm'),
      (lambda: hk.MultiHeadAttention(1, 1, w_init_scale=1.), 'multi_head_attention'),
      (lambda: hk.DepthwiseConv2D(1, 1), 'depthwise_conv2_d'),
      (lambda: hk.IdentityCore(), 'identity_core'),
      (lambda: hk.DeepRNN([]), 'deep_rnn'),
      (lambda: hk.nets.VectorQuantizer(1, 1, 1.), 'vector_quantizer'),
      (lambda: hk.AvgPool(1, 1, 'SAME'), 'avg_pool'), (lambda: hk.MaxPool(1, 1, 'SAME'), 'max_pool'),
  ]
  picks = [mon.randint(0, len(table) - 1) for _ in range(mon.randint(2, 6))]
  got, want, cnt = [], [], {}
  def f():
    for i in picks:
      got.append(table[i][0]().module_name)
  hk.transform(f).init(jax.random.PRNGKey(0))
  for i in picks:
    n = table[i][1]
    k = cnt.get(n, 0)
    cnt[n] = k + 1
    want.append(n + (f'_{k}' if k else ''))
  mon.eq(got, want, 'default names of library modules')
  mon.ev('names_checked', len(picks))
  mon.nontrivial('lib', picks)


def outside(mon):
  """Modules exist only inside a transform; the super constructor is mandatory."""
  class NoSuper(hk.Module):
    def __init__(self):
      pass
  class Late(hk.Module):
    def __init__(self):
      hk.get_parameter('w', [], init=jnp.ones)
      super().__init__()
  class SubLate(hk.Module):
    def __init__(self):
      self.sub = hk.Linear(1)
      super().__init__()
  mon.raises(ValueError, lambda: hk.Linear(2), 'module constructed outside a transform')
  mon.raises(ValueError, lambda: hk.transform(lambda: NoSuper()).init(None), 'no super ctor')
  mon.raises(ValueError, lambda: hk.transform(lambda: Late()).init(None), 'parameter before super ctor')
  mon.raises(ValueError, lambda: hk.transform(lambda: SubLate()).init(None),
             'submodule before super ctor')
  keep = []
  def f(x):
    m = hk.Linear(2)
    keep.append(m)
    return m(x)
  hk.transform(f).init(jax.random.PRNGKey(0), np.ones((1, 1), np.float32))
  mon.raises(ValueError, lambda: keep[0](np.ones((1, 1), np.float32)),
             'module called outside a transform')
  def scopes(n):
    s = hk.experimental.name_scope(n)
    with s:
      pass
    mon.raises(ValueError, s.__enter__, 'name scope entered twice')
    s2 = hk.experimental.name_scope(n)
    with s2:
      mon.raises(ValueError, s2.__enter__, 'name scope entered re-entrantly')
  hk.transform(lambda: scopes(mon.pick('a', 'b/c'))).init(None)
  mon.raises(ValueError, lambda: hk.transform(
      lambda: hk.experimental.name_scope(mon.pick('', '/a'))).init(None), 'bad name scope')
  mon.raises(ValueError, lambda: hk.experimental.name_scope('a'), 'name scope outside transform')
  mon.nontrivial('outside', mon.index)
  mon.ev('outside')


SCENARIOS = {
    'naming': (naming, 700, 20000),
    'deep': (deep, 80, 3000),
    'profiled': (profiled, 60, 1000),
    'bad_names': (bad_names, 80, 600),
    'numbered': (numbered, 80, 1500),
    'zeros': (zeros, 4, 20),
    'sharing': (sharing, 60, 1000),
    'to_module': (to_module_, 40, 600),
    'dataclass': (dataclass_, 30, 300),
    'library_names': (library_names, 30, 300),
    'outside': (outside, 8, 30),
}
