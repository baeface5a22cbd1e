"""Random Haiku programs, executed by the real library and by a reference model.

A program is a small AST (classes + a main body). `Walker` interprets it against a
*backend*: `HkBackend` issues real `hk.*` calls (only the public API), while
`ModelBackend` is an independent model of the documented naming / parameter /
state semantics built on plain dicts. All arithmetic is on small integers held
in float32, so both sides must agree exactly.

The model does not predict random keys: it is fed the keys the real run was
handed (recorded at the client boundary), key quality is judged separately.
"""
import contextlib
import re

import numpy as np

from hkmon.core import Injected

MOD = 1009.0

# (class name, documented default module name)
CLASS_NAMES = [
    ('Foo', 'foo'), ('FooBar', 'foo_bar'), ('Bar', 'bar'), ('MLP', 'mlp'),
    ('MyMLPNet', 'my_mlp_net'), ('Conv2D', 'conv2_d'), ('X', 'x'),
    ('LayerNorm1', 'layer_norm1'),
]
METHODS = ['__call__', 'encode', 'step_2', 'decode']
SCOPES = ['foo', 'bar', 'sc', 'a/b', 'foo_3']
NAMES = [None, None, None, 'foo', 'foo', 'bar', 'foo_1', 'foo_2', 'bar_0', 'foo_bar',
         'x', 'lin_3', '_p', 'foo_10', 'Foo', 'x_y_z']
PNAMES = ['w', 'b', 'w_1', 'scale']
SNAMES = ['s', 'w', 'count']
SHAPES = [(), (1,), (2,), (2, 3), (3, 1, 2)]
DTYPES = ['float32', 'float32', 'float32', 'int32', 'float16', 'bfloat16']


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

class Gen:
  """Generates programs. `w` maps statement kinds to weights."""

  DEFAULT = dict(param=4, sget=1, sset=1, sinc=1, key=1, new=3, call=4, newcall=2,
                 scope=1, wrng=0.5, loop=0.7, rinit=0.3, prop=0.4, trydup=0.3,
                 supercall=0.5, pdict=0, ctx=0)

  def __init__(self, mon, **weights):
    self.mon = mon
    self.w = dict(self.DEFAULT, **weights)
    self.nvars = 0

  def program(self):
    m = self.mon
    ncls = m.randint(1, 4)
    classes = []
    names = list(CLASS_NAMES)
    for i in range(ncls):
      cname, snake = m.pick(names)
      base = None
      if i and m.chance(0.3):
        base = m.randint(0, i - 1)
      methods = {'__call__': None}
      for meth in METHODS[1:]:
        if m.chance(0.35):
          methods[meth] = None
      cd = dict(cls=cname, snake=snake, base=base, init=[], methods=methods,
                transparent=[], props={}, own_init=m.chance(0.8))
      classes.append(cd)
      if cd['own_init']:
        cd['init'] = self.body(classes[:i], depth=1, size=m.randint(0, 3),
                               in_class=cd, where='init')
      for meth in list(methods):
        if meth != '__call__' and m.chance(0.2):
          cd['transparent'].append(meth)
        cd['methods'][meth] = self.body(classes[:i], depth=1,
                                        size=m.randint(1, 4), in_class=cd,
                                        where=meth)
      if m.chance(0.25):
        cd['props']['prp'] = self.body(classes[:i], depth=2, size=1,
                                       in_class=None, where='prop')
    main = self.body(classes, depth=0, size=m.randint(3, 7), in_class=None,
                     where='main')
    return dict(classes=classes, main=main)

  def body(self, classes, depth, size, in_class, where):
    out = []
    vars_ = []
    if in_class is not None and where != 'init':
      vars_ += [(s[1], s[2]) for s in in_class['init'] if s[0] == 'new']
    for _ in range(size):
      s = self.stmt(classes, depth, vars_, in_class, where)
      if s is not None:
        out.append(s)
    return out

  def stmt(self, classes, depth, vars_, in_class, where):
    m = self.mon
    w = dict(self.w)
    if not classes:
      w['new'] = w['newcall'] = w['trydup'] = 0
    if not vars_:
      w['call'] = w['prop'] = w['pdict'] = 0
    if depth >= 3:
      w['scope'] = w['wrng'] = w['loop'] = w['ctx'] = 0
    if in_class is None or in_class['base'] is None or where in ('init', 'prop', 'main'):
      w['supercall'] = 0
    if where == 'init' and in_class is not None and not in_class.get('own_init'):
      return None
    kinds = [k for k in w if w[k] > 0]
    kind = m.py.choices(kinds, [w[k] for k in kinds])[0]
    if kind == 'param':
      shape = m.pick(SHAPES)
      # Same name must mean same shape/dtype within a bundle: derive from name.
      name = m.pick(PNAMES)
      return ['param', name, m.pick('const', 'const', 'const', 'rng'),
              m.randint(0, 40)]
    if kind in ('sget', 'sset', 'sinc'):
      return [kind, m.pick(SNAMES), m.randint(0, 40)]
    if kind == 'key':
      return ['key', m.pick('next', 'next', 'keys', 'maybe', 'reserve'),
              m.randint(1, 3)]
    if kind == 'new':
      v = f'v{self.nvars}'
      self.nvars += 1
      ci = m.randint(0, len(classes) - 1)
      vars_.append((v, ci))
      return ['new', v, ci, m.pick(NAMES)]
    if kind == 'newcall':
      ci = m.randint(0, len(classes) - 1)
      return ['newcall', ci, m.pick(NAMES), self.method_of(classes, ci)]
    if kind == 'trydup':
      nm = m.pick('dup_1', 'foo_1', 'foo_2')
      return ['trydup', m.randint(0, len(classes) - 1), nm]
    if kind == 'call':
      v, ci = m.pick(vars_)
      return ['call', v, self.method_of_idx(ci)]
    if kind == 'prop':
      v, _ = m.pick(vars_)
      return ['prop', v]
    if kind == 'pdict':
      v, _ = m.pick(vars_)
      return ['pdict', v, m.pick('params', 'state')]
    if kind == 'scope':
      return ['scope', m.pick(SCOPES),
              self.inner(classes, depth + 1, vars_, in_class, where)]
    if kind == 'wrng':
      return ['wrng', m.randint(0, 5),
              self.inner(classes, depth + 1, vars_, in_class, where)]
    if kind == 'ctx':
      return ['ctx', m.pick('getter', 'sgetter', 'creator', 'screator', 'icept'),
              m.randint(1, 9), self.inner(classes, depth + 1, vars_, in_class, where)]
    if kind == 'loop':
      return ['loop', m.randint(2, 3),
              self.inner(classes, depth + 2, vars_, in_class, where)]
    if kind == 'rinit':
      return ['rinit', m.randint(1, 9)]
    if kind == 'supercall':
      return ['supercall', where]
    raise AssertionError(kind)

  def inner(self, classes, depth, vars_, in_class, where):
    vs = list(vars_)
    return [s for s in (self.stmt(classes, depth, vs, in_class, where)
                        for _ in range(self.mon.randint(1, 3))) if s]

  def method_of(self, classes, ci):
    return self.mon.pick('__call__', '__call__', *sorted(classes[ci]['methods']))

  def method_of_idx(self, ci):
    del ci
    return self.mon.pick('__call__', '__call__', '__call__', 'encode', 'step_2')


def pshape(name):
  return SHAPES[(len(name) * 7 + ord(name[0])) % len(SHAPES)]


def pdtype(name, bundle_len=0):
  return DTYPES[(len(name) * 5 + ord(name[-1])) % len(DTYPES)]


def sshape(name):
  return SHAPES[(len(name) * 3 + ord(name[0])) % 3]


def const_value(k, shape, dtype):
  n = int(np.prod(shape)) if shape else 1
  return ((np.arange(n) + k) % 17).reshape(shape)


# --------------------------------------------------------------------------
# interpretation
# --------------------------------------------------------------------------

class NoVar(Exception):
  pass


class Env:
  """Variable lookup: locals, then self, then whoever constructed us."""

  def __init__(self, parent=None, self_obj=None, cls_index=None):
    self.vars = {}
    self.parent = parent
    self.self_obj = self_obj
    self.cls_index = cls_index

  def get(self, v):
    e = self
    while e is not None:
      if v in e.vars:
        return e.vars[v]
      e = e.parent
    return None


class Walker:
  """Interprets program bodies against a backend."""

  def __init__(self, program, backend, fault_at=None, on_tick=None):
    self.p = program
    self.b = backend
    self.on_tick = on_tick
    backend.walker = self
    self.ticks = 0
    self.fault_at = fault_at
    self.tick_kinds = []

  def tick(self, kind):
    i = self.ticks
    self.ticks += 1
    if self.on_tick is not None:
      self.on_tick(kind)
    if self.fault_at is None:
      self.tick_kinds.append(kind)
    elif i == self.fault_at:
      raise Injected(f'{kind}@{i}')

  def main(self, x):
    env = Env()
    return self.run(self.p['main'], x, env)

  def run(self, body, x, env):
    for s in body:
      x = self.step(s, x, env)
    return x

  def step(self, s, x, env):
    b = self.b
    kind = s[0]
    self.tick(kind)
    if kind == 'param':
      _, name, ikind, k = s
      return b.mix(x, b.param(name, ikind, k))
    if kind == 'sget':
      return b.mix(x, b.get_state(s[1], s[2]))
    if kind == 'sset':
      b.set_state(s[1], x, s[2])
      return x
    if kind == 'sinc':
      v = b.get_state(s[1], s[2])
      b.inc_state(s[1], v)
      return b.mix(x, v)
    if kind == 'key':
      return b.keys(x, s[1], s[2])
    if kind == 'new':
      h = self.new(s[2], s[3], env)
      if h is None:
        return b.add(x, 11.0)
      env.vars[s[1]] = h
      return x
    if kind == 'newcall':
      h = self.new(s[1], s[2], env)
      if h is None:
        return b.add(x, 13.0)
      return b.call(h, s[3], x)
    if kind == 'trydup':
      h1 = self.new(s[1], s[2], env)
      h2 = self.new(s[1], s[2], env)
      return b.add(x, 17.0 + (h1 is not None) + 2 * (h2 is not None))
    if kind == 'call':
      h = env.get(s[1])
      if h is None:
        return b.add(x, 1.0)
      return b.call(h, s[2], x)
    if kind == 'prop':
      h = env.get(s[1])
      if h is None:
        return b.add(x, 2.0)
      return b.prop(h, x)
    if kind == 'pdict':
      h = env.get(s[1])
      if h is not None:
        b.pdict(h, s[2])
      return x
    if kind == 'scope':
      with b.scope(s[1]):
        return self.run(s[2], x, env)
    if kind == 'wrng':
      with b.with_rng(s[1]):
        return self.run(s[2], x, env)
    if kind == 'ctx':
      with b.context(s[1], s[2]):
        return self.run(s[3], x, env)
    if kind == 'loop':
      for _ in range(s[1]):
        x = self.run(s[2], x, env)
      return x
    if kind == 'rinit':
      return b.add(x, float(s[1])) if b.running_init() else x
    if kind == 'supercall':
      return b.supercall(env, s[1], x)
    if kind == 'try':
      try:
        return self.run(s[1], x, env)
      except Injected:
        b.log('caught')
        return b.add(x, 19.0)
    if kind == 'raise':
      raise Injected('explicit')
    if kind == 'custom':  # extension point: backend handles it
      return b.custom(s, x, env)
    raise AssertionError(kind)

  def new(self, ci, name, env):
    """Constructs a module; a duplicate explicit name is a ValueError."""
    b = self.b
    try:
      h = b.new(ci, name, env)
    except ValueError as e:
      if 'unique' not in str(e):
        raise
      b.log('dup', name)
      return None
    b.log('new', b.name_of(h))
    return h


def effective(program, ci, method):
  """(class index that defines `method`, body, transparent?) or None."""
  c = ci
  while c is not None:
    cd = program['classes'][c]
    if method in cd['methods']:
      return c, cd['methods'][method], method in cd['transparent']
    c = cd['base']
  return None


def effective_prop(program, ci):
  c = ci
  while c is not None:
    cd = program['classes'][c]
    if 'prp' in cd['props']:
      return cd['props']['prp']
    c = cd['base']
  return None


class HkBackend:
  """Issues real Haiku calls."""

  def __init__(self, program, record_values=True):
    import haiku as hk
    import jax
    import jax.numpy as jnp
    self.hk, self.jax, self.jnp = hk, jax, jnp
    self.program = program
    self.events = []
    self.keys_seen = []
    self.record_values = record_values
    self.classes = {}
    self.walker = None

  def log(self, *ev):
    self.events.append(ev)

  def val(self, v):
    if not self.record_values:
      return None
    a = np.asarray(v)
    return (str(a.dtype), a.shape, a.astype(np.float64).ravel().tolist())

  # values
  def mix(self, x, v):
    return self.jnp.mod(x * 3 + v, MOD)

  def add(self, x, c):
    return self.jnp.mod(x + c, MOD)

  def wsum(self, p):
    jnp = self.jnp
    p = jnp.ravel(p).astype(jnp.float32)
    return jnp.sum(p * (jnp.arange(p.shape[0], dtype=jnp.float32) % 7 + 1))

  def note_key(self, k):
    if self.record_values:
      self.keys_seen.append(tuple(int(i) for i in np.asarray(k)))
    return k

  def keyval(self, k):
    return (k[0] % 97).astype(self.jnp.float32)

  # api
  def initializer(self, ikind, k):
    def init(shape, dtype):
      self.walker.tick('initializer')
      self.log('made', tuple(shape), str(self.jnp.dtype(dtype)))
      kk = k
      if ikind == 'rng':
        key = self.note_key(self.hk.next_rng_key())
        kk = self.keyval(key) + k
        n = int(np.prod(shape)) if shape else 1
        return ((self.jnp.arange(n) + kk) % 17).reshape(shape).astype(dtype)
      return self.jnp.asarray(const_value(kk, shape, dtype), dtype)
    return init

  def param(self, name, ikind, k):
    p = self.hk.get_parameter(name, pshape(name), pdtype(name),
                              init=self.initializer(ikind, k))
    self.log('param', name, self.val(p))
    return self.wsum(p)

  def get_state(self, name, k):
    v = self.hk.get_state(name, sshape(name), 'float32',
                          init=self.initializer('const', k))
    self.log('get_state', name, self.val(v))
    return self.wsum(v)

  def set_state(self, name, x, k):
    jnp = self.jnp
    v = jnp.broadcast_to(jnp.mod(jnp.sum(x) + k, MOD), sshape(name))
    self.hk.set_state(name, v)
    self.log('set_state', name, self.val(v))

  def inc_state(self, name, v):
    jnp = self.jnp
    v = jnp.broadcast_to(jnp.mod(v * 2 + 1, MOD), sshape(name))
    self.hk.set_state(name, v)
    self.log('set_state', name, self.val(v))

  def keys(self, x, how, n):
    if how == 'next':
      ks = [self.hk.next_rng_key()]
    elif how == 'keys':
      ks = list(self.hk.next_rng_keys(n))
    elif how == 'maybe':
      k = self.hk.maybe_next_rng_key()
      ks = [] if k is None else [k]
    else:
      self.hk.reserve_rng_keys(n)
      ks = []
    for k in ks:
      self.note_key(k)
      x = self.mix(x, self.keyval(k))
    return x

  def get_class(self, ci):
    if ci in self.classes:
      return self.classes[ci]
    hk, be, program = self.hk, self, self.program
    cd = program['classes'][ci]
    base = hk.Module if cd['base'] is None else self.get_class(cd['base'])
    d = {}
    if cd['own_init'] or cd['base'] is None:
      def __init__(self, name=None, env=None):
        if cd['base'] is None:
          hk.Module.__init__(self, name=name)
          self.env = Env(parent=env, self_obj=self, cls_index=ci)
        else:
          super(be.classes[ci], self).__init__(name=name, env=env)
        be.walker.tick('ctor')
        be.log('init', ci)
        if cd['own_init']:
          # Constructor variables become attributes of the instance.
          be.walker.run(cd['init'], be.const_x(), self.env)
      d['__init__'] = __init__
    def make(meth, body):
      def method(self, x):
        be.walker.tick('enter')
        be.log('enter', self.module_name, self.name, meth)
        env = Env(parent=self.env, self_obj=self, cls_index=ci)
        x = be.walker.run(body, x, env)
        be.walker.tick('exit')
        be.log('exit', meth)
        return x
      method.__name__ = meth
      return method
    for meth, body in cd['methods'].items():
      f = make(meth, body)
      if meth in cd['transparent']:
        f = hk.transparent(f)
      d[meth] = f
    for pname, body in cd['props'].items():
      d[pname] = property(
          lambda self, body=body: be.walker.run(
              body, be.const_x(), Env(parent=self.env, self_obj=self)))
    cls = type(hk.Module)(cd['cls'], (base,), d)
    self.classes[ci] = cls
    return cls

  def const_x(self):
    return self.jnp.asarray([5., 7., 9.], self.jnp.float32)

  def new(self, ci, name, env):
    cls = self.get_class(ci)
    if name is None:
      return cls(env=env)
    return cls(name=name, env=env)

  def name_of(self, h):
    return h.module_name

  def call(self, h, method, x):
    if not hasattr(type(h), method):
      return self.add(x, 3.0)
    return getattr(h, method)(x)

  def prop(self, h, x):
    if not hasattr(type(h), 'prp'):
      return self.add(x, 4.0)
    return self.mix(x, self.jnp.sum(h.prp))

  def supercall(self, env, method, x):
    ci = env.cls_index
    if ci is None:
      return self.add(x, 6.0)
    base = self.program['classes'][ci]['base']
    if base is None or effective(self.program, base, method) is None:
      return self.add(x, 5.0)
    return getattr(super(self.classes[ci], env.self_obj), method)(x)

  def scope(self, name):
    return self.hk.experimental.name_scope(name)

  def context(self, kind, k):
    hk, jnp = self.hk, self.jnp
    if kind in ('getter', 'sgetter'):
      def getter(next_getter, value, ctx):
        self.walker.tick('getter')
        self.log(kind, k, ctx.full_name, ctx.module_name, ctx.name,
                 None if ctx.module is None else ctx.module.module_name,
                 tuple(ctx.original_shape), str(jnp.dtype(ctx.original_dtype)))
        return next_getter(jnp.asarray(value, jnp.float32) * 2 + k)
      return hk.experimental.custom_getter(getter, params=kind == 'getter',
                                           state=kind == 'sgetter')
    if kind in ('creator', 'screator'):
      def creator(next_creator, shape, dtype, init, ctx):
        self.walker.tick('creator')
        self.log(kind, k, ctx.full_name, ctx.module_name, ctx.name,
                 None if ctx.module is None else ctx.module.module_name,
                 tuple(shape), str(jnp.dtype(dtype)))
        v = next_creator(shape, dtype, init)
        return jnp.mod(jnp.asarray(v, jnp.float32) * 2 + k, 17).astype(dtype)
      return hk.experimental.custom_creator(creator, params=kind == 'creator',
                                            state=kind == 'screator')
    def icept(next_f, args, kwargs, ctx):
      if ctx.method_name != '__call__':
        return next_f(*args, **kwargs)
      self.walker.tick('icept')
      self.log('icept', k, ctx.module.module_name, ctx.method_name)
      return self.mix(next_f(*args, **kwargs), k)
    return hk.experimental.intercept_methods(icept)

  def with_rng(self, seed):
    return self.hk.with_rng(self.jax.random.PRNGKey(1000 + seed))

  def running_init(self):
    return self.hk.running_init()

  def pdict(self, h, which):
    d = h.params_dict() if which == 'params' else h.state_dict()
    self.log('pdict', which, tuple(sorted(d)), tuple(self.val(d[k]) for k in sorted(d)))


class MMod:

  def __init__(self, ci, name):
    self.ci, self.module_name = ci, name
    self.name = name.split('/')[-1]
    self.env = None
    self.created = set()


class Scope:

  def __init__(self, mod, method):
    self.mod, self.method = mod, method
    self.counters, self.used = {}, set()


class MissingParam(Exception):
  pass


class ModelBackend:
  """Reference semantics: names, sharing, parameter injection, state threading."""

  def __init__(self, program, params=None, state=None, keys=None, rng_none=False):
    self.program = program
    self.frozen = params is not None
    self.params = {} if params is None else dict(params)     # (bundle,name)->np
    self.initial = {} if state is None else dict(state)
    self.current = dict(self.initial)
    self.fake = 0
    self.key_list = None if keys is None else list(keys)
    self.key_pos = 0
    self.events = []
    self.scopes = [Scope(None, None)]
    self.rng_depth = 0
    self.rng_none = rng_none
    self.walker = None
    self.ctxs = []

  def log(self, *ev):
    self.events.append(ev)

  def val(self, v):
    a = np.asarray(v)
    return (str(a.dtype), a.shape, a.astype(np.float64).ravel().tolist())

  def mix(self, x, v):
    return np.mod(x * np.float32(3) + np.float32(v), np.float32(MOD)).astype(np.float32)

  def add(self, x, c):
    return np.mod(x + np.float32(c), np.float32(MOD)).astype(np.float32)

  def wsum(self, p):
    p = np.ravel(p).astype(np.float32)
    return np.float32(np.sum(p * (np.arange(p.shape[0]) % 7 + 1)))

  def next_key(self):
    if self.key_list is None:
      self.fake += 1
      return (self.fake * 31, 0)
    k = self.key_list[self.key_pos]
    self.key_pos += 1
    return k

  def bundle(self):
    m = self.scopes[-1].mod
    return '~' if m is None else m.module_name

  def cast(self, a, dtype):
    if dtype == 'bfloat16':
      import ml_dtypes
      dtype = ml_dtypes.bfloat16
    return np.asarray(a).astype(dtype)

  def make_init(self, ikind, k, shape, dtype):
    self.walker.tick('initializer')
    self.log('made', tuple(shape), dtype)
    if ikind == 'rng':
      key = self.next_key()
      kk = np.float32(key[0] % 97) + k
      n = int(np.prod(shape)) if shape else 1
      return self.cast(((np.arange(n) + kk) % 17).reshape(shape), dtype)
    return self.cast(const_value(k, shape, dtype), dtype)

  def param(self, name, ikind, k):
    key = (self.bundle(), name)
    if key not in self.params:
      if self.frozen:
        raise MissingParam(key)
      self.params[key] = self.create(
          'creator', key, pshape(name), pdtype(name),
          lambda: self.make_init(ikind, k, pshape(name), pdtype(name)))
    p = self.getters('getter', key, self.params[key], pshape(name), pdtype(name))
    self.log('param', name, self.val(p))
    return self.wsum(p)

  def get_state(self, name, k):
    key = (self.bundle(), name)
    if key not in self.current:
      v = self.create('screator', key, sshape(name), 'float32',
                      lambda: self.make_init('const', k, sshape(name), 'float32'))
      self.initial[key] = self.current[key] = v
    v = self.getters('sgetter', key, self.current[key], sshape(name), 'float32')
    self.log('get_state', name, self.val(v))
    return self.wsum(v)

  def ctx_event(self, kind, k, key, shape, dtype):
    m = self.scopes[-1].mod
    self.log(kind, k, key[0] + '/' + key[1], key[0], key[1],
             None if m is None else m.module_name, tuple(shape), dtype)

  def create(self, kind, key, shape, dtype, make):
    active = [k for c, k in self.ctxs if c == kind]
    for k in active:  # first registered is outermost
      self.walker.tick('creator')
      self.ctx_event(kind, k, key, shape, dtype)
    v = make()
    for k in reversed(active):
      v = self.cast(np.mod(np.asarray(v).astype(np.float32) * 2 + k, 17), dtype)
    return v

  def getters(self, kind, key, v, shape, dtype):
    for c, k in self.ctxs:
      if c == kind:
        self.walker.tick('getter')
        self.ctx_event(kind, k, key, shape, dtype)
        v = (np.asarray(v).astype(np.float32) * np.float32(2) + np.float32(k))
    return v

  @contextlib.contextmanager
  def context(self, kind, k):
    n = len(self.ctxs)
    self.ctxs.append((kind, k))
    try:
      yield
    finally:
      del self.ctxs[n:]

  def _set(self, name, v):
    key = (self.bundle(), name)
    v = np.broadcast_to(np.float32(v), sshape(name)).copy()
    if key not in self.current:
      self.initial[key] = v
    self.current[key] = v
    self.log('set_state', name, self.val(v))

  def set_state(self, name, x, k):
    self._set(name, np.mod(np.sum(x) + np.float32(k), np.float32(MOD)))

  def inc_state(self, name, v):
    self._set(name, np.mod(v * 2 + 1, np.float32(MOD)))

  def keys(self, x, how, n):
    count = {'next': 1, 'keys': n, 'maybe': 1, 'reserve': 0}[how]
    if how == 'maybe' and self.rng_none and not self.rng_depth:
      count = 0
    for _ in range(count):
      x = self.mix(x, np.float32(self.next_key()[0] % 97))
    return x

  # names -------------------------------------------------------------------
  def unique(self, name):
    caller = self.scopes[-1]
    full = name
    if caller.mod is not None:
      if caller.method == '__call__':
        mid = ''
      elif caller.method == '__init__':
        mid = '~/'
      else:
        mid = '~' + caller.method + '/'
      full = caller.mod.module_name + '/' + mid + name
    mt = re.match(r'^(.*)_(\d+)$', full)
    if mt:
      stem, n = mt.group(1), int(mt.group(2))
      caller.counters[stem] = max(caller.counters.get(stem, 0), n + 1)
      full = f'{stem}_{n}'
    else:
      n = caller.counters.get(full, 0)
      caller.counters[full] = n + 1
      if n:
        full = f'{full}_{n}'
    if full in caller.used:
      raise ValueError(f'{full} is not unique')
    caller.used.add(full)
    return full

  def new(self, ci, name, env):
    cd = self.program['classes'][ci]
    full = self.unique(cd['snake'] if name is None else name)
    m = MMod(ci, full)
    self.scopes.append(Scope(m, '__init__'))
    depth = len(self.scopes)
    try:
      chain = []
      c = ci
      while c is not None:
        chain.append(c)
        c = self.program['classes'][c]['base']
      m.env = Env(parent=env, self_obj=m, cls_index=chain[-1])
      for c in reversed(chain):
        cdc = self.program['classes'][c]
        if cdc['own_init'] or cdc['base'] is None:
          self.walker.tick('ctor')
          self.log('init', c)
          if cdc['own_init']:
            self.walker.run(cdc['init'], self.const_x(), m.env)
      self.seen_by_enclosing(m)
    finally:
      del self.scopes[depth - 1:]
    return m

  def const_x(self):
    return np.asarray([5., 7., 9.], np.float32)

  def name_of(self, h):
    return h.module_name

  def invoke(self, h, found, method, x):
    dci, body, transparent = found
    depth = len(self.scopes)
    if not transparent:
      self.scopes.append(Scope(h, method))
    try:
      icepts = [k for c, k in self.ctxs if c == 'icept'] if method == '__call__' else []
      if transparent:
        icepts = []
      for k in icepts:
        self.walker.tick('icept')
        self.log('icept', k, h.module_name, method)
      self.walker.tick('enter')
      self.log('enter', h.module_name, h.name, method)
      env = Env(parent=h.env, self_obj=h, cls_index=dci)
      x = self.walker.run(body, x, env)
      self.walker.tick('exit')
      self.log('exit', method)
      for k in reversed(icepts):
        x = self.mix(x, k)
      if not transparent:
        self.seen_by_enclosing(h)
      return x
    finally:
      del self.scopes[depth:]

  def call(self, h, method, x):
    found = effective(self.program, h.ci, method)
    if found is None:
      return self.add(x, 3.0)
    return self.invoke(h, found, method, x)

  def prop(self, h, x):
    body = effective_prop(self.program, h.ci)
    if body is None:
      return self.add(x, 4.0)
    depth = len(self.scopes)
    self.scopes.append(Scope(h, 'prp'))
    try:
      v = self.walker.run(body, self.const_x(), Env(parent=h.env, self_obj=h))
      self.seen_by_enclosing(h)
    finally:
      del self.scopes[depth:]
    return self.mix(x, np.sum(v))

  def seen_by_enclosing(self, h):
    """A module used inside another's method counts as its submodule."""
    for s in self.scopes:
      if s.mod is not None and s.mod is not h:
        s.mod.created.add(h.module_name)

  def supercall(self, env, method, x):
    ci = env.cls_index
    if ci is None:
      return self.add(x, 6.0)
    base = self.program['classes'][ci]['base']
    found = None if base is None else effective(self.program, base, method)
    if found is None:
      return self.add(x, 5.0)
    return self.invoke(env.self_obj, found, method, x)

  @contextlib.contextmanager
  def scope(self, name):
    depth = len(self.scopes)
    m = None
    # The scope's modules are created (and counted) when it is opened.
    for sub in name.split('/'):
      full = self.unique(sub)
      m = MMod(None, full)
      self.seen_by_enclosing(m)
      self.scopes.append(Scope(m, '__call__'))
    del self.scopes[depth:]
    self.scopes.append(Scope(m, '__call__'))
    try:
      yield
    finally:
      del self.scopes[depth:]

  @contextlib.contextmanager
  def with_rng(self, seed):
    self.rng_depth += 1
    try:
      yield
    finally:
      self.rng_depth -= 1

  def running_init(self):
    return not self.frozen

  def pdict(self, h, which):
    src = self.params if which == 'params' else self.current
    out = {}
    for (b, n), v in src.items():
      if (b == h.module_name or b.startswith(h.module_name + '/') or b in h.created):
        out[b + '/' + n] = v
    self.log('pdict', which, tuple(sorted(out)), tuple(self.val(out[k]) for k in sorted(out)))
    self.seen_by_enclosing(h)


# --------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------

X0 = np.asarray([2., 3., 5.], np.float32)


def dry_run(program, limit=400):
  """Model execution with fake keys: returns number of ticks (or None if too big)."""
  b = ModelBackend(program)
  w = Walker(program, b)
  try:
    w.main(X0)
  except (ValueError, RecursionError):
    return None
  return w.ticks if w.ticks <= limit else None


def gen_program(mon, lo=6, hi=150, **weights):
  """A program of moderate dynamic size, whose model run succeeds."""
  for _ in range(200):
    p = Gen(mon, **weights).program()
    n = dry_run(p, hi)
    if n is not None and n >= lo:
      return p, n
  raise RuntimeError('generator failed to produce a program')


def add_tries(mon, program, p=0.5):
  """Wraps random runs of statements in try/except, in place."""
  def wrap(body):
    out, i = [], 0
    while i < len(body):
      s = body[i]
      for j, part in enumerate(s):
        if isinstance(part, list):
          s[j] = wrap(part)
      if mon.chance(p):
        n = mon.randint(1, 3)
        chunk = body[i:i + n]
        out.append(['try', [chunk[0]] + [wrap([c])[0] for c in chunk[1:]]])
        i += n
      else:
        out.append(s)
        i += 1
    return out
  program['main'] = wrap(program['main'])
  for c in program['classes']:
    c['init'] = [s if s[0] == 'new' else wrap([s])[0] for s in c['init']]
    for meth in c['methods']:
      c['methods'][meth] = wrap(c['methods'][meth])
  return program


def haiku_fn(program, record=True, fault_at=None, on_tick=None):
  """(function suitable for hk.transform_with_state, holder of last run)."""
  holder = {}

  def fn(x):
    b = HkBackend(program, record_values=record)
    w = Walker(program, b, fault_at=fault_at, on_tick=on_tick)
    holder['b'], holder['w'] = b, w
    return w.main(x)

  return fn, holder


def model_init(program, x, keys, fault_at=None):
  b = ModelBackend(program, keys=keys)
  w = Walker(program, b, fault_at=fault_at)
  out = w.main(np.asarray(x, np.float32))
  return out, b


def model_apply(program, params, state, x, keys, fault_at=None, rng_none=False):
  b = ModelBackend(program, params=params, state=state, keys=keys, rng_none=rng_none)
  w = Walker(program, b, fault_at=fault_at)
  out = w.main(np.asarray(x, np.float32))
  return out, b


def compare_events(mon, got, want, what):
  """First divergence of the observed trace from the model's."""
  for i, (g, w) in enumerate(zip(got, want)):
    if g != w:
      mon.fail(f'{what}: trace diverges from the model at event {i}',
               observed=g, expected=w, before=got[max(0, i - 4):i])
  mon.check(len(got) == len(want), f'{what}: trace length differs from the model',
            observed=got[len(want):], expected=want[len(got):])
  mon.ev('trace_events', len(got))


def features(program):
  """Set of statement kinds used (for distinctness signatures)."""
  kinds = []

  def walk(body):
    for s in body:
      kinds.append(s[0])
      for part in s[1:]:
        if isinstance(part, list):
          walk(part)
  walk(program['main'])
  for c in program['classes']:
    walk(c['init'])
    for b in c['methods'].values():
      walk(b)
  return tuple(sorted(set(kinds)))
