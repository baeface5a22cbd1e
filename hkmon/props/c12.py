"""C12: custom creators, getters and method interceptors."""
import contextlib

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, progs, zoo
from hkmon.core import two_level

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('Random stacks of creators/getters/interceptors (params and/or state, entered and left '
        'at random points, overriding shape/dtype/initializer/value/arguments/result, '
        'short-circuiting) around random parameter/state requests and method calls; every '
        'hook call, its context and every value is compared with a list-based model, in init '
        'and apply. Non-trivial: >=2 hooks active at once; distinct by script.')
REQUIRED = {'init_runs': 50, 'apply_runs': 50, 'hook_calls': 2000, 'stack_cases': 100,
            'short_circuits': 30, 'icept_calls': 500, 'layer_hooks': 30, 'early_contexts': 40, 'shape_guard': 10, 'opaque': 90, 'opaque_nones': 15}
ASSUMPTIONS = ['a hook calls its continuation at most once']


def model(mon):
  program, n = lang.gen_program(mon, lo=8, hi=70, ctx=5, param=4, sget=2, sset=1, sinc=2,
                                new=3, newcall=3, call=4, scope=1)
  x = lang.X0
  t, h, params, state = progs.check_init(mon, program, mon.randint(0, 50), x)
  ev = h['b'].events
  hooks = sum(e[0] in ('getter', 'sgetter', 'creator', 'screator', 'icept') for e in ev)
  mon.ev('hook_calls', hooks)
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  for _ in range(2):
    progs.check_apply(mon, program, t, h, progs.fresh_values(mon, fp),
                      progs.fresh_values(mon, fs), mon.randint(0, 99), x)
    mon.ev('hook_calls', sum(e[0] in ('getter', 'sgetter', 'creator', 'screator', 'icept')
                             for e in h['b'].events))
  if hooks >= 2:
    mon.nontrivial(program)
  mon.sample(dict(ticks=n, hooks=hooks))


# -- explicit stacks ------------------------------------------------------------

SHAPES = [(), (2,), (1, 3), (2, 2)]
DTYPES = ['float32', 'int32', 'float16']


def gen_script(mon, depth=0):
  """Block: list of ('p'|'s'|'set', ...) requests and ('with', hook, block)."""
  out = []
  for _ in range(mon.randint(2, 4)):
    k = mon.pick('p', 'p', 's', 'set', 'with', 'with', 'mod')
    if k in ('p', 's'):
      i = mon.randint(0, 4)
      out.append((k, f'{k}{i}', SHAPES[i % 4], DTYPES[i % 3], mon.randint(1, 5)))
    elif k == 'set':
      i = mon.randint(0, 4)
      out.append(('set', f's{i}', SHAPES[i % 4], DTYPES[i % 3], mon.randint(1, 9)))
    elif k == 'mod' and depth < 3:
      out.append(('mod', mon.pick('alpha', 'beta'), gen_script(mon, depth + 1)))
    elif k == 'with' and depth < 4:
      kind = mon.pick('getter', 'creator')
      hook = dict(
          kind=kind, id=mon.randint(0, 10 ** 6), k=mon.randint(1, 4),
          params=mon.pick(True, True, False, None), state=mon.pick(True, False, None),
          act=mon.pick('pass', 'pre', 'post', 'both', 'short', 'init', 'dtype',
                       'pre', 'post') if kind == 'creator'
          else mon.pick('pass', 'pre', 'post', 'both', 'short', 'dtype'))
      out.append(('with', hook, gen_script(mon, depth + 1)))
  return out


def flags(hook):
  p = True if hook['params'] is None else hook['params']
  s = False if hook['state'] is None else hook['state']
  return p, s


def withs(block):
  """All 'with' operations of a script."""
  for op in block:
    if op[0] == 'with':
      yield op
      yield from withs(op[2])
    elif op[0] == 'mod':
      yield from withs(op[2])


class Real:
  """Executes a script with Haiku.

  With `early`, all context managers are made up front, in an order which has nothing to do with
  the order in which they are entered (and some are made which are never entered).
  """

  def __init__(self, script=(), early=0):
    self.log = []
    self.mods = {}
    self.early = {}
    self.keep = []
    if early:
      ops = sorted(withs(script), key=lambda op: hash((early, op[1]['id'])))
      for op in ops:
        self.early[id(op)] = self.enter(op[1])
        if op[1]['k'] == 1:
          self.keep.append(self.enter(dict(op[1], id=-1)))

  def enter(self, hook):
    kw = {n: hook[n] for n in ('params', 'state') if hook[n] is not None}
    k, act, hid = hook['k'], hook['act'], hook['id']
    log = self.log

    def note(ctx, *more):
      m = ctx.module
      log.append((hook['kind'], hid, ctx.full_name, ctx.module_name, ctx.name,
                  None if m is None else m.module_name,
                  str(np.dtype(ctx.original_dtype)), tuple(ctx.original_shape), *more))

    if hook['kind'] == 'getter':
      def getter(next_getter, value, ctx):
        note(ctx, tuple(value.shape), str(value.dtype))
        if act == 'short':
          return value + k
        if act == 'dtype':
          return next_getter(value.astype('float16'))
        v = next_getter(value * 2 + k if act in ('pre', 'both') else value)
        return v * 3 + k if act in ('post', 'both') else v
      return hk.experimental.custom_getter(getter, **kw)

    def creator(next_creator, shape, dtype, init, ctx):
      note(ctx, tuple(shape), str(np.dtype(dtype)))
      if act == 'short':
        return jnp.full(shape, 50 + k, dtype)
      if act == 'dtype':
        return next_creator(shape, 'int32', init)
      if act == 'init':
        return next_creator(shape, dtype, lambda s, d: jnp.full(s, 60 + k, d))
      if act in ('pre', 'both'):
        old = init
        init = lambda s, d: old(s, d) + k
      v = next_creator(shape, dtype, init)
      return v * 2 if act in ('post', 'both') else v
    return hk.experimental.custom_creator(creator, **kw)

  def run(self, block):
    for op in block:
      if op[0] == 'with':
        with self.early.pop(id(op), None) or self.enter(op[1]):
          self.run(op[2])
      elif op[0] == 'mod':
        if op[1] not in self.mods:
          self.mods[op[1]] = Holder(name=op[1])
        self.mods[op[1]](lambda op=op: self.run(op[2]))
      elif op[0] == 'set':
        hk.set_state(op[1], jnp.full(op[2], op[4], op[3]))
      else:
        f = hk.get_parameter if op[0] == 'p' else hk.get_state
        init = lambda s, d, c=op[4]: jnp.full(s, c, d)
        v = f(op[1], op[2], op[3], init=init)
        self.log.append(('value', op[1], str(v.dtype), tuple(v.shape),
                         np.asarray(v, np.float64).ravel().tolist()))


OBJECTS = [None, (), {}, 0, False, '', 'txt', (1, None), {'a': None}, [], 3.5, NotImplemented]


def opaque(mon):
  """Hooks may pass on and return any object: each one arrives as it is (checked by identity)."""
  kind = mon.pick('getter', 'sgetter', 'icept', 'screator')
  n = mon.randint(1, 5)
  plan = []        # per hook: object passed on (or keep), object returned (or keep), short
  for _ in range(n):
    plan.append((mon.pick([KEEP, KEEP] + [[o] for o in OBJECTS]),
                 mon.pick([KEEP, KEEP] + [[o] for o in OBJECTS]), mon.chance(0.08)))
  if kind == 'getter':   # what get_parameter returns must have the shape asked for
    plan[0] = (plan[0][0], [np.ones([], np.float32)], plan[0][2])
  first, last = mon.pick([[o] for o in OBJECTS]), mon.pick([[o] for o in OBJECTS])
  seen = []

  def step(i, value, go_on):
    seen.append((i, value))
    down, up, short = plan[i]
    if short:
      return up[0] if up is not KEEP else value
    out = go_on(value if down is KEEP else down[0])
    return out if up is KEEP else up[0]

  def getter(i):
    return lambda nxt, v, ctx: step(i, v, nxt)

  def creator(i):
    return lambda nxt, sh, dt, init, ctx: step(i, 'start', lambda v: nxt(sh, dt, init))

  def icept(i):
    def f(nxt, args, kwargs, ctx):
      if ctx.method_name != '__call__':
        return nxt(*args, **kwargs)
      v = args[0] if by_pos else kwargs['v']
      return step(i, v, lambda w: nxt(w) if by_pos else nxt(v=w))
    return f

  by_pos = mon.chance(0.5)
  arrived = []

  class Mod(hk.Module):
    def __call__(self, v):
      arrived.append(v)
      return last[0]

  def fn():
    with contextlib.ExitStack() as st:
      for i in range(n):
        if kind in ('getter', 'sgetter'):
          st.enter_context(hk.experimental.custom_getter(
              getter(i), params=kind == 'getter', state=kind == 'sgetter'))
        elif kind == 'screator':
          st.enter_context(hk.experimental.custom_creator(creator(i), params=False, state=True))
        else:
          st.enter_context(hk.experimental.intercept_methods(icept(i)))
      if kind == 'getter':
        out = hk.get_parameter('w', [], init=jnp.ones)
      elif kind == 'sgetter':
        hk.set_state('s', first[0])
        out = hk.get_state('s')
      elif kind == 'screator':
        out = hk.get_state('s', [], init=lambda s, d: last[0])
      else:
        out = Mod()(first[0]) if by_pos else Mod()(v=first[0])
    result.append(out)

  result = []
  # the reference
  want_seen, ups = [], []
  cur = {'screator': 'start'}.get(kind, first[0])
  arrives = True
  for i, (down, up, short) in enumerate(plan):
    want_seen.append((i, cur))
    ups.append(up)
    if short:
      arrives = False
      break
    cur = cur if down is KEEP or kind == 'screator' else down[0]
  w_param = object()
  if kind == 'getter':
    cur = w_param
    want_seen = []
    arrives = True
    for i, (down, up, short) in enumerate(plan):
      want_seen.append((i, cur))
      if short:
        arrives = False
        break
      cur = cur if down is KEEP else down[0]
    ups = [u for _, u, _ in plan[:len(want_seen)]]
  bottom = cur if (kind in ('getter', 'sgetter') or not arrives) else last[0]
  want = bottom
  for up in reversed(ups):
    want = want if up is KEEP else up[0]
  hk.transform_with_state(fn).init(None)
  mon.eq(len(seen), len(want_seen), 'number of hook calls', plan=plan)
  same = lambda g, w: (isinstance(g, (jax.Array, np.ndarray)) and g.shape == ()) if w is w_param else (
      g is w or g == w and type(g) is type(w))
  for g, w in zip(seen, want_seen):
    mon.check(g[0] == w[0] and same(g[1], w[1]), 'object arriving at a hook', got=g, want=w, plan=plan, kind=kind)
  mon.check(same(result[0], want), 'object returned to the caller', got=result, want=want, plan=plan, kind=kind)
  if kind == 'icept' and arrives:
    mon.check(len(arrived) == 1 and same(arrived[0], cur), 'object arriving at the method', got=arrived, want=cur)
  mon.ev('opaque')
  mon.ev('opaque_nones', int(any(d is not KEEP and d[0] is None for d, _, _ in plan)))
  mon.nontrivial('opaque', kind, repr(plan), repr(first), repr(last))


KEEP = ('keep',)


class Holder(hk.Module):
  def __call__(self, f):
    return f()


class Modelled:
  """The same script on plain lists and dicts."""

  def __init__(self, params=None, state=None):
    self.params = {} if params is None else dict(params)
    self.state = {} if state is None else dict(state)
    self.initial = {}
    self.frozen = params is not None
    self.stack, self.log, self.where = [], [], '~'
    self.short = 0
    self.depths = 0

  def active(self, kind, is_param):
    out = [h for h in self.stack if h['kind'] == kind and flags(h)[0 if is_param else 1]]
    self.depths = max(self.depths, len(out))
    return out

  def note(self, h, op, shape, dtype):
    m = None if self.where == '~' else self.where
    self.log.append((h['kind'], h['id'], f'{self.where}/{op[1]}', self.where, op[1], m,
                     op[3], op[2], tuple(shape), dtype))

  def create(self, hooks, op, dtype, init):
    if not hooks:
      return init(dtype)
    h, rest = hooks[0], hooks[1:]
    self.note(h, op, op[2], dtype)
    k, act = h['k'], h['act']
    if act == 'short':
      self.short += 1
      return np.full(op[2], 50 + k, dtype)
    if act == 'dtype':
      return self.create(rest, op, 'int32', init)
    if act == 'init':
      return self.create(rest, op, dtype, lambda d: np.full(op[2], 60 + k, d))
    if act in ('pre', 'both'):
      old = init
      init = lambda d: (old(d) + k).astype(d)
    v = self.create(rest, op, dtype, init)
    return (v * 2).astype(v.dtype) if act in ('post', 'both') else v

  def get(self, hooks, op, v):
    if not hooks:
      return v
    h, rest = hooks[0], hooks[1:]
    self.note(h, op, v.shape, str(v.dtype))
    k, act = h['k'], h['act']
    if act == 'short':
      self.short += 1
      return (v + k).astype(v.dtype)
    if act == 'dtype':
      return self.get(rest, op, v.astype('float16'))
    v = self.get(rest, op, (v * 2 + k).astype(v.dtype) if act in ('pre', 'both') else v)
    return (v * 3 + k).astype(v.dtype) if act in ('post', 'both') else v

  def run(self, block):
    for op in block:
      if op[0] == 'with':
        self.stack.append(op[1])
        self.run(op[2])
        self.stack.pop()
      elif op[0] == 'mod':
        old, self.where = self.where, op[1]
        # a module called while another is active keeps its own (top level) name only if it
        # was constructed at the top level; scripts construct it where it is first used.
        self.where = self.names.setdefault(
            op[1], op[1] if old == '~' else f'{old}/{op[1]}')
        self.run(op[2])
        self.where = old
      elif op[0] == 'set':
        v = np.full(op[2], op[4], op[3])
        key = (self.where, op[1])
        self.initial.setdefault(key, v)
        self.state[key] = v
      else:
        is_p = op[0] == 'p'
        store = self.params if is_p else self.state
        key = (self.where, op[1])
        if key not in store:
          v = self.create(self.active('creator', is_p), op, op[3],
                          lambda d, c=op[4]: np.full(op[2], c, d))
          store[key] = v
          if not is_p:
            self.initial[key] = v
        v = self.get(self.active('getter', is_p), op, store[key])
        self.log.append(('value', op[1], str(v.dtype), tuple(v.shape),
                         np.asarray(v, np.float64).ravel().tolist()))

  names = None


def same_log(mon, got, want, msg, script):
  for i, (g, w) in enumerate(zip(got, want)):
    if g != w:
      mon.fail(msg, at=i, got=g, want=w, script=script)
  mon.eq(len(got), len(want), msg + ': number of events', script=script)


def stacks(mon):
  script = gen_script(mon)
  box = {}
  outer = mon.chance(0.3)
  early = mon.pick(0, 0, mon.randint(1, 10 ** 6))

  def fn():
    r = box['r'] = Real(script, early)
    r.run(script)
    if outer:  # all hooks left: nothing is active any more
      before = len(r.log)
      hk.get_parameter('tail', (2,), init=jnp.ones)
      hk.get_state('stail', (2,), init=jnp.ones)
      mon.eq(len(r.log), before, 'a hook ran after its context was left')
    return jnp.zeros(())

  t = hk.transform_with_state(fn)
  params, state = t.init(None)
  m = Modelled()
  m.names = {}
  m.run(script)
  same_log(mon, box['r'].log, m.log, 'hook trace of init', script)
  tail = {('~', 'tail'): np.ones((2,), np.float32)} if outer else {}
  stail = {('~', 'stail'): np.ones((2,), np.float32)} if outer else {}
  mon.tree_same(params, progs.nest({**m.params, **tail}), 'params created under hooks')
  mon.tree_same(state, progs.nest({**m.initial, **stail}), 'state created under hooks')
  mon.ev('hook_calls', len(m.log))
  # apply with fresh values: only getters (and state creators for missing entries) may run
  fp = {k: mon.np.integers(0, 20, v.shape).astype(v.dtype) for k, v in m.params.items()}
  fs = {k: mon.np.integers(0, 20, v.shape).astype(v.dtype) for k, v in m.initial.items()}
  if fs and mon.chance(0.4):
    fs.pop(sorted(fs)[0])
  a = Modelled(fp, fs)
  a.names = {}
  a.run(script)
  dev = lambda d: progs.nest({k: jnp.asarray(v) for k, v in d.items()})
  _, new = t.apply(dev({**fp, **tail}), dev({**fs, **stail}), None)
  same_log(mon, box['r'].log, a.log, 'hook trace of apply', script)
  mon.tree_same(new, progs.nest({**a.state, **stail}), 'state after apply under hooks')
  mon.ev('hook_calls', len(a.log))
  mon.ev('short_circuits', m.short + a.short)
  mon.ev('stack_cases')
  mon.ev('early_contexts', bool(early))
  if m.depths >= 2 or a.depths >= 2:
    mon.nontrivial(script)
  mon.sample(script)


# -- interceptors -----------------------------------------------------------------


class Child(hk.Module):
  def __call__(self, x, *, add=0):
    return x * 2 + hk.get_parameter('w', [], init=jnp.ones) + add

  def other(self, x, add=0):
    return x * 3 + hk.get_parameter('v', [], init=jnp.ones) + add

  @hk.transparent
  def hidden(self, x, add=0):
    return x + 7 + add

  @property
  def prop(self):
    return hk.get_parameter('w', [], init=jnp.ones)

  @staticmethod
  def stat(x):
    return x + 1


class Sub(Child):
  def other(self, x, add=0):
    return super().other(x, add=add) + 100


class Parent(hk.Module):
  def __init__(self, cls, name=None):
    super().__init__(name=name)
    self.child = cls()

  def __call__(self, x, *, add=0):
    return self.child(x, add=add) + self.child.other(x)


def gen_calls(mon, depth=0):
  out = []
  for _ in range(mon.randint(1, 3)):
    k = mon.pick('call', 'call', 'call', 'with') if depth < 3 else 'call'
    if k == 'with':
      out.append(('with', dict(id=mon.randint(0, 10 ** 6), k=mon.randint(1, 3),
                               act=mon.pick('pass', 'args', 'kwargs', 'result', 'orig', 'skip',
                                            'args', 'result')),
                  gen_calls(mon, depth + 1)))
    else:
      out.append(('call', mon.pick('child', 'sub', 'parent'),
                  mon.pick('__call__', '__call__', 'other', 'hidden', 'prop', 'stat'),
                  mon.randint(0, 3), mon.randint(0, 3)))
  return out


def intercept(mon):
  script = gen_calls(mon)
  log = []
  early = mon.pick(0, 0, mon.randint(1, 10 ** 6))

  def enter(h):
    def icept(next_f, args, kwargs, ctx):
      log.append((h['id'], type(ctx.module).__name__, ctx.module.module_name,
                  ctx.method_name, [float(a) for a in args],
                  {k: float(v) for k, v in kwargs.items()}))
      act, k = h['act'], h['k']
      if act == 'args' and args:
        args = (args[0] + k,) + tuple(args[1:])
      if act == 'kwargs' and 'add' in kwargs:
        kwargs = dict(kwargs, add=kwargs['add'] + k)
      if act == 'skip':
        return 1000. + k
      if act == 'orig':
        return ctx.orig_method(*args, **kwargs)
      out = next_f(*args, **kwargs)
      return out * 2 + k if act == 'result' else out
    return hk.experimental.intercept_methods(icept)

  def fn():
    log.clear()
    mods = dict(child=Child(), sub=Sub(), parent=Parent(Sub))
    outs = []
    made = {}
    if early:  # contexts made up front act when they are entered
      for op in sorted(withs(script), key=lambda op: hash((early, op[1]['id']))):
        made[id(op)] = enter(op[1])
      unused = enter(dict(id=-1, k=1, act='skip'))

    def run(block):
      for op in block:
        if op[0] == 'with':
          with made.pop(id(op), None) or enter(op[1]):
            run(op[2])
        else:
          _, which, meth, x, add = op
          m = mods[which]
          if which == 'parent':
            outs.append(m(float(x), add=add))
          elif meth == 'prop':
            outs.append(m.prop)
          elif meth == 'stat':
            outs.append(m.stat(float(x)))
          else:
            outs.append(getattr(m, meth)(float(x), add=add))
    run(script)
    # connect everything so that init creates all parameters
    for m in (mods['child'], mods['sub'], mods['parent'].child):
      m(0.)
      m.other(0.)
    return outs

  # model
  W = {}

  def modelled():
    stack, mlog, outs = [], [], []
    short = [0]

    def wrap(cls, name, meth, body, args, kwargs, hooks=None):
      hooks = list(stack) if hooks is None else hooks
      if not hooks:
        return body(*args, **kwargs)
      h, rest = hooks[0], hooks[1:]
      mlog.append((h['id'], cls, name, meth, [float(a) for a in args],
                   {k: float(v) for k, v in kwargs.items()}))
      act, k = h['act'], h['k']
      if act == 'args' and args:
        args = (args[0] + k,) + tuple(args[1:])
      if act == 'kwargs' and 'add' in kwargs:
        kwargs = dict(kwargs, add=kwargs['add'] + k)
      if act == 'skip':
        short[0] += 1
        return 1000. + k
      if act == 'orig':
        short[0] += 1
        return body(*args, **kwargs)
      out = wrap(cls, name, meth, body, args, kwargs, rest)
      return out * 2 + k if act == 'result' else out

    def child(cls, name, meth, args, kwargs):
      def call(x, *, add=0):
        return x * 2 + W[name, 'w'] + add
      def base_other(x, add=0):
        return x * 3 + W[name, 'v'] + add
      def sub_other(x, add=0):
        # super().other is a wrapped method too
        return wrap(cls, name, 'other', base_other, (x,), dict(add=add)) + 100
      if meth == '__call__':
        return wrap(cls, name, meth, call, args, kwargs)
      if meth == 'other':
        return wrap(cls, name, meth, sub_other if cls == 'Sub' else base_other, args, kwargs)
      if meth == 'hidden':
        return args[0] + 7 + kwargs['add']
      if meth == 'prop':
        return wrap(cls, name, 'prop', lambda: W[name, 'w'], (), {})
      return args[0] + 1

    def run(block):
      for op in block:
        if op[0] == 'with':
          stack.append(op[1])
          run(op[2])
          stack.pop()
        else:
          _, which, meth, x, add = op
          x = float(x)
          if which == 'parent':
            def body(x, *, add=0):
              return (child('Sub', 'parent/~/sub', '__call__', (x,), dict(add=add)) +
                      child('Sub', 'parent/~/sub', 'other', (x,), {}))
            outs.append(wrap('Parent', 'parent', '__call__', body, (x,), dict(add=add)))
          else:
            cls = dict(child='Child', sub='Sub')[which]
            outs.append(child(cls, which, meth, (x,), dict(add=add)))
    run(script)
    return mlog, outs, short[0]

  t = hk.transform(fn)
  params = t.init(None)
  for m in ('child', 'sub', 'parent/~/sub'):
    W[m, 'w'], W[m, 'v'] = 1., 1.
  mon.eq(sorted(two_level(params)), sorted(W), 'parameters created under interceptors')
  mlog, outs, short = modelled()
  same_log(mon, log, mlog, 'interceptor calls during init', script)
  p = {}
  for m in ('child', 'sub', 'parent/~/sub'):
    p[m] = {'w': np.float32(mon.randint(0, 9)), 'v': np.float32(mon.randint(0, 9))}
    W[m, 'w'], W[m, 'v'] = float(p[m]['w']), float(p[m]['v'])
  got = t.apply(p, None)
  mlog, outs, short = modelled()
  same_log(mon, log, mlog, 'interceptor calls during apply', script)
  mon.eq([float(o) for o in got], [float(o) for o in outs], 'results under interceptors',
         script=script)
  mon.ev('icept_calls', len(mlog))
  mon.ev('short_circuits', short)
  mon.ev('hook_calls', len(mlog))
  if len(mlog) >= 2:
    mon.nontrivial(script)


def orig_method(mon):
  """orig_method called from deep inside the chain skips all other interceptors but keeps
  the module's scope; context fields are the real objects."""
  n = mon.randint(1, 4)
  pos = mon.randint(0, n - 1)
  seen = []

  class M(hk.Module):
    def __call__(self, x):
      inner = hk.Linear(1, name='inner')
      seen.append(('body', inner.module_name))
      return x + hk.get_parameter('w', [], init=jnp.zeros)

  def fn(x):
    m = M(name='outer')
    with contextlib.ExitStack() as es:
      for i in range(n):
        def ic(next_f, args, kwargs, ctx, i=i):
          if not isinstance(ctx.module, M) or ctx.method_name != '__call__':
            return next_f(*args, **kwargs)
          seen.append((i, ctx.module is m, ctx.method_name, args, dict(kwargs)))
          return (ctx.orig_method if i == pos else next_f)(*args, **kwargs)
        es.enter_context(hk.experimental.intercept_methods(ic))
      return m(x)

  t = hk.transform(fn)
  params = t.init(None, 1.)
  mon.eq(list(two_level(params)), [('outer', 'w')], 'scope of an intercepted method')
  mon.eq(seen, [(i, True, '__call__', (1.,), {}) for i in range(pos + 1)] +
         [('body', 'outer/inner')], 'short circuit via orig_method')
  mon.ev('short_circuits')
  mon.ev('icept_calls', pos + 1)
  mon.nontrivial(n, pos)


def shape_guard(mon):
  """get_parameter still guarantees the requested shape after getters and creators ran."""
  kind = mon.pick('getter', 'creator')
  shape = mon.pick((), (2,), (3, 2))
  bad = mon.chance(0.6)

  def fn():
    if kind == 'getter':
      h = hk.experimental.custom_getter(
          lambda nxt, v, c: nxt(jnp.zeros((4,) + tuple(v.shape)) if bad else v))
    else:
      h = hk.experimental.custom_creator(
          lambda nxt, s, d, i, c: nxt((4,) + tuple(s) if bad else s, d, i))
    with h:
      return hk.get_parameter('w', shape, init=jnp.zeros)
  t = hk.transform(fn)
  if bad:
    mon.raises(AssertionError, lambda: t.init(None), 'a hook changed the shape of a parameter')
  else:
    mon.same(t.apply(t.init(None), None), np.zeros(shape, np.float32), 'identity hook')
  mon.ev('shape_guard')
  mon.nontrivial(kind, shape, bad)


def layers(mon):
  """Every parameter/state a library layer uses passes through the hooks exactly as documented."""
  e = zoo.entry(mon)
  log = dict(c=[], g=[], sc=[], sg=[])
  on = [False]

  def fn(*a):
    if not on[0]:
      return e['fn'](*a)
    with contextlib.ExitStack() as es:
      for key, (p, s) in dict(c=(1, 0), sc=(0, 1)).items():
        def creator(nxt, shape, dtype, init, ctx, key=key):
          log[key].append((ctx.module_name, ctx.name))
          return nxt(shape, dtype, init)
        es.enter_context(hk.experimental.custom_creator(creator, params=bool(p), state=bool(s)))
      for key, (p, s) in dict(g=(1, 0), sg=(0, 1)).items():
        def getter(nxt, value, ctx, key=key):
          log[key].append((ctx.module_name, ctx.name))
          return nxt(value)
        es.enter_context(hk.experimental.custom_getter(getter, params=bool(p), state=bool(s)))
      return e['fn'](*a)

  t = hk.transform_with_state(fn)
  rng = jax.random.PRNGKey(mon.randint(0, 99))
  p0, s0 = t.init(rng, *e['args'])
  o0 = t.apply(p0, s0, rng, *e['args'])
  on[0] = True
  p1, s1 = t.init(rng, *e['args'])
  mon.tree_same(p1, p0, f'{e["name"]}: params under pass-through hooks')
  mon.tree_same(s1, s0, f'{e["name"]}: state under pass-through hooks')
  mon.eq(sorted(log['c']), sorted(two_level(p0)),
         f'{e["name"]}: creators ran once per created parameter')
  mon.check(set(log['g']) == set(two_level(p0)), f'{e["name"]}: getters saw every parameter')
  mon.check(set(log['sc']) <= set(two_level(s0)), f'{e["name"]}: state creators')
  mon.eq(len(log['sc']), len(set(log['sc'])), f'{e["name"]}: state created once')
  for v in log.values():
    v.clear()
  o1 = t.apply(p0, s0, rng, *e['args'])
  mon.eq((log['c'], log['sc']), ([], []), f'{e["name"]}: creators ran during apply')
  mon.check(set(log['g']) == set(two_level(p0)), f'{e["name"]}: getters in apply')
  same = jax.tree_util.tree_map(lambda a, b: np.asarray(a).tobytes() == np.asarray(b).tobytes(),
                                o0, o1)
  mon.check(all(jax.tree_util.tree_leaves(same)), f'{e["name"]}: result under hooks')
  mon.ev('layer_hooks')
  mon.ev('hook_calls', len(log['g']) + len(log['sg']))
  mon.nontrivial(e['name'], mon.index)


SCENARIOS = {
    'model': (model, 200, 6000),
    'stacks': (stacks, 300, 8000),
    'intercept': (intercept, 240, 6000),
    'orig_method': (orig_method, 24, 200),
    'shape_guard': (shape_guard, 24, 100),
    'opaque': (opaque, 160, 3000),
    'layers': (layers, 48, 600),
}
