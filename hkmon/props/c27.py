"""C27: modules stay ordinary Python classes."""
import abc
import contextlib
import dataclasses
import functools
import inspect
import re
import typing
from typing import Any, Callable, Generic, Optional, Protocol, TypeVar

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon.core import two_level

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('The same randomly generated class hierarchy source (methods, properties, class and '
        'static methods, operators, mixins, super calls, abstract methods, dataclass fields, '
        'decorated methods) is executed once over a plain base class and once over hk.Module, '
        'then driven through the same random sequence of operations; every result or exception '
        'is compared. repr is evaluated back into the constructor call. Non-trivial: >=2 '
        'classes and >=8 operations; distinct by source and operations.')
REQUIRED = {'ops_compared': 1500, 'hierarchies': 60, 'reprs': 150, 'dataclasses': 30,
            'metadata': 100, 'property_ops': 150, 'raised': 60,
            'renamed_arguments': 60, 'scopes': 66}
ASSUMPTIONS = []


# --- differential class hierarchies -------------------------------------------

class PlainBase:

  def __init__(self, name=None):
    pass


PRELUDE = '''
import abc, contextlib, functools
def deco(f):
  @functools.wraps(f)
  def inner(self, *a, **k):
    self.log.append("deco")
    return f(self, *a, **k)
  return inner
class Mixin:
  def mixed(self, v=3):
    self.log.append("mixin")
    return ("mixin", v)
  def m0(self, *a, **k):
    return ("mixin-m0", a, tuple(sorted(k.items())))
'''

ARGS = ['x', 'x, y=2', '*xs', 'x=1, *, k=5', '**kw', 'x, *xs, k=0, **kw', '']
RET = {'x': 'x', 'x, y=2': '(x, y)', '*xs': 'xs', 'x=1, *, k=5': '(x, k)',
       '**kw': 'sorted(kw.items())', 'x, *xs, k=0, **kw': '(x, xs, k, sorted(kw.items()))',
       '': '()'}


def gen_source(mon):
  """Returns (source, class names, description of members)."""
  lines = [PRELUDE]
  classes = []
  members = {}
  n = mon.randint(2, 4)
  for c in range(n):
    name = f'C{c}'
    if c == 0 or mon.chance(0.2):
      bases = ['BASE']
      known = {}
      if mon.chance(0.3):
        bases = mon.pick([['Mixin', 'BASE'], ['BASE', 'Mixin']])
        known['mixed'] = ('method', 'v=3')
    else:
      par = mon.pick(classes)
      bases = [par]
      known = dict(members[par])
      if mon.chance(0.25) and 'mixed' not in known:
        bases = mon.pick([['Mixin', par], [par, 'Mixin']])
        known['mixed'] = ('method', 'v=3')
    root = 'BASE' in bases
    body = [f'  """Doc of {name}."""', f'  tag = {c}']
    if root:
      body += ['  def __init__(self, a, b=2, *, c=3, name=None):',
               '    super().__init__(name=name)',
               '    self.log = []', '    self.a, self.b, self.c = a, b, c', '    self._v = a']
    elif mon.chance(0.4):
      body += ['  def __init__(self, a, b=20, *, c=3, extra="e", name=None):',
               '    super().__init__(a, b=b, c=c, name=name)', '    self.extra = extra']
    for i in range(mon.randint(1, 4)):
      kind = mon.pick('method', 'method', 'prop', 'rprop', 'static', 'classm', 'deco', 'raiser',
                      'transparent', 'lambda', 'ctx', 'partial')
      m = mon.pick('m0', 'm1', 'm2', 'm3', 'm4')
      if any(l.startswith((f'  def {m}(', f'  {m} = ')) for l in body):
        continue
      args = mon.pick(ARGS)
      sig = 'self' + (', ' + args if args else '')
      sup = (m in known and known[m][0] in ('method', 'deco', 'transparent') and
             known[m][1] == args and mon.chance(0.6))
      ret = RET[args]
      if kind in ('method', 'deco', 'transparent'):
        if kind == 'deco':
          body.append('  @deco')
        if kind == 'transparent':
          body.append('  @TRANSPARENT')
        body += [f'  def {m}({sig}):', f'    """Doc of {name}.{m}."""',
                 f'    self.log.append("{name}.{m}")']
        if sup:
          call = {'x': 'x', 'x, y=2': 'x, y=y', '*xs': '*xs', 'x=1, *, k=5': 'x, k=k',
                  '**kw': '**kw', 'x, *xs, k=0, **kw': 'x, *xs, k=k, **kw', '': ''}[args]
          body.append(f'    return ("{name}", super().{m}({call}), {ret})')
        else:
          body.append(f'    return ("{name}", self.a, {ret})')
        known[m] = (kind, args)
      elif kind == 'prop':
        body += ['  @property', f'  def {m}(self):', f'    """Property {m}."""',
                 '    self.log.append("get")', f'    return ("{name}", self._v)',
                 f'  @{m}.setter', f'  def {m}(self, v):', '    self.log.append("set")',
                 '    self._v = v', f'  @{m}.deleter', f'  def {m}(self):',
                 '    self.log.append("del")', '    del self._v']
        known[m] = ('prop', '')
      elif kind == 'rprop':
        body += ['  @property', f'  def {m}(self):', f'    """Read only {m}."""',
                 f'    return ("{name}", self.b)']
        known[m] = ('rprop', '')
      elif kind == 'static':
        body += ['  @staticmethod', f'  def {m}({args}):', f'    return ("{name}", {ret})']
        known[m] = ('static', args)
      elif kind == 'classm':
        body += ['  @classmethod', f'  def {m}(cls{", " + args if args else ""}):',
                 f'    return (cls.__name__, cls.tag, {ret})']
        known[m] = ('classm', args)
      elif kind == 'raiser':
        body += [f'  def {m}(self, x=0):', '    self.log.append("raise")',
                 f'    raise {mon.pick("KeyError", "ValueError", "StopIteration")}(x)']
        known[m] = ('raiser', 'x=0')
      elif kind == 'lambda':
        body += [f'  {m} = lambda self, x=1: ("{name}", self.b, x)']
        known[m] = ('method', 'x=1')
      elif kind == 'partial':
        body += [f'  def _h_{m}(self, p, x=1):', f'    return ("{name}", p, x)',
                 f'  {m} = functools.partialmethod(_h_{m}, 7)']
        known[m] = ('bare', 'x=1')
      else:
        body += ['  @contextlib.contextmanager', f'  def {m}(self, x=0):',
                 '    self.log.append("enter")', '    try:', '      yield x', '    finally:',
                 '      self.log.append("exit")']
        known[m] = ('ctx', 'x=0')
    ops = [('__getitem__', 'k', '(self.a, k)'), ('__len__', '', '5'),
           ('__contains__', 'k', 'k == self.b'), ('__iter__', '', 'iter((self.a, self.b))'),
           ('__bool__', '', 'False'), ('__add__', 'o', '("add", o)'),
           ('__radd__', 'o', '("radd", o)'), ('__enter__', '', '"in"'),
           ('__exit__', '*e', 'e[0] is KeyError'),
           ('__neg__', '', '-self.b'), ('__matmul__', 'o', '("mm", o)'),
           ('__str__', '', '"str-" + type(self).__name__'),
           ('__eq__', 'o', 'isinstance(o, type(self)) and o.b == self.b'),
           ('__hash__', '', '17'), ('__call__', 'x, y=2', '("call", self.c, x, y)'),
           ('__float__', '', '1.5'), ('__setitem__', 'k, v', 'self.log.append((k, v))')]
    for nm, args, ret in mon.py.sample(ops, mon.randint(0, 4)):
      if nm == '__eq__':
        continue
      body += [f'  def {nm}(self{", " + args if args else ""}):', f'    return {ret}']
      known[nm] = ('op', args)
    if mon.chance(0.3):
      body += ['  def __getattr__(self, n):',
               '    if n.startswith("dyn_"): return ("dyn", n)',
               '    raise AttributeError(n)']
      known['dyn'] = ('dyn', '')
    if mon.chance(0.2):
      body += [f'  class Inner:', f'    z = {c}']
    lines.append(f'class {name}({", ".join(bases)}):')
    lines += body
    classes.append(name)
    members[name] = known
  # Arguments may have any name, also names that wrappers around methods like to use.
  names = dict(zip('yk', mon.py.sample(ARG_NAMES, 2))) if mon.chance(0.6) else {}
  if mon.chance(0.4):
    names['c'] = mon.pick('cls', 'mcs', 'module', 'instance', 'method_name', 'kwargs', 'init')
  src = '\n'.join(lines)
  for old, new in names.items():
    src = re.sub(rf'\b{old}\b', new, src)
  mon.ev('renamed_arguments', len(names))
  return src, classes, members, names


ARG_NAMES = ['method_name', 'bound_method', 'unbound_method', 'args', 'kwargs', 'fun', 'f', 'context', 'ctx', 'frame',
             'module', 'interceptor', 'next_fun', 'next_f', 'method', 'out', 'params', 'state', 'rng', 'wrapped', 'func',
             'instance', 'module_name', 'fn']
ERRS = Exception


def outcome(fn):
  """('ok', comparable) or ('err', type, text)."""
  try:
    r = fn()
  except ERRS as e:  # pylint: disable=broad-except
    return ('err', type(e).__name__, str(e))
  return ('ok', canon(r))


def canon(r):
  if isinstance(r, (int, float, str, bool, type(None))):
    return r
  if isinstance(r, (tuple, list)):
    return [type(r).__name__] + [canon(v) for v in r]
  if isinstance(r, dict):
    return {k: canon(v) for k, v in r.items()}
  return type(r).__name__


def call_args(mon, args, names):
  a = [mon.randint(0, 9) for _ in range(mon.randint(0, 3))]
  k = {names.get(n, n): mon.randint(0, 9) for n in ('y', 'k', 'z') if mon.chance(0.25)}
  del args
  return a, k


def gen_ops(mon, classes, members, names):
  """A list of (description, fn(ns, objs) -> result)."""
  ops = []
  objs = []
  for i in range(mon.randint(2, 3)):
    cls = mon.pick(classes)
    a = dict(a=mon.randint(0, 9))
    if mon.chance(0.5):
      a['b'] = mon.randint(0, 9)
    if mon.chance(0.3):
      a[names.get('c', 'c')] = mon.randint(0, 9)
    if mon.chance(0.1):
      a['bogus'] = 1  # TypeError expected in both
    objs.append(cls)
    def new(ns, objs, cls=cls, a=a, i=i):
      objs[i] = None
      objs[i] = ns[cls](**a)
      return objs[i].a, objs[i].b, type(objs[i]).__name__
    ops.append((f'new {cls} {a}', new))
  for _ in range(mon.randint(8, 20)):
    i = mon.randint(0, len(objs) - 1)
    cls = objs[i]
    m = mon.pick(sorted(members[cls]) or ['tag'])
    kind, args = members[cls].get(m, ('attr', ''))
    if kind in ('method', 'deco', 'transparent', 'static', 'classm', 'raiser', 'bare'):
      a, k = call_args(mon, args, names)
      on_class = kind in ('static', 'classm') and mon.chance(0.4)
      unbound = kind == 'method' and mon.chance(0.2)
      def fn(ns, objs, i=i, m=m, a=a, k=k, cls=cls, on_class=on_class, unbound=unbound):
        if on_class:
          return getattr(ns[cls], m)(*a, **k)
        if unbound:
          return getattr(ns[cls], m)(objs[i], *a, **k)
        return getattr(objs[i], m)(*a, **k)
    elif kind in ('prop', 'rprop'):
      act = mon.pick('get', 'get', 'set', 'del', 'class')
      v = mon.randint(10, 99)
      def fn(ns, objs, i=i, m=m, act=act, v=v, cls=cls):
        if act == 'get':
          return getattr(objs[i], m)
        if act == 'set':
          setattr(objs[i], m, v)
          return objs[i].__dict__.get('_v')
        if act == 'del':
          delattr(objs[i], m)
          return '_v' in objs[i].__dict__
        return type(getattr(ns[cls], m)).__name__, getattr(ns[cls], m).__doc__
      mon.ev('property_ops')
    elif kind == 'ctx':
      def fn(ns, objs, i=i, m=m):
        with getattr(objs[i], m)(4) as v:
          return v
    elif kind == 'dyn':
      nm = mon.pick('dyn_a', 'nope')
      def fn(ns, objs, i=i, nm=nm):
        return getattr(objs[i], nm)
    elif kind == 'op':
      def fn(ns, objs, i=i, m=m):
        o = objs[i]
        return {
            '__getitem__': lambda: o[3], '__len__': lambda: len(o), '__contains__': lambda: 2 in o,
            '__iter__': lambda: list(o), '__bool__': lambda: bool(o), '__add__': lambda: o + 1,
            '__radd__': lambda: 1 + o, '__enter__': lambda: type(o).__enter__(o),
            '__exit__': lambda: type(o).__exit__(o, KeyError, None, None),
            '__neg__': lambda: -o, '__matmul__': lambda: o @ 2, '__str__': lambda: str(o),
            '__eq__': lambda: o == o, '__hash__': lambda: hash(o), '__call__': lambda: o(1),
            '__float__': lambda: float(o), '__setitem__': lambda: o.__setitem__(1, 2)}[m]()
    else:
      fn = lambda ns, objs, i=i: objs[i].tag
    ops.append((f'{cls}#{i}.{m} [{kind}]', fn))
  for _ in range(3):
    i = mon.randint(0, len(objs) - 1)
    which = mon.pick('log', 'mro', 'isinstance', 'attr', 'dir', 'meta', 'inner', 'missing', 'vars',
                     'callable')
    if which == 'meta':
      mon.ev('metadata')
    def fn(ns, objs, i=i, which=which):
      o = objs[i]
      t = type(o)
      skip = {'BASE', 'PlainBase', 'Module', 'object'}
      if which == 'log':
        return list(o.log)
      if which == 'mro':
        return [c.__name__ for c in t.__mro__ if c.__name__ not in skip]
      if which == 'isinstance':
        return [isinstance(o, ns[c]) for c in classes] + [issubclass(t, ns[c]) for c in classes]
      if which == 'attr':
        o.fresh = 12
        r = o.fresh, hasattr(o, 'fresh')
        del o.fresh
        return r + ('fresh' in o.__dict__,)
      if which == 'dir':
        return [m for m in ('m0', 'm1', 'm2', 'm3', 'm4', 'mixed') if hasattr(t, m)]
      if which == 'inner':
        return getattr(t, 'Inner').z
      if which == 'missing':
        return o.does_not_exist
      if which == 'callable':
        return callable(o), t.__doc__, t.__name__, t.__qualname__
      if which == 'vars':
        return sorted(k for k in vars(o) if k in ('a', 'b', names.get('c', 'c'), '_v', 'log', 'extra'))
      out = []
      for m in ('m0', 'm1', 'm2', 'm3', 'm4'):
        f = t.__dict__.get(m)
        g = getattr(t, m, None)
        out.append((m, getattr(g, '__name__', None), getattr(g, '__doc__', None),
                    str(inspect.signature(g)) if callable(g) else None,
                    type(f).__name__ if isinstance(f, (staticmethod, classmethod, property)) else None))
      return out
    ops.append((f'#{i} {which}', fn))
  return ops


def hierarchy(mon):
  """Random hierarchy over hk.Module behaves like the one over a plain class."""
  src, classes, members, names = gen_source(mon)
  ops = gen_ops(mon, classes, members, names)
  code = compile(src, 'generated', 'exec')

  def run(base, transparent):
    ns = dict(BASE=base, TRANSPARENT=transparent, __name__='gen')
    try:
      exec(code, ns)  # pylint: disable=exec-used
    except TypeError as e:
      return [('class', type(e).__name__, str(e).split(',')[0][:40])]
    objs = {}
    return [outcome(lambda fn=fn: fn(ns, objs)) for _, fn in ops]

  want = run(PlainBase, lambda f: f)
  got = []
  def f():
    got.append(run(hk.Module, hk.transparent))
  mode = mon.pick('init', 'apply')
  if mode == 'init':
    hk.transform(f).init(None)
  else:
    hk.transform(f).apply({}, None)
  got = got[0]
  mon.eq(len(got), len(want), 'class creation differs from plain classes', source=src,
         first=(got[:1], want[:1]))
  raised = False
  for (d, _), a, b in zip(ops, got, want):
    if b[0] == 'err':
      mon.ev('raised')
      raised = True
      mon.check(a[:2] == b[:2], f'operation {d} on a module', got=a, want=b, source=src)
      if b[1] not in ('TypeError', 'AttributeError'):
        mon.check(a == b, f'operation {d} on a module: error text', got=a, want=b, source=src)
      continue
    mon.check(a == b, f'operation {d} on a module', got=a, want=b, source=src)
    mon.ev('ops_compared')
  mon.ev('hierarchies')
  if len(ops) >= 8 and len(want) > 1:
    mon.nontrivial(src, [d for d, _ in ops], raised)
  mon.sample(src[len(PRELUDE):])


# --- repr ----------------------------------------------------------------------

def value(mon):
  return mon.pick(
      mon.randint(-50, 50), mon.randint(-500, 500) / 8, 'text', "it's", None, True, False, (1, 2),
      [1, [2, 3]], {'k': (1,)}, 'x' * mon.randint(0, 60), list(range(mon.randint(0, 30))),
      (mon.randint(0, 9),), '', {})


def repr_(mon):
  """repr(module) is the constructor call with the arguments that differ from defaults."""
  npos, nkw = mon.randint(0, 4), mon.randint(0, 2)
  ndef = mon.randint(0, npos)
  pos = [f'p{i}' for i in range(npos)]
  defaults = {p: value(mon) for p in pos[npos - ndef:]}
  kws = [f'k{i}' for i in range(nkw)]
  kwdef = {k: value(mon) for k in kws if mon.chance(0.7)}
  varkw = mon.chance(0.3)
  ns = dict(BASE=hk.Module)
  params = ['self'] + [p + (f'=D[{p!r}]' if p in defaults else '') for p in pos]
  if kws:
    params += ['*'] + [k + (f'=D[{k!r}]' if k in kwdef else '') for k in kws]
  if varkw:
    params.append('**extra')
  ns['D'] = dict(defaults, **kwdef)
  cname = mon.pick('Foo', 'MyModule', 'A', 'VeryLongClassNameForAModuleThatDoesThings')
  sub = mon.chance(0.3)
  src = f'class {cname}(BASE):\n  def __init__({", ".join(params)}):\n    super().__init__(name="nm")\n'
  if sub:
    src += f'class Sub{cname}({cname}):\n  def meth(self): pass\n'
    cname = 'Sub' + cname
  exec(src, ns)  # pylint: disable=exec-used
  cls = ns[cname]
  given = {}
  args = []
  upto = mon.randint(npos - ndef, npos) if npos else 0
  npositional = mon.randint(0, upto)
  for i, p in enumerate(pos[:upto]):
    v = defaults[p] if p in defaults and mon.chance(0.4) else value(mon)
    if i < npositional:
      args.append(v)
    else:
      given[p] = v
  for p in pos[upto:]:
    if mon.chance(0.3):
      given[p] = defaults[p] if mon.chance(0.4) else value(mon)
  for k in kws:
    if k not in kwdef or mon.chance(0.5):
      given[k] = kwdef[k] if k in kwdef and mon.chance(0.3) else value(mon)
  if varkw:
    for k in ('z1', 'z2'):
      if mon.chance(0.5):
        given[k] = value(mon)
  items = list(given.items())
  mon.py.shuffle(items)
  given = dict(items)
  out = []
  def f():
    m = cls(*args, **given)
    out.append((repr(m), str(m)))
    m.something_else = 1
    out.append((repr(m), f'{m}'))
  hk.transform(f).init(None)
  mon.check(len({x for o in out for x in o}) == 1, 'repr and str of a module agree and are stable',
            out=out)
  r = out[0][0]
  sig = inspect.signature(cls.__init__)
  def bind(*a, **k):
    b = sig.bind(None, *a, **k)
    return b
  want = bind(*args, **given)
  class Rec:
    def __call__(self, *a, **k):
      return a, k
  try:
    ra, rk = eval(r, {cname: Rec()})  # pylint: disable=eval-used
  except Exception as e:  # pylint: disable=broad-except
    mon.fail('repr of a module is not a constructor call', repr=r, error=e, source=src)
  back = bind(*ra, **rk)
  shown = set(rk)
  want.apply_defaults()
  back.apply_defaults()
  def key(b):
    return {n: repr(v) for n, v in b.arguments.items() if n != 'self'}
  mon.check(key(back) == key(want) or {n: b for n, b in back.arguments.items() if n != 'self'} ==
            {n: b for n, b in want.arguments.items() if n != 'self'},
            'repr of a module shows other arguments than those given', repr=r,
            args=args, kwargs=given)
  for p in defaults:
    if want.arguments[p] == defaults[p]:
      mon.check(p not in shown, 'repr shows an argument that has its default value', repr=r, arg=p)
  mon.check(all(len(l) <= 80 for l in r.splitlines()[:1]), 'first line of a repr is at most 80 wide',
            repr=r)
  mon.ev('reprs')
  mon.nontrivial('repr', src, repr(args), repr(given))


LIB = [
    (hk.Linear, dict(output_size=3, with_bias=False), ['output_size', 'with_bias']),
    (hk.Linear, dict(output_size=3), ['output_size']),
    (hk.nets.MLP, dict(output_sizes=[3, 4], activate_final=True), ['output_sizes', 'activate_final']),
    (hk.Conv2D, dict(output_channels=4, kernel_shape=3, stride=2, name='cc'),
     ['output_channels', 'kernel_shape', 'stride', 'name']),
    (hk.BatchNorm, dict(create_scale=True, create_offset=False, decay_rate=0.9, eps=1e-5),
     ['create_scale', 'create_offset', 'decay_rate']),
    (hk.Flatten, dict(), []),
    (hk.LSTM, dict(hidden_size=2), ['hidden_size']),
    (hk.Embed, dict(vocab_size=3, embed_dim=2), ['vocab_size', 'embed_dim']),
    (hk.GroupNorm, dict(groups=2, data_format='NCHW'), ['groups', 'data_format']),
    (hk.VanillaRNN, dict(hidden_size=2, double_bias=False), ['hidden_size', 'double_bias']),
]


def library_repr(mon):
  """repr of library modules names exactly the arguments that were given."""
  cls, kw, shown = mon.pick(LIB)
  out = []
  def f():
    out.append(repr(cls(**kw)))
  hk.transform(f).init(None)
  want = f'{cls.__name__}(' + ', '.join(f'{k}={kw[k]!r}' for k in shown) + ')'
  mon.eq(out[0].replace('\n', '').replace('    ', '').replace(',)', ')').replace(
      ',', ', ').replace(',  ', ', '), want, 'repr of a library module')
  mon.ev('reprs')
  mon.nontrivial('lib', cls.__name__, sorted(kw))


# --- typing / dataclass / abstract ---------------------------------------------

T = TypeVar('T')


def dataclass_(mon):
  """@dataclass modules: fields, defaults, equality options, inheritance."""
  variant = mon.pick('simple', 'inherit', 'factory', 'post', 'kwonly', 'order')
  val = mon.randint(1, 9)
  vals = []
  names = []

  def build(base):
    def dc(**kw):
      return dataclasses.dataclass(**kw)
    if variant == 'simple':
      @dc()
      class M(base):
        a: int
        b: int = 4
        name: Optional[str] = dataclasses.field(default=None, compare=False)
        def total(self):
          return self.a + self.b
      objs = [M(val), M(val, 5), M(a=val, b=1, name='q')]
      names.extend(getattr(o, 'module_name', None) for o in objs)
      return [(o.a, o.b, o.total()) for o in objs] + [
          [f.name for f in dataclasses.fields(M)], M(1, 2) == M(1, 2), M(1, 2) == M(2, 1)]
    if variant == 'inherit':
      @dc()
      class A(base):
        a: int
      @dc()
      class B(A):
        b: int = 2
        def __call__(self):
          return self.a * 10 + self.b
      class C(B):
        def __call__(self):
          return -super().__call__()
      o = B(val, 3)
      return [o(), C(val)(), C(1, b=val).b, isinstance(C(1), A), dataclasses.is_dataclass(C)]
    if variant == 'factory':
      @dc()
      class M(base):
        xs: list = dataclasses.field(default_factory=list)
        n: int = dataclasses.field(default=val, repr=False)
        def push(self, v):
          self.xs.append(v)
          return len(self.xs)
      p, q = M(), M()
      return [p.push(1), p.push(2), q.push(3), p.xs, q.xs, p.n, M([7]).xs]
    if variant == 'post':
      @dc()
      class M(base):
        a: int
        twice: int = dataclasses.field(init=False)
        def __post_init__(self):
          super().__post_init__()
          self.twice = 2 * self.a
      o = M(val)
      return [o.twice, o.a]
    if variant == 'kwonly':
      @dc(kw_only=True)
      class M(base):
        a: int = 1
        b: int
      try:
        M(1)
        bad = 'accepted'
      except TypeError as e:
        bad = 'TypeError'
      return [M(b=val).b, M(b=1, a=val).a, bad]
    @dc(order=True)
    class M(base):
      a: int
      b: int = 0
    objs = [M(3), M(1, 5), M(2), M(1, 2)]
    return [(o.a, o.b) for o in sorted(objs)] + [M(1) < M(2), M(2) < M(1)]

  class Plain:
    def __post_init__(self):
      pass

  want = build(Plain)
  hk.transform(lambda: vals.append(build(hk.Module))).init(None)
  mon.eq(vals[0], want, f'dataclass module ({variant}) behaves like a dataclass')
  if variant == 'simple':
    mon.eq(names, [None, None, None, 'm', 'm_1', 'q'], 'names of dataclass modules')
  @dataclasses.dataclass
  class Named(hk.Module):
    a: int = 0
    name: Optional[str] = mon.pick(None, 'dflt')
  bad = mon.pick('', ' ', 'a b', '1a', 'a-b', 'a.b', '~', 'a/b', 'é')
  mon.raises(ValueError, lambda: hk.transform(lambda: Named(name=bad)).init(None), 'invalid name of a dataclass module',
             name=bad)
  got = hk.transform(lambda: [Named(name='u').module_name, Named(1).module_name, Named(2, 'v').name,
                              Named(3, None).module_name]).apply({}, None)
  dflt = Named.name or 'named'
  mon.eq(got, ['u', dflt, 'v', 'named_1' if dflt == 'named' else 'named'], 'names of dataclass modules')
  # Parameters made by dataclass modules live under their own names.
  @dataclasses.dataclass
  class Sizes(hk.Module):
    n: int
    bias: bool = True
    def __call__(self, x):
      return hk.Linear(self.n, with_bias=self.bias)(x)
  bias = mon.chance(0.5)
  t = hk.transform(lambda x: Sizes(val, bias=bias)(x))
  params = t.init(jax.random.PRNGKey(0), np.ones((1, 2), np.float32))
  mon.eq({k: {n: v.shape for n, v in d.items()} for k, d in params.items()},
         {'sizes/linear': dict(w=(2, val), **({'b': (val,)} if bias else {}))},
         'parameters of a dataclass module')
  mon.ev('dataclasses')
  mon.nontrivial('dc', variant, val, bias)


def typing_(mon):
  """Abstract, generic and protocol modules keep Python's rules."""
  class Shape(hk.Module, abc.ABC):
    @abc.abstractmethod
    def area(self):
      """Area."""
    def describe(self):
      return f'{type(self).__name__}:{self.area()}'
    @property
    @abc.abstractmethod
    def sides(self):
      """Sides."""
  class Square(Shape):
    def __init__(self, s, name=None):
      super().__init__(name=name)
      self.s = s
    def area(self):
      return self.s ** 2
    @property
    def sides(self):
      return 4
  class Half(Shape):
    def area(self):
      return 0
  class HasArea(Protocol):
    def area(self) -> int:
      ...
  @typing.runtime_checkable
  class RT(Protocol):
    def area(self) -> int:
      ...
  class Other(hk.Module):
    pass
  class Impl(hk.Module, HasArea):
    def area(self) -> int:
      return 3
  class Box(hk.Module, Generic[T]):
    def __init__(self, v: T, name=None):
      super().__init__(name=name)
      self.v = v
    def get(self) -> T:
      return self.v
  n = mon.randint(1, 9)
  seen = []
  def f():
    mon.raises(TypeError, Shape, 'abstract module instantiated')
    mon.raises(TypeError, Half, 'module with a missing abstract property instantiated')
    s = Square(n)
    mon.eq((s.area(), s.sides, s.describe()), (n * n, 4, f'Square:{n * n}'), 'abstract methods')
    mon.eq((isinstance(s, Shape), isinstance(s, hk.Module), isinstance(s, abc.ABC),
            isinstance(Other(), Shape)), (True, True, True, False), 'isinstance of modules')
    mon.eq((isinstance(s, RT), isinstance(Other(), RT), issubclass(Square, Shape),
            issubclass(Other, Shape)), (True, False, True, False), 'protocol checks')
    mon.eq(Impl().area(), 3, 'protocol implementation')
    b = Box[int](n)
    mon.eq((b.get(), isinstance(b, Box), Box('a').get()), (n, True, 'a'), 'generic module')
    mon.eq(inspect.isabstract(Shape), True, 'isabstract')
    mon.eq(inspect.isabstract(Square), False, 'isabstract')
    mon.eq(Shape.area.__doc__, 'Area.', 'docstring of an abstract method')
    # Virtual subclass registration.
    class V:
      pass
    Shape.register(V)
    mon.eq((isinstance(V(), Shape), isinstance(V(), Square)), (True, False), 'ABC.register')
    seen.append(1)
  hk.transform(f).init(None)
  mon.eq(len(seen), 1, 'typing scenario ran')
  mon.ev('typing')
  mon.nontrivial('typing', n)


def names_and_metadata(mon):
  """Wrapping methods keeps names, docs, signatures and annotations."""
  def deco(f):
    @functools.wraps(f)
    def g(*a, **k):
      return f(*a, **k)
    g.marker = 'kept'
    return g
  class M(hk.Module):
    """The class doc."""
    def plain(self, x: int, *rest: str, k: float = 1.0, **kw: Any) -> Callable[..., int]:
      """Doc of plain."""
    @deco
    def decorated(self, y, z=3):
      """Doc of decorated."""
      return y, z
    @hk.transparent
    def see_through(self, a):
      """Doc of see_through."""
      return a
    @property
    def prop(self) -> int:
      """Doc of prop."""
      return 3
    def __call__(self, x):
      """Doc of call."""
      return x
    def __getitem__(self, k):
      """Doc of getitem."""
      return k
  for m, sig in [('plain', '(self, x: int, *rest: str, k: float = 1.0, **kw: Any) -> Callable[..., int]'),
                 ('decorated', '(self, y, z=3)'), ('see_through', '(self, a)'), ('__call__', '(self, x)'),
                 ('__getitem__', '(self, k)')]:
    f = getattr(M, m)
    mon.eq((f.__name__, f.__doc__), (m, f'Doc of {m.strip("_")}.'), f'metadata of {m}')
    mon.eq(str(inspect.signature(f)).replace('typing.', ''), sig, f'signature of {m}')
    mon.check(f.__module__ == __name__ and f.__qualname__.endswith('M.' + m), f'origin of {m}',
              got=(f.__module__, f.__qualname__))
    mon.ev('metadata')
  mon.eq(M.decorated.marker, 'kept', 'attributes of decorated methods')
  mon.eq(M.prop.__doc__, 'Doc of prop.', 'doc of a property')
  mon.eq(M.plain.__annotations__, dict(x=int, rest=str, k=float, kw=Any, **{'return': Callable[..., int]}),
         'annotations')
  mon.eq((M.__doc__, M.__name__), ('The class doc.', 'M'), 'class metadata')
  n = mon.randint(0, 99)
  def f():
    m = M()
    bound = m.decorated
    mon.eq((bound(n), bound.__self__ is m, m.see_through(n), m.prop, m(n), m[n]),
           ((n, 3), True, n, 3, n, n), 'bound methods')
    with contextlib.suppress(AttributeError):
      m.prop = 3
      mon.fail('read-only property was set')
    g = functools.partial(M.decorated, m)
    mon.eq(g(z=n, y=1), (1, n), 'unbound call with keywords')
    mon.eq([k(m) for k in (lambda s: s.name, lambda s: s.module_name)], ['m', 'm'], 'names')
  hk.transform(f).init(None)
  mon.nontrivial('meta', n)


def scopes(mon):
  """Instance methods and property accessors run in their module's scope, the rest in the caller's."""
  class Child(hk.Module):
    def __init__(self):
      super().__init__(name='child')
      hk.get_parameter('c', [], init=jnp.ones)

  def touch(n):
    hk.get_parameter(n, [], init=jnp.ones)
    Child()

  def deco(f):
    @functools.wraps(f)
    def g(*a, **k):
      return f(*a, **k)
    return g

  class Up(hk.Module):
    def inherited(self):
      touch('inherited')
    def overridden(self):
      raise AssertionError('overridden method ran')
    def sup(self):
      touch('sup')

  class M(Up):
    def __init__(self, act):
      super().__init__(name='m')
      if act == '__init__':
        touch(act)
    def __call__(self):
      touch('__call__')
    def method(self):
      touch('method')
    def overridden(self):
      touch('overridden')
    def sup(self):
      return super().sup()
    @deco
    def decorated(self):
      touch('decorated')
    @property
    def getter(self):
      touch('getter')
    @property
    def rw(self):
      touch('get')
    @rw.setter
    def rw(self, v):
      touch('set')
    @rw.deleter
    def rw(self):
      touch('del')
    lam = lambda self: touch('lam')
    def _private(self):
      touch('_private')
    def __mangled(self):
      touch('mangled')
    def _late(self):
      pass
    @staticmethod
    def static():
      touch('static')
    @classmethod
    def klass(cls):
      touch('klass')
    @hk.transparent
    def through(self):
      touch('through')
    @functools.cached_property
    def cached(self):
      touch('cached')
    def __getitem__(self, k):
      touch('item')
    def __enter__(self):
      touch('enter')
    def __exit__(self, *e):
      pass

  def enter(m):
    with m:
      pass

  def rw_del(m):
    del m.rw

  acts = {  # action -> (parameter name, function, module scope, method scope)
      '__init__': ('__init__', lambda m: None, 'm', '~/'), '__call__': ('__call__', lambda m: m(), 'm', ''),
      'method': ('method', lambda m: m.method(), 'm', '~method/'),
      'unbound': ('method', lambda m: M.method(m), 'm', '~method/'),
      'inherited': ('inherited', lambda m: m.inherited(), 'm', '~inherited/'),
      'overridden': ('overridden', lambda m: m.overridden(), 'm', '~overridden/'),
      'sup': ('sup', lambda m: m.sup(), 'm', '~sup/'),
      'decorated': ('decorated', lambda m: m.decorated(), 'm', '~decorated/'),
      'getter': ('getter', lambda m: m.getter, 'm', '~getter/'),
      'get': ('get', lambda m: m.rw, 'm', '~rw/'), 'set': ('set', lambda m: setattr(m, 'rw', 1), 'm', '~rw/'),
      'del': ('del', rw_del, 'm', '~rw/'), 'lam': ('lam', lambda m: m.lam(), 'm', '~lam/'),
      '_private': ('_private', lambda m: m._private(), 'm', '~_private/'),
      'mangled': ('mangled', lambda m: m._M__mangled(), 'm', '~_M__mangled/'),
      'static': ('static', lambda m: m.static(), '', ''), 'klass': ('klass', lambda m: m.klass(), '', ''),
      'klass_on_class': ('klass', lambda m: M.klass(), '', ''),
      'through': ('through', lambda m: m.through(), '', ''), 'cached': ('cached', lambda m: m.cached, '', ''),
      'item': ('item', lambda m: m[0], '', ''), 'enter': ('enter', enter, '', ''),
  }
  name = list(acts)[mon.index % len(acts)]
  pname, fn, scope, method = acts[name]
  class Outer(hk.Module):
    def __call__(self):
      fn(M(name))
  outer = mon.chance(0.5)
  t = hk.transform((lambda: Outer()()) if outer else (lambda: fn(M(name))))
  got = two_level(t.init(None))
  pre = 'outer/' if outer else ''
  mod = pre + scope if scope else pre.rstrip('/') or '~'
  child = f'{pre}{scope}/{method}child' if scope else f'{pre}child'
  mon.eq(sorted(got), sorted([(mod, pname), (f'{child}', 'c')]), f'scope of {name}', outer=outer)
  t.apply(t.init(None), None)
  mon.ev('scopes')
  mon.nontrivial('scope', name, outer)


SCENARIOS = {
    'scopes': (scopes, 66, 132),
    'hierarchy': (hierarchy, 260, 12000),
    'repr': (repr_, 220, 8000),
    'library_repr': (library_repr, 20, 60),
    'dataclass': (dataclass_, 48, 500),
    'typing': (typing_, 8, 40),
    'names_and_metadata': (names_and_metadata, 24, 100),
}
