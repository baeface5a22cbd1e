"""C24: eval_summary and tabulate."""
import threading

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import zoo
from hkmon.core import two_level

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('Random trees of recording modules (children made in the constructor or the method, several '
        'methods, shared instances, keyword arguments, nested/None outputs, parameters and state of '
        'several dtypes) summarised by eval_summary and tabulate for plain and transformed functions, '
        'sequentially and from several threads; rows, nesting, shapes, parameter sets and totals are '
        'compared with the log the modules wrote themselves. Non-trivial: >=2 method calls; distinct '
        'by call log.')
REQUIRED = {'summaries': 80, 'flow_runs': 400, 'library': 20, 'keyword_records': 60, 'self_calls': 100, 'failed_calls': 60, 'rows': 300, 'tables': 80, 'cells': 1000, 'nested_calls': 150,
            'threads': 6, 'no_rows': 3, 'rejected': 4}
ASSUMPTIONS = ['functions take array arguments (summaries evaluate them abstractly)']

LOG = threading.local()


def log():
  if not hasattr(LOG, 'v'):
    LOG.v = []
  return LOG.v


class Boom(Exception):
  """Raised by some methods and handled by their callers."""


class Rec(hk.Module):
  """Behaves according to a spec and records every method call."""

  def __init__(self, spec, shared=None, name=None):
    super().__init__(name=name)
    self.spec = spec
    self.kids = [Rec(s, name=s['name']) for s in spec['init_kids']]
    self.shared = shared
    self.subs = set()

  def __call__(self, x, **kw):
    return self._record('__call__', (x,), kw)

  def helper(self, *args, **kw):
    return self._record('helper', args, kw, self._helper_body)

  @hk.transparent
  def _helper_body(self, args, kwargs):
    x, depth = args[0], args[1]
    return self.helper(x * 2, depth - 1) if depth else x

  @hk.transparent
  def run(self, x):
    """Makes the method call that the spec asks for."""
    if self.spec['method'] == 'other':
      return self.other(x, x[0])
    if self.spec['method'] == 'hidden':
      return self._hidden(x)
    if self.spec['method'] == 'prop':
      self.given = x
      return self.prop
    if self.spec['kw']:
      return self(x, **{n: (x if v is None else x[:0] if v is EMPTY else v[0]) for n, v in self.spec['kw'].items()})
    return self(x)

  def other(self, x, y):
    return self._record('other', (x, y), {})

  def _hidden(self, x):
    return self._record('_hidden', (x,), {})

  @property
  def prop(self):
    return self._record('prop', (), {}, lambda *_: self._body((self.given,), {}))

  @hk.transparent
  def _record(self, method, args, kwargs, body=None):
    log().append([self, method, args, kwargs, None, tuple(LOG.stack), None])
    rec = log()[-1]
    LOG.stack.insert(0, (self, method))
    try:
      out = (body or self._body)(args, kwargs)
      if self.spec['fails']:
        raise Boom(out)
    except Boom:
      rec[6] = frozenset(self.subs)
      raise
    finally:
      LOG.stack.pop(0)
    rec[4] = out
    rec[6] = frozenset(self.subs)
    for m, _ in LOG.stack:
      if m is not self:
        m.subs.add(self.module_name)
    return out

  @hk.transparent
  def _body(self, args, kwargs):
    s = self.spec
    x = args[0]
    for n, sh, dt in s['params']:
      w = hk.get_parameter(n, sh, dt, init=jnp.ones)
      x = x + w.sum().astype(x.dtype)
    if s['state']:
      c = hk.get_state('count', [2], jnp.int32, init=jnp.zeros)
      hk.set_state('count', c + 1)
    kids = self.kids + [Rec(q, name=q['name']) for q in s['call_kids']]
    if s['use_shared'] and self.shared is not None:
      kids.append(self.shared)
    for kid in kids:
      try:
        y = kid.spec['via'](kid.run, x)
      except Boom as e:
        y, = e.args
      leaves = jax.tree_util.tree_leaves(y)
      x = leaves[0] if leaves else x
    if s['helper'] is not None:
      x = self.helper(x, *s['helper'][0], **s['helper'][1])
    if s['out'] == 'none':
      return None
    if s['out'] == 'grow':
      return jnp.concatenate([x, x], 0)
    if s['out'] == 'dict':
      return dict(a=x, b=(x[0], 3))
    if s['out'] == 'empty':
      return [x, x[:0], x[0].reshape([-1])[0]]
    return x


def flow(f):
  """Marks runs through Haiku's function transforms and control flow (the log counts each trace)."""
  def g(*a):
    LOG.flows = getattr(LOG, 'flows', 0) + 1
    return f(*a)
  return g


VIA = [flow(lambda f, x: hk.jit(f)(x)), flow(lambda f, x: hk.remat(f)(x)),
       flow(lambda f, x: hk.experimental.named_call(f, name='n')(x)),
       flow(lambda f, x: jax.tree_util.tree_map(lambda v: v[0], hk.scan(lambda c, _: (c, f(x)), 0., None, length=2)[1])),
       flow(lambda f, x: hk.cond(x.sum() > 0, f, f, x)),
       flow(lambda f, x: hk.jit(hk.remat(f))(x))]
DIRECT = lambda f, x: f(x)


# Keyword names that summaries or modules might use themselves, and values that are not arrays.
KW_NAMES = ['k', 'name', 'params', 'state', 'rng', 'args', 'kwargs', 'f', 'context', 'method_name', 'module', 'x_', 'axis',
            'is_training', 'used_modules', 'next_f', 'cls', 'out']
EMPTY = ('empty',)
STATIC = [('train',), (True,), (3,), (0.5,), (('a', 1),), ({'b': 1, 'a': None},), ([1, 'z'],)]


def rand_spec(mon, depth=0, name='foo'):
  # Names never clash but are prefixes of one another (foo, foo_1, foo_1_2...).
  kid = lambda: [rand_spec(mon, depth + 1, ('bar', 'bar_q', 'bar_q_z')[j])
                 for j in range(mon.randint(0, 2 if depth < 2 else 0))]
  fails = 1 <= depth and name != 'shared' and mon.chance(0.12)
  return dict(
      via=DIRECT if fails or mon.chance(0.7) else mon.pick(VIA),
      name=None if mon.chance(0.5) else name,
      params=[(n, tuple(mon.randint(1, 4) for _ in range(mon.randint(0, 3))),
               mon.pick(jnp.float32, jnp.float32, jnp.float16, jnp.int32))
              for n in mon.py.sample(['w', 'b', 'scale', 'a'], mon.randint(0, 3))],
      state=mon.chance(0.3), init_kids=kid(), call_kids=kid(), use_shared=mon.chance(0.3),
      method=mon.pick('call', 'call', 'other', 'hidden', 'prop'), kw={n: mon.pick(None, None, EMPTY, *STATIC) for n in mon.py.sample(KW_NAMES, mon.randint(1, 3))} if mon.chance(0.4) else {},
      helper=None if mon.chance(0.7) else (
          [mon.randint(0, 2), *[mon.pick(STATIC)[0] for _ in range(mon.randint(0, 2))]],
          {n: mon.pick(STATIC)[0] for n in mon.py.sample(KW_NAMES, mon.randint(0, 2))}),
      fails=fails,
      out=mon.pick('x', 'x', 'grow', 'dict', 'empty', 'none') if depth else mon.pick('x', 'dict', 'empty', 'none'))


def program(mon):
  specs = [rand_spec(mon, 0, ('foo', 'foo_q', 'foobar')[j]) for j in range(mon.randint(1, 3))]
  use_rng = mon.chance(0.3)
  shared_spec = rand_spec(mon, 2, 'shared')
  def fn(x, scale=None):
    del log()[:]
    LOG.stack = []
    if use_rng:
      x = x + jax.random.normal(hk.next_rng_key(), x.shape)
    if scale is not None:
      x = x * scale
    shared = Rec(shared_spec, name='shared')
    for s in specs:
      y = Rec(s, shared=shared, name=s['name'])(x)
      leaves = jax.tree_util.tree_leaves(y)
      x = leaves[0] if leaves else x
    return x
  return fn


def spec_of(t):
  return jax.tree_util.tree_map(
      lambda v: (tuple(v.shape), str(v.dtype)) if hasattr(v, 'shape') and hasattr(v, 'dtype') else v, t)


def wrap(mon, fn):
  k = mon.pick('fn', 'transform', 'state', 'apply', 'init')
  if k == 'fn':
    return fn
  t = hk.transform_with_state(fn)
  if k in ('apply', 'init'):
    return getattr(t, k)
  if k == 'state':
    return t
  return hk.transform(fn) if not stateful(fn) else t


def stateful(fn):
  x = jnp.ones((2, 3))
  _, s = jax.eval_shape(hk.transform_with_state(fn).init, jax.random.PRNGKey(0), x)
  return bool(two_level(s))


def expected(fn, x, kw):
  """Shapes of all parameters/state, by plain abstract evaluation."""
  t = hk.transform_with_state(fn)
  p, s = jax.eval_shape(t.init, jax.random.PRNGKey(0), x, **kw)
  return two_level(p), two_level(s)


def under(tree, name, subs):
  return {f'{m}/{n}': (tuple(v.shape), str(v.dtype)) for (m, n), v in tree.items()
          if m == name or m.startswith(name + '/') or m in subs}


def check_summary(mon, inv, entries, params, state):
  mon.eq(len(inv), len(entries), 'one record per method call',
         got_calls=[(i.module_details.module.module_name, i.module_details.method_name) for i in inv],
         want_calls=[(e[0].module_name, e[1]) for e in entries])
  for i, (m, method, args, kwargs, out, stack, subs) in zip(inv, entries):
    d = i.module_details
    ctx = dict(module=m.module_name, method=method)
    mon.eq((d.module.module_name, d.method_name), (m.module_name, method), 'module and method, in call order')
    mon.eq(spec_of(i.args_spec), spec_of(args), 'positional arguments', **ctx)
    mon.eq(spec_of(dict(i.kwargs_spec)), spec_of(kwargs), 'keyword arguments', **ctx)
    mon.eq(spec_of(i.output_spec), spec_of(out), 'output', **ctx)
    mon.eq({k: (tuple(v.shape), str(v.dtype)) for k, v in d.params.items()}, under(params, m.module_name, subs),
           'parameters of the module and its children', **ctx)
    mon.eq({k: (tuple(v.shape), str(v.dtype)) for k, v in d.state.items()}, under(state, m.module_name, subs),
           'state of the module and its children', **ctx)
    mon.eq([(c.module.module_name, c.method_name) for c in i.call_stack],
           [(m.module_name, method)] + [(a.module_name, b) for a, b in stack], 'call stack', **ctx)
    mon.ev('rows')
    mon.ev('failed_calls', int(bool(getattr(m, 'spec', {}).get('fails'))))
    mon.ev('nested_calls', int(bool(stack)))
    mon.ev('keyword_records', int(bool(kwargs)))
    mon.ev('self_calls', int(bool(stack) and stack[0][0] is m))


def summary(mon):
  fn = program(mon)
  x = jnp.ones((mon.randint(1, 3), mon.randint(1, 3)))
  kw = dict(scale=jnp.asarray(2.)) if mon.chance(0.3) else {}
  params, state = expected(fn, x, kw)
  f = wrap(mon, fn)
  arg = x
  run = hk.experimental.eval_summary(f)
  if mon.chance(0.3):
    arg = jax.ShapeDtypeStruct(x.shape, x.dtype)
  for _ in range(mon.pick(1, 2)):
    inv = run(arg, **kw)
    entries = list(log())
    check_summary(mon, inv, entries, params, state)
  mon.ev('summaries')
  mon.ev('flow_runs', getattr(LOG, 'flows', 0))
  LOG.flows = 0
  sig = [(e[0].module_name, e[1], len(e[5])) for e in entries]
  if len(sig) > 1:
    mon.nontrivial('summary', sig)
  mon.sample(sig)


def library(mon):
  """Library modules, logged by an interceptor (which the summary knows nothing about)."""
  big = mon.index % 12 == 0
  if big:
    net = mon.pick(lambda x: hk.nets.ResNet18(3)(x, True), lambda x: hk.nets.MobileNetV1(num_classes=3)(x, True),
                   lambda x: hk.nets.ResNet50(3, resnet_v2=True)(x, False or hk.running_init()))
    parts = [(net, (jnp.ones((1, 32, 32, 3)),))]
  else:
    parts = [zoo.entry(mon, zoo.LIGHT + zoo.HEAVY) for _ in range(mon.randint(1, 3))]
    parts = [(e['fn'], e['args']) for e in parts]
  rows, stack = [], []

  def watch(next_f, args, kwargs, ctx):
    m = ctx.module
    if ctx.method_name != '__init__':
      rows.append([m, ctx.method_name, args, kwargs, None, tuple(stack), None])
      rec = rows[-1]
      stack.insert(0, (m, ctx.method_name))
      try:
        rec[4] = out = next_f(*args, **kwargs)
      finally:
        stack.pop(0)
    else:
      stack.insert(0, (m, '__init__'))
      try:
        out = next_f(*args, **kwargs)
      finally:
        stack.pop(0)
    for a, _ in stack:
      if a is not m:
        subs.setdefault(id(a), set()).add(m.module_name)
    if ctx.method_name != '__init__':
      rec[6] = frozenset(subs.get(id(m), ()))
    return out

  subs = {}

  def fn(*args):
    del rows[:], stack[:]
    subs.clear()
    with hk.experimental.intercept_methods(watch):
      return [f(*a) for (f, _), a in zip(parts, args)]

  args = [a for _, a in parts]
  t = hk.transform_with_state(fn)
  p, st = jax.eval_shape(t.init, jax.random.PRNGKey(0), *args)
  inv = hk.experimental.eval_summary(mon.pick(fn, t))(*args)
  check_summary(mon, inv, list(rows), two_level(p), two_level(st))
  mon.ev('library')
  mon.ev('summaries')
  mon.nontrivial('library', [(e[0].module_name, e[1]) for e in rows])


def dtn(dt):
  return {'float32': 'f32', 'float16': 'f16', 'int32': 's32', 'bfloat16': 'bf16'}[dt]


def fmt(v):
  if isinstance(v, dict):
    return '{' + ', '.join(f'{k!r}: {fmt(x)}' for k, x in sorted(v.items())) + '}'
  if isinstance(v, list):
    return '[' + ', '.join(fmt(x) for x in v) + ']'
  if isinstance(v, tuple) and not (len(v) == 2 and isinstance(v[0], tuple) and isinstance(v[1], str)):
    return '(' + ', '.join(fmt(x) for x in v) + (',)' if len(v) == 1 else ')')
  if isinstance(v, tuple):
    return f"{dtn(v[1])}[{','.join(map(str, v[0]))}]"
  return repr(v)


def nbytes(n):
  for unit in ('B', 'KB', 'MB', 'GB', 'TB'):
    if n < 1000 or unit == 'TB':
      return n, unit
    n /= 1000


COLS = {'module': 'Module', 'config': 'Config', 'owned_params': 'Module params', 'input': 'Input',
        'output': 'Output', 'params_size': 'Param count', 'params_bytes': 'Param bytes'}


def cell(col, e, params):
  m, method, args, kwargs, out, stack, subs = e
  if col == 'module':
    f = lambda a, b: f"{a.module_name} ({type(a).__name__}{'' if b == '__call__' else '.' + b})"
    return ['└ ' * bool(i) + f(a, b) for i, (a, b) in enumerate([(m, method)] + list(stack))]
  if col == 'config':
    return None
  own = {n: v for (mm, n), v in params.items() if mm == m.module_name}
  if col == 'owned_params':
    return [f"{n}: {fmt((tuple(v.shape), str(v.dtype)))}"
            for n, v in sorted(own.items(), key=lambda i: (-int(np.prod(i[1].shape)), i[0]))]
  if col == 'input':
    o = [', '.join(fmt(a) for a in spec_of(args))]
    if kwargs:
      o.append(', '.join(f'{k}={fmt(v)}' for k, v in spec_of(kwargs).items()))
    return o
  if col == 'output':
    return [fmt(spec_of(out))]
  sub = under(params, m.module_name, subs)
  if col == 'params_size':
    return [f'{sum(int(np.prod(s)) for s, _ in sub.values()):,}']
  total = sum(int(np.prod(s)) * np.dtype(d).itemsize for s, d in sub.values())
  v, u = nbytes(total)
  return [f'{v:.2f} {u}']


def parse_grid(text):
  rows, cur = [], None
  lines = text.splitlines()
  for n, line in enumerate(lines):
    if line.startswith('+'):
      if cur is not None:
        rows.append(cur)
      elif n:  # Rows without any text have no lines.
        rows.append([[] for _ in rows[0]])
      cur = None
    else:
      parts = [p.strip() for p in line.strip().strip('|').split('|')]
      if cur is None:
        cur = [[] for _ in parts]
      for c, p in zip(cur, parts):
        if p:
          c.append(p)
  return rows


def del_log():
  del log()[:]


def table(mon):
  fn = program(mon)
  if mon.index % 16 == 0:
    fn = lambda x: del_log() or jnp.sin(x)
  x = jnp.ones((mon.randint(1, 3), mon.randint(1, 3)))
  params, state = expected(fn, x, {})
  f = wrap(mon, fn)
  kw = {}
  cols = list(COLS)
  if mon.chance(0.6):
    cols = mon.py.sample(cols, mon.randint(1, len(cols)))
    kw['columns'] = mon.pick(tuple(cols), list(cols))
  elif mon.chance(0.3):
    kw['columns'] = None
  filters = ['has_output', 'has_params']
  if mon.chance(0.6):
    filters = mon.py.sample(filters, mon.randint(0, 2))
    kw['filters'] = filters
  elif mon.chance(0.3):
    kw['filters'] = None
  text = hk.experimental.tabulate(f, **kw)(x)
  entries = [e for e in log()
             if ('has_output' not in filters or e[4] is not None)
             and ('has_params' not in filters or under(params, e[0].module_name, e[6]))]
  if not entries:
    mon.eq(text, 'No modules matching filters.', 'empty table')
    mon.ev('no_rows')
    return
  rows = parse_grid(text)
  mon.eq([' '.join(c) for c in rows[0]], [COLS[c] for c in cols], 'column headers', text=text)
  mon.eq(len(rows) - 1, len(entries), 'one table row per recorded call', text=text)
  for row, e in zip(rows[1:], entries):
    for c, got in zip(cols, row):
      want = cell(c, e, params)
      if want is not None:
        want = ' '.join(' '.join(want).split())
        mon.eq(' '.join(' '.join(got).split()), want, f'table cell {c}', text=text)
        mon.ev('cells')
      else:
        mon.check(' '.join(got).startswith('Rec('), 'config cell', got=got)
  mon.ev('tables')
  mon.nontrivial('table', tuple(cols), tuple(filters), [(e[0].module_name, e[1]) for e in entries])


def big_counts(mon):
  """Sizes are computed without materialising arrays: very large parameters are fine."""
  n, k = mon.pick((1000, 1), (999, 1), (10**4, 10**4), (10**6, 10**5), (1024, 3)), None
  a, b = n
  dt = mon.pick(jnp.float32, jnp.float16, jnp.int32)
  class Big(hk.Module):
    def __call__(self, x):
      w = hk.get_parameter('w', [a, b], dt, init=jnp.zeros)
      return x + w[0, 0]
  text = hk.experimental.tabulate(lambda x: Big()(x), columns=['params_size', 'params_bytes'])(jnp.ones([2]))
  rows = parse_grid(text)
  v, u = nbytes(a * b * np.dtype(dt).itemsize)
  mon.eq(rows[1], [[f'{a * b:,}'], [f'{v:.2f} {u}']], 'sizes of a large parameter', text=text)
  mon.ev('tables')
  mon.nontrivial('big', a, b, str(dt))


def threads(mon):
  """The same summary function used from several threads at once."""
  def fn(x):
    return hk.Linear(x.shape[0])(hk.nets.MLP([x.shape[1], 2])(x))
  run = hk.experimental.eval_summary(fn)
  shapes = [(mon.randint(1, 9), mon.randint(1, 9)) for _ in range(4)]
  view = lambda inv: [(i.module_details.module.module_name, str(i.args_spec), str(i.output_spec),
                       str(dict(i.module_details.params)), len(i.call_stack)) for i in inv]
  want = [view(run(jnp.ones(s))) for s in shapes]
  got = [None] * 4
  bar = threading.Barrier(4)
  def work(i):
    bar.wait()
    try:
      got[i] = [view(run(jnp.ones(shapes[i]))) for _ in range(3)]
    except Exception as e:  # pylint: disable=broad-except
      got[i] = repr(e)
  ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
  [t.start() for t in ts]
  [t.join() for t in ts]
  for g, w in zip(got, want):
    mon.eq(g, [w] * 3, 'summaries made in parallel differ from sequential ones')
  mon.ev('threads')
  mon.nontrivial('threads', shapes)


def misuse(mon):
  f = lambda x: hk.Linear(2)(x)
  cases = [lambda: hk.experimental.tabulate(f, columns=['nope']),
           lambda: hk.experimental.tabulate(f, filters=['nope']),
           lambda: hk.experimental.tabulate(f, columns=['module', 'Module'])]
  mon.raises(ValueError, cases[mon.index % 3], 'unknown column or filter')
  mon.ev('rejected')
  mon.nontrivial('misuse', mon.index % 3)


SCENARIOS = {
    'summary': (summary, 110, 2500),
    'library': (library, 36, 600),
    'table': (table, 130, 2500),
    'big_counts': (big_counts, 16, 40),
    'threads': (threads, 10, 80),
    'misuse': (misuse, 6, 6),
}
