"""C25: to_dot and abstract_to_dot."""
import collections
import html
import re
import threading

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from haiku._src import module as module_lib
from jax import lax

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('Random functions over trees of recording modules, built from JAX primitives (several outputs, custom '
        'derivatives, jitted calls, captured values, reused arguments, parameters as arguments or captured), are '
        'drawn by to_dot and abstract_to_dot; the DOT text is parsed and compared with the log the function wrote '
        'while it ran: clusters, operations, shapes, edges, arguments, captures and outputs. Non-trivial: >=3 '
        'operations; distinct by log.')
REQUIRED = {'graphs': 150, 'abstract': 30, 'nodes': 1200, 'edges': 1500, 'clusters': 300, 'outputs': 150,
            'args': 300, 'captures': 50, 'multi': 30, 'failed_calls': 15, 'settings': 20}
ASSUMPTIONS = ['arguments are distinct array objects', 'functions use JAX primitives on every array']


class Rec(threading.local):
  pass


L = Rec()


class Scope:
  """A recorded method call: operations and nested calls, in order."""

  def __init__(self, title):
    self.title = title
    self.ops = []
    self.subs = []


class Op:

  def __init__(self, prim, outs, srcs):
    self.prim, self.outs, self.srcs = prim, outs, srcs
    self.is_out = []


class V:
  """A value with its origin."""

  def __init__(self, a, src):
    self.a, self.src = a, src


def spec(a):
  return tuple(a.shape), str(a.dtype)


def do(prim, fn, *vs):
  out = fn(*[v.a for v in vs])
  outs = list(out) if isinstance(out, (tuple, list)) else [out]
  op = Op(prim, [spec(o) for o in outs], [v.src for v in vs])
  L.stack[-1].ops.append(op)
  res = [V(o, ('op', op, i)) for i, o in enumerate(outs)]
  return res if len(res) > 1 else res[0]


def cap(a):
  return V(a, ('cap', spec(a), a))


@jax.custom_jvp
def squash(x):
  return lax.mul(lax.tanh(x), x)


squash.defjvp(lambda p, t: (squash(*p), t[0]))


@jax.custom_vjp
def squish(x):
  return lax.neg(lax.sin(x))


squish.defvjp(lambda x: (squish(x), None), lambda _, t: (t,))


class Boom(Exception):
  """Raised by some methods, carrying their result, and handled by the caller."""


class Draw(hk.Module):
  """Executes a script of operations, recording them."""

  def __init__(self, sp, name=None):
    s = Scope(None)
    L.stack[-1].subs.append(s)
    L.stack.append(s)
    super().__init__(name=name)
    s.title = f'{self.module_name} (__init__)'
    self.sp = sp
    self.kids = [Draw(q, name=q['name']) for q in sp['init_kids']]
    L.stack.pop()

  @hk.transparent
  def _go(self, method, x):
    s = Scope(self.module_name + ('' if method == '__call__' else f' ({method})'))
    L.stack[-1].subs.append(s)
    L.stack.append(s)
    x = run(self.sp, x, self)
    L.stack.pop()
    if self.sp['fails']:
      raise Boom(x)
    return x

  def __call__(self, x):
    return self._go('__call__', x)

  def other(self, x):
    return self._go('other', x)


def run(sp, x, mod=None):
  pool = [x] + L.inputs
  kids = list(mod.kids) if mod else []
  rnd = sp['rnd']
  for i, kind in enumerate(sp['ops']):
    r = rnd[i]
    y = pool[r % len(pool)]
    if kind in ('sin', 'cos', 'tanh', 'exp', 'neg', 'abs'):
      x = do(kind, getattr(lax, kind), x)
    elif kind in ('add', 'mul', 'sub', 'max'):
      x = do(kind, getattr(lax, kind), x, y)
    elif kind == 'same':
      x = do('mul', lax.mul, x, x)
    elif kind == 'sort':
      a, b = do('sort', lambda p, q: lax.sort((p, q), num_keys=1), x, y)
      x = b if r % 2 else a
      pool += [a, b]
      L.multi += 1
    elif kind == 'topk':
      a, b = do('top_k', lambda p: lax.top_k(p, 3), x)
      b = do('convert_element_type', lambda p: lax.convert_element_type(p, jnp.float32), b)
      x = b if r % 2 else a
      L.multi += 1
    elif kind == 'squash':
      t = do('tanh', lambda p: p, x)
      m = do('mul', lambda *_: squash(x.a), t, x)
      x = m
    elif kind == 'squish':
      t = do('sin', lambda p: p, x)
      x = do('neg', lambda *_: squish(x.a), t)
    elif kind == 'jit':
      x = do('pjit', jax.jit(lambda a, b: a * b + 1), x, y)
    elif kind == 'cap':
      x = do('add', lax.add, x, cap(L.consts[r % len(L.consts)]))
    elif kind == 'sum':
      s = do('reduce_sum', lambda p: lax.reduce_sum_p.bind(p, axes=(0,)), x)
      x = do('broadcast_in_dim', lambda p: lax.broadcast_in_dim(p, (3,), ()), s)
    elif kind == 'param':
      w = hk.get_parameter(f'w{r % 3}', [3], init=jnp.ones)
      name = mod.module_name if mod else '~'
      w = V(w, ('arg', 0, (name, f'w{r % 3}'))) if L.params_arg else cap(w)
      x = do('mul', lax.mul, x, w)
    elif kind == 'kid':
      if not kids:
        kids.append(Draw(sp['call_kids'][0], name=sp['call_kids'][0]['name']))
      kid = kids[r % len(kids)]
      try:
        x = kid(x) if r % 3 else kid.other(x)
      except Boom as e:
        x, = e.args
        L.failed += 1
    pool.append(x)
  return x


OPS = ['sin', 'cos', 'tanh', 'exp', 'neg', 'abs', 'add', 'mul', 'sub', 'max', 'same', 'sort', 'topk', 'squash',
       'squish', 'jit', 'cap', 'sum']


def rand_spec(mon, depth, name, params):
  n = mon.randint(0 if depth else 2, 6)
  ops = [mon.pick(*OPS) for _ in range(n)]
  if params:
    ops += ['param'] * mon.randint(0, 2)
  kids = []
  if depth < 3:
    kids = [rand_spec(mon, depth + 1, f'{name}{j}', params) for j in range(mon.randint(1 if not depth else 0, 2))]
    ops += ['kid'] * (mon.randint(1, 3) if kids else 0)
  mon.py.shuffle(ops)
  cut = mon.randint(0, len(kids)) if depth else 0
  ik, ck = kids[:cut], kids[cut:]
  if not ck and 'kid' in ops and not ik:
    ops = [o for o in ops if o != 'kid']
  return dict(ops=ops, rnd=[mon.randint(0, 99) for _ in ops], init_kids=ik, call_kids=ck, name=mon.pick(None, name),
              fails=depth > 0 and mon.chance(0.15))


# Parsing.


class G:

  def __init__(self, title):
    self.title, self.nodes, self.subs = title, [], []


def strip(label):
  parts = [html.unescape(re.sub(r'</?b>', '', p)) for p in label.split('<br/>')]
  return [p.strip() for p in parts]


def parse(dot):
  """A lenient reader of the DOT subset: clusters, labelled nodes, edges."""
  assert dot.lstrip().startswith('digraph'), dot[:80]
  head, body = re.split(r'^>$', dot, maxsplit=1, flags=re.M)
  title = strip(re.search(r'^\s*label\s*=\s*<(.*)>;', head, re.M).group(1))[0]
  root = G(title)
  stack, edges, nodes, closed = [root], [], collections.defaultdict(list), False
  for line in body.splitlines():
    line = line.strip()
    if line.startswith('subgraph '):
      g = G(None)
      stack[-1].subs.append(g)
      stack.append(g)
    elif line.startswith('}'):
      stack.pop()
      closed = not stack
    elif re.match(r'label\s*=', line):
      stack[-1].title = strip(re.match(r'label\s*=\s*<(.*)>;', line).group(1))[0]
    elif re.match(r'\w+\s*->\s*\w+', line):
      edges.append(tuple(re.match(r'(\w+)\s*->\s*(\w+)', line).groups()))
    elif re.match(r'\w+\s*\[', line):
      i, label = re.match(r'(\w+)\s*\[\s*label=<(.*?)>[,\s]+(?:id|shape)=', line).groups()
      nodes[i].append(strip(label))
      stack[-1].nodes.append((i, strip(label)))
  assert closed, 'unbalanced braces'
  return root, nodes, edges


DT = {'float32': 'f32', 'int32': 's32', 'bool': 'pred'}


def fmt(s):
  return f"{DT[s[1]]}[{','.join(map(str, s[0]))}]"


def arg_label(src):
  _, i, path = src
  return f'args[{i}]' + (': ' + '/'.join(map(str, path)) if path else '')


def check(mon, dot, root_scope, fun_name, abstract=False):
  root, nodes, edges = parse(dot)
  ctx = dict(dot='\n'.join(l for l in dot.splitlines() if not re.search('color|style|pad=', l))[-6000:])
  mon.eq(root.title, fun_name, 'title of the graph')
  where = {}
  op_ids = set()
  outputs = 0

  def walk(g, s, path):
    nonlocal outputs
    own = [n for n in g.nodes if n[1][0].split(':')[0] not in ('(reuse)',) and not n[1][0].startswith('args[')]
    if not path:
      # Argument and capture nodes also live at the top level: operations are those with a primitive name line.
      own = [n for n in own if n[1][0].startswith('output') or not re.fullmatch(r'(\w+\[[\d,]*\])|(-?[\d.einf+-]+)', n[1][0])]
    mon.eq(len(own), len(s.ops), f'operations in cluster {path or "top"}', prims=[o.prim for o in s.ops],
           drawn=[n[1] for n in own], **ctx)
    for (i, label), op in zip(own, s.ops):
      want = [op.prim] + [fmt(o) for o in op.outs]
      if label[0].startswith('output'):
        outputs += 1
        mon.check(bool(op.is_out), 'an operation is labelled as output but is not one', label=label, **ctx)
        mon.eq(set(label[0].split(', ')), set(op.is_out), 'output label', label=label, **ctx)
        label = label[1:]
        mon.ev('outputs')
      else:
        mon.check(not op.is_out, 'an output is not labelled', label=label, want=op.is_out, **ctx)
      mon.eq(label, want, 'operation name and output shapes', **ctx)
      mon.check(i not in op_ids, 'operation drawn once', **ctx)
      op_ids.add(i)
      where[id(op)] = i
      mon.ev('nodes')
    mon.eq([q.title for q in g.subs], [q.title for q in s.subs], f'clusters inside {path or "top"}', **ctx)
    for a, b in zip(g.subs, s.subs):
      mon.ev('clusters')
      walk(a, b, path + [b.title])
  walk(root, root_scope, [])

  # Every edge endpoint is a node; sources match.
  got = collections.defaultdict(list)
  for a, b in edges:
    mon.check(a in nodes and b in nodes, 'edge between defined nodes', edge=(a, b), **ctx)
    mon.check(b in op_ids, 'edges end at operations', **ctx)
    got[b].append(a)
    mon.ev('edges')
  inv = {i: o for o, i in where.items()}
  arg_uses = collections.Counter()
  used_arg_nodes = []
  caps = {}

  def each(s):
    yield from s.ops
    for q in s.subs:
      yield from each(q)
  for op in each(root_scope):
    have = []
    for a in got[where[id(op)]]:
      if a in inv:
        have.append(('op', where[inv[a]]))
      else:
        label = nodes[a][0]
        if label[0] == '(reuse)':
          label = label[1:]
        if label[0].startswith('args['):
          have.append(('arg', label[0], label[1] if len(label) > 1 else None))
          used_arg_nodes.append(a)
          arg_uses[label[0]] += 1
        else:
          have.append(('cap', ))
          caps.setdefault(a, label[0])
    want = []
    for src in op.srcs:
      if src[0] == 'op':
        want.append(('op', where[id(src[1])]))
      elif src[0] == 'arg':
        want.append(('arg', arg_label(src), fmt(((3,), 'float32'))))
      else:
        want.append(('cap',))
    mon.eq(sorted(map(str, have)), sorted(map(str, want)), f'operands of {op.prim}', **ctx)
    for a, src in [(a, s) for a in got[where[id(op)]] if a in caps for s in op.srcs if s[0] == 'cap']:
      val = src[2]
      ok = {fmt(src[1])}
      if np.size(val) == 1 and not abstract and isinstance(val, np.ndarray):
        ok = {str(val.item())}
      mon.check(caps[a] in ok, 'label of a captured value', got=caps[a], want=ok, **ctx)
      mon.ev('captures')
  mon.eq(len(used_arg_nodes), len(set(used_arg_nodes)), 'each use of an argument has its own node', **ctx)
  defined = [(i, l) for i, ls in nodes.items() for l in ls if l[0].startswith('args[') or l[0] == '(reuse)']
  mon.eq(len(defined), len(used_arg_nodes), 'argument nodes', **ctx)
  for name, n in arg_uses.items():
    labels = [l for _, l in defined if name in l[:2]]
    mon.eq(sum(l[0] != '(reuse)' for l in labels), 1, 'the first use of an argument is not marked as reuse', **ctx)
    mon.eq(len(labels), n, 'one node per use of an argument', **ctx)
    mon.ev('args', n)


def out_path(kind, path):
  if kind == 'tuple':
    return f'output[{path[0]}]' + (': ' + '/'.join(map(str, path[1:])) if path[1:] else '')
  return 'output' + (': ' + '/'.join(map(str, path)) if path else '')


def graph(mon):
  mode = mon.pick('plain', 'plain', 'apply', 'inside')
  params = mode != 'plain'
  # Modules need a transform; plain functions have none.
  sp = rand_spec(mon, 0 if params else 3, 'm', params)
  if not params:
    sp['ops'] += [mon.pick(*OPS) for _ in range(3)]
    sp['rnd'] += [mon.randint(0, 99) for _ in range(3)]
  n_args = mon.randint(1, 3)
  nested_arg = mon.chance(0.4)
  sort_out = mon.chance(0.3)
  out_kind = mon.pick('single', 'tuple', 'dict', 'nested')
  consts = [jnp.asarray([1., 2., 3.]), np.asarray([3., 1., 2.], np.float32), jnp.full((3,), 0.5)]
  box = {}

  def body(*args):
    L.stack = [Scope('top')]
    L.multi = 0
    L.failed = 0
    L.consts = consts
    L.params_arg = mode == 'apply' and box.get('apply', False)
    off = 2 if mode == 'apply' else 0
    ins = []
    for i, a in enumerate(args):
      if isinstance(a, dict):
        ins += [V(a['u'], ('arg', i + off, ('u',))), V(a['v'][1], ('arg', i + off, ('v', 1)))]
      else:
        ins.append(V(a, ('arg', i + off, ())))
    L.inputs = ins
    x = run(sp, do('neg', lax.neg, ins[0]), None) if not params else top(sp, do('neg', lax.neg, ins[0]))
    y = do('sub', lax.sub, x, ins[-1])
    if sort_out:
      y, z = do('sort', lambda p, q: lax.sort((p, q), num_keys=1), x, y)
    else:
      z = do('cos', lax.cos, y)
    if out_kind == 'single':
      out, lab = z, [(z, ())]
    elif out_kind == 'tuple':
      out, lab = (y, z), [(y, (0,)), (z, (1,))]
    elif out_kind == 'dict':
      out, lab = dict(p=z, q=[y, None]), [(z, ('p',)), (y, ('q', 0))]
    else:
      out, lab = (dict(p=z), y), [(z, (0, 'p')), (y, (1,))]
    kind = 'tuple' if isinstance(out, tuple) else 'other'
    for v, path in lab:
      v.src[1].is_out.append(out_path(kind, path))
    box['root'] = L.stack[0]
    box['multi'] = L.multi
    box['failed'] = L.failed
    return jax.tree_util.tree_map(lambda v: v.a, out, is_leaf=lambda v: isinstance(v, V))

  def top(sp, x):
    m = Draw(dict(sp, init_kids=[]), name='top')
    m.kids = []
    return m(x)

  arr = lambda k: jnp.asarray([.1, .2, .3]) * (k + 1)
  args = [arr(i) for i in range(n_args)]
  if nested_arg:
    args[-1] = dict(u=arr(7), v=(arr(8), arr(9)))
  before = module_lib.modules_with_named_call
  setting = mon.pick(True, False)
  try:
    if mode == 'plain':
      f, call, name = body, args, 'body'
    else:
      t = hk.transform(body)
      p = t.init(jax.random.PRNGKey(0), *args)
      # Distinct objects for distinct entries.
      p = {m: {n: jnp.asarray(np.arange(3) + i, jnp.float32) for i, n in enumerate(b)} for m, b in p.items()}
      box['apply'] = True
      if mode == 'apply':
        f, call, name = t.apply, [p, None] + args, 'apply_fn'
      else:
        name = 'body'
        f = None
    # Set after init: what a call under a profiler scope did is undone if it raises (as under jit).
    hk.experimental.profiler_name_scopes(enabled=setting)
    for fn in ('to_dot', 'abstract_to_dot'):
      if fn == 'abstract_to_dot' and mon.chance(0.5):
        continue
      draw = getattr(hk.experimental, fn)
      if f is not None:
        dot = draw(f)(*call)
      else:
        dot = {}
        hk.transform(lambda *a: dot.update(d=draw(body)(*a))).apply(p, None, *args)
        dot = dot['d']
      name = getattr(f, '__name__', name) if f is not None else name
      mon.eq(module_lib.modules_with_named_call, setting, 'profiler name scopes setting')
      mon.ev('settings')
      check(mon, dot, box['root'], name, abstract=fn != 'to_dot')
      mon.ev('graphs' if fn == 'to_dot' else 'abstract')
      mon.ev('multi', box['multi'])
      mon.ev('failed_calls', box['failed'])
  finally:
    hk.experimental.profiler_name_scopes(enabled=before)
  sig = []

  def flat(s):
    sig.append((s.title, [o.prim for o in s.ops]))
    for q in s.subs:
      flat(q)
  flat(box['root'])
  if sum(len(s[1]) for s in sig) >= 3:
    mon.nontrivial(mode, sig)
  mon.sample(dict(mode=mode, log=sig))


SCENARIOS = {
    'graph': (graph, 240, 5000),
}
