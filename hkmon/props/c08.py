"""C08: failures inside a transformed function leave nothing behind."""
import contextlib
import re

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import flow as flow_lib
from hkmon import lang, probe, progs, zoo
from hkmon.core import Injected, two_level

PROPERTY = 'C08'
LEVEL = 'fault_enumeration'
RULE = ('For each random program every fault point (statement, constructor, method entry and '
        'exit, initializer, getter/creator/interceptor call, transformed body) is enumerated '
        'up to a cap: a fault is injected there during init and during apply, escaping or '
        'caught inside the function; then the trace, results, the ambient context and re-runs '
        'are compared with the reference model / fault-free run. Non-trivial: a fault fired; '
        'distinct by program and fault point.')
REQUIRED = {'faults_fired': 300, 'faults_escaped': 100, 'faults_caught_inside': 60,
            'outside_probes': 300, 'pristine_probes': 60, 'flow_faults': 60, 'tool_faults': 20,
            'layer_faults': 30}
ASSUMPTIONS = ['a fault surfaces as a Python exception at an interpreter-visible point']


def choose(mon, n, cap):
  pts = list(range(n))
  if len(pts) > cap:
    pts = sorted(mon.py.sample(pts, cap))
  return pts


def enumerate_(mon):
  """Faults at every tick of a model program, in init and in apply."""
  program, n = lang.gen_program(mon, lo=8, hi=60, ctx=2, scope=2, wrng=1)
  tries = mon.chance(0.6)
  if tries:
    program = lang.add_tries(mon, program)
  x = lang.X0
  fn, h = lang.haiku_fn(program)
  t = hk.transform_with_state(fn)
  key = jax.random.PRNGKey(4)
  params, state = t.init(key, x)
  n_init = h['w'].ticks
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  out, new_state = t.apply(params, state, key, x)
  n_apply = h['w'].ticks
  cap = 10 if mon.tier == 'quick' else 40
  for mode, total in (('init', n_init), ('apply', n_apply)):
    for i in choose(mon, total, cap):
      ffn, fh = lang.haiku_fn(program, fault_at=i)
      ft = hk.transform_with_state(ffn)
      got, err = None, None
      try:
        if mode == 'init':
          got = ft.init(key, x)
        else:
          got = ft.apply(params, state, key, x)
      except Injected as e:
        err = e
      except ValueError as e:
        if 'Unable to retrieve parameter' not in str(e):
          raise
        err = 'missing parameter'  # the fault steered apply off the path taken by init
      b = fh['b']
      # Model with the same fault.
      mb, merr, mout = None, None, None
      m = lang.ModelBackend(program, keys=b.keys_seen) if mode == 'init' else \
          lang.ModelBackend(program, params=fp, state=fs, keys=b.keys_seen)
      w = lang.Walker(program, m, fault_at=i)
      try:
        mout = w.main(np.asarray(x, np.float32))
      except Injected as e:
        merr = e
      except lang.MissingParam:
        merr = 'missing parameter'
      mon.eq(str(err), str(merr), f'{mode}: what escapes for a fault at point {i}')
      lang.compare_events(mon, b.events, m.events, f'{mode} with a fault at {i}')
      mon.ev('faults_fired')
      if err is None:
        mon.ev('faults_caught_inside')
        if mode == 'init':
          mon.tree_same(got[0], progs.nest(m.params), f'params after a caught fault at {i}')
          mon.tree_same(got[1], progs.nest(m.initial), f'state after a caught fault at {i}')
        else:
          mon.same(got[0], mout, f'output after a caught fault at {i}')
          mon.tree_same(got[1], progs.nest(m.current), f'state after a caught fault at {i}')
      else:
        mon.ev('faults_escaped')
      mon.nontrivial(program, mode, i)
      if mon.chance(0.25):
        probe.check_outside(mon, f'after a fault in {mode}')
  # The fault-free program still behaves as at first.
  p2, s2 = t.init(key, x)
  mon.tree_same(p2, params, 'init after failures')
  mon.tree_same(s2, state, 'init state after failures')
  o2, ns2 = t.apply(params, state, key, x)
  mon.same(o2, out, 'apply after failures')
  mon.tree_same(ns2, new_state, 'apply state after failures')
  probe.check_outside(mon, 'after enumeration', few=False)
  probe.check_pristine(mon, 'after enumeration')
  mon.sample(dict(n_init=n_init, n_apply=n_apply, tries=tries))


def flow(mon):
  """Faults inside bodies of hk transforms / control flow."""
  program = flow_lib.FlowGen(mon, flow_lib.TRANS + flow_lib.CTRL, p_wrap=0.3).program()
  x = np.asarray([2., 3., 5.], np.float32)
  key = jax.random.PRNGKey(6)
  holder = {}
  t = hk.transform_with_state(flow_lib.fn_of(program, True, holder=holder))
  params, state = t.init(key, x)
  n_init = holder['flow'].ticks
  out, st = t.apply(params, state, key, x)
  n_apply = holder['flow'].ticks
  inside = mon.chance(0.5)
  for mode, total in (('init', n_init), ('apply', n_apply)):
    for i in choose(mon, total, 4 if mon.tier == 'quick' else 16):
      res = {}
      def f(x, i=i):
        fl = flow_lib.Flow(program, True, fault_at=i)
        if not inside:
          return fl.main(x)
        try:
          y = fl.main(x)
          res['fault'] = False
          return y
        except Injected:
          res['fault'] = True
          # The enclosing context is intact and no inner tracer leaked.
          m = probe.ProbeMod()
          with hk.experimental.name_scope('after'):
            res['scope'] = probe.ProbeMod(name='z').module_name
          res['name'] = m.module_name
          k1, k2 = hk.next_rng_key(), hk.next_rng_key()
          res['keys'] = (k1, k2)
          v = hk.get_state('post', [], init=lambda s, d: jnp.full(s, 9., d))
          hk.set_state('post', v + 1)
          res['v'] = hk.get_state('post')
          res['init'] = hk.running_init()
          return x
      ft = hk.transform_with_state(f)
      err = None
      try:
        r = ft.init(key, x) if mode == 'init' else ft.apply(params, state, key, x)
      except Injected as e:
        err = e
      mon.ev('faults_fired')
      mon.ev('flow_faults')
      if inside:
        mon.check(err is None, 'caught fault escaped')
        mon.check(res['fault'], 'the injected fault was swallowed by the library', point=i)
        mon.eq((res['name'], res['scope'], res['init']), ('probe_mod', 'after/z', mode == 'init'),
               f'context after a fault inside a transformed body ({mode})')
        for k in res['keys']:
          mon.check(not isinstance(k, jax.core.Tracer), 'leaked tracer in the key stream')
        mon.check(not np.array_equal(*map(np.asarray, res['keys'])), 'repeated key')
        mon.check(not isinstance(res['v'], jax.core.Tracer), 'leaked tracer in state')
        mon.eq(float(res['v']), 10., 'state after a caught fault')
        leaves = jax.tree_util.tree_leaves(r)
        mon.check(not any(isinstance(l, jax.core.Tracer) for l in leaves),
                  'leaked tracer in results')
        if mode == 'apply':
          for kk, vv in two_level(r[1]).items():
            np.asarray(vv)
            mon.check(kk in two_level(st) or kk == ('~', 'post'), 'stray state entry', key=kk)
        else:
          for kk, vv in list(two_level(r[0]).items()) + list(two_level(r[1]).items()):
            np.asarray(vv)
        mon.ev('faults_caught_inside')
      else:
        mon.check(err is not None, 'the injected fault was swallowed by the library', point=i)
        mon.ev('faults_escaped')
      mon.nontrivial(program, mode, i, inside)
      probe.check_outside(mon, f'after a fault in a transformed body ({mode})')
  p2, s2 = t.init(key, x)
  mon.tree_same(p2, params, 'init after failures')
  mon.tree_same(s2, state, 'init state after failures')
  (o2, _), st2 = t.apply(params, state, key, x)
  mon.same(o2, out[0], 'apply after failures')
  mon.tree_same(st2, st, 'state after failures')
  probe.check_pristine(mon, 'after transformed-body failures')


EXCS = [Injected, KeyboardInterrupt, SystemExit, StopIteration, GeneratorExit, ValueError,
        TypeError, KeyError, IndexError, AttributeError, AssertionError]


def contexts(mon):
  """Each context manager is undone on any kind of exception, at any nesting."""
  exc = mon.pick(EXCS)
  kinds = [mon.pick('scope', 'getter', 'creator', 'icept', 'wrng', 'method', 'ctor', 'jit', 'cond',
                    'scan', 'fori', 'remat', 'vmap', 'grad', 'prop', 'nested', 'lift')
           for _ in range(mon.randint(1, 4))]
  if exc in (StopIteration, GeneratorExit):
    # JAX itself turns these into RuntimeError when they cross its own generators.
    kinds = [k for k in kinds if k not in ('jit', 'remat', 'vmap', 'grad', 'cond', 'scan', 'fori')]
  caught_at = mon.randint(0, len(kinds))  # index of frame catching; 0 = outermost inside fn

  class M(hk.Module):
    def __init__(self, go=None, at_ctor=False, name=None):
      super().__init__(name=name)
      self.go = go
      if at_ctor:
        go()
    def __call__(self):
      return self.go()
    @property
    def prp(self):
      return self.go()

  def enter(d):
    """Opens context d.. and raises innermost."""
    def rest():
      return enter(d + 1)
    def guarded():
      if d == caught_at:
        try:
          return inner()
        except exc:
          return None
      return inner()
    def inner():
      if d == len(kinds):
        if exc in (KeyError, IndexError):
          return {}['nope'] if exc is KeyError else [][0]
        raise exc('boom')
      k = kinds[d]
      if k == 'scope':
        with hk.experimental.name_scope(f's{d}'):
          rest()
      elif k == 'getter':
        with hk.experimental.custom_getter(lambda n, v, c: n(v * 1000), state=True):
          rest()
      elif k == 'creator':
        with hk.experimental.custom_creator(lambda n, s, dt, i, c: n(s, dt, jnp.zeros), state=True):
          rest()
      elif k == 'icept':
        with hk.experimental.intercept_methods(lambda n, a, kw, c: n(*a, **kw)):
          M(rest, name=f'i{d}')()
      elif k == 'wrng':
        with hk.with_rng(jax.random.PRNGKey(5)):
          rest()
      elif k == 'method':
        M(rest, name=f'm{d}')()
      elif k == 'ctor':
        M(rest, True, name=f'c{d}')
      elif k == 'prop':
        _ = M(rest, name=f'p{d}').prp
      elif k == 'jit':
        hk.jit(lambda v: (rest(), v)[1])(1.)
      elif k == 'remat':
        hk.remat(lambda v: (rest(), v)[1])(1.)
      elif k == 'vmap':
        hk.vmap(lambda v: (rest(), v)[1])(jnp.ones(2))
      elif k == 'grad':
        hk.grad(lambda v: (rest(), v)[1])(1.)
      elif k == 'cond':
        hk.cond(True, lambda v: (rest(), v)[1], lambda v: v, 1.)
      elif k == 'scan':
        hk.scan(lambda c, v: (rest(), (c, v))[1], 1., jnp.ones(2))
      elif k == 'fori':
        hk.fori_loop(0, 2, lambda i, v: (rest(), v)[1], 1.)
      elif k == 'nested':
        hk.transform(rest).init(jax.random.PRNGKey(0))
      elif k == 'lift':
        hk.experimental.lift(hk.transform(rest).init, name=f'l{d}')(
            jax.random.PRNGKey(0) if hk.running_init() else None)
    return guarded()

  box = {}
  def f():
    try:
      enter(0)
      box['escaped'] = False
    except exc:
      box['escaped'] = True
    m = probe.ProbeMod()
    box['r'] = (m.module_name, float(m(1.)), hk.running_init(), hk.next_rng_key())
    hk.set_state('q', jnp.float32(2))
    box['q'] = hk.get_state('q')
    return box['r'][1]

  t = hk.transform_with_state(f)
  key = jax.random.PRNGKey(8)
  for mode in ('init', 'apply'):
    if mode == 'init':
      p, s = t.init(key)
      mon.eq(float(two_level(p)[('probe_mod', 'pw')]), 3., f'creator left behind by {kinds}')
    else:
      t.apply({'probe_mod': {'pw': jnp.float32(3)}}, {}, key)
    mon.eq(box['r'][:3], ('probe_mod', 4., mode == 'init'),
           f'context left by {exc.__name__} ({mode})', kinds=kinds, caught_at=caught_at)
    mon.check(not isinstance(box['r'][3], jax.core.Tracer), 'leaked tracer', kinds=kinds)
    mon.eq(float(box['q']), 2., f'state getter left behind ({mode})', kinds=kinds)
    mon.ev('faults_fired')
    mon.ev('faults_caught_inside')
    # Escaping completely.
    def g():
      caught = contextlib.suppress()
      with caught:
        enter(0)
      raise exc('final')
    err = None
    try:
      if mode == 'init':
        hk.transform_with_state(g).init(key)
      else:
        hk.transform_with_state(g).apply({}, {}, key)
    except BaseException as e:  # pylint: disable=broad-except
      err = e
    mon.check(isinstance(err, exc), 'the exception changed type on its way out', err=repr(err),
              want=exc.__name__, kinds=kinds)
    mon.ev('faults_escaped')
    probe.check_outside(mon, f'after {exc.__name__} escaped from {kinds}')
  probe.check_pristine(mon, f'after {exc.__name__}')
  mon.nontrivial('ctx', exc.__name__, kinds, caught_at)


def dot_text(src):
  """Graph text with object ids masked, order-insensitive."""
  return sorted(re.sub(r'\d{5,}', '#', line) for line in src.splitlines())


def tools(mon):
  """Tools that run user functions under hooks clean up when those fail."""
  which = mon.pick('to_dot', 'abstract_to_dot', 'tabulate', 'eval_summary', 'optimize_rng_use',
                   'profiler', 'lift', 'transform_and_run', 'eval_shape', 'named_call')
  exc = mon.pick(Injected, KeyboardInterrupt, ValueError)
  where = mon.pick('method', 'main')
  x = jnp.ones((2, 3))
  def good(x):
    return hk.nets.MLP([3, 2])(x).sum()
  class Bad(hk.Module):
    def __call__(self, x):
      hk.Linear(2)(x)
      hk.next_rng_key()
      raise exc('boom')
  def bad(x):
    hk.next_rng_key()
    hk.nets.MLP([3])(x)
    if where == 'main':
      raise exc('boom')
    return Bad()(x)
  tg = hk.transform(good)
  key = jax.random.PRNGKey(1)
  params = tg.init(key, x)
  ref = tg.apply(params, None, x)
  dot_ref = dot_text(hk.experimental.to_dot(hk.without_apply_rng(tg).apply)(params, x))
  rows_ref = len(hk.experimental.eval_summary(tg)(x))
  tb = hk.transform(bad)
  def attempt():
    if which == 'to_dot':
      hk.experimental.to_dot(lambda x: tb.init(key, x))(x)
    elif which == 'abstract_to_dot':
      hk.experimental.abstract_to_dot(lambda x: tb.init(key, x))(x)
    elif which == 'tabulate':
      hk.experimental.tabulate(tb)(x)
    elif which == 'eval_summary':
      hk.experimental.eval_summary(tb)(x)
    elif which == 'optimize_rng_use':
      hk.transform(lambda x: hk.experimental.optimize_rng_use(bad)(x)).init(key, x)
    elif which == 'profiler':
      hk.experimental.profiler_name_scopes(True)
      try:
        tb.init(key, x)
      finally:
        hk.experimental.profiler_name_scopes(False)
    elif which == 'lift':
      hk.transform(lambda x: hk.experimental.lift(tb.init)(key, x)).init(key, x)
    elif which == 'transform_and_run':
      hk.testing.transform_and_run(bad)(x)
    elif which == 'eval_shape':
      hk.transform(lambda x: hk.eval_shape(bad, x)).init(key, x)
    else:
      hk.transform(lambda x: hk.experimental.named_call(bad, name='n')(x)).init(key, x)
  for _ in range(2):
    err = None
    try:
      attempt()
    except BaseException as e:  # pylint: disable=broad-except
      err = e
    mon.check(isinstance(err, exc) and str(err) == 'boom', f'{which}: user error changed',
              err=repr(err))
    mon.ev('faults_fired')
    mon.ev('tool_faults')
  probe.check_outside(mon, f'after {which} failed', few=False)
  probe.check_pristine(mon, f'after {which} failed')
  mon.same(tg.apply(params, None, x), ref, f'apply after {which} failed')
  p2 = tg.init(key, x)
  mon.tree_same(p2, params, f'init after {which} failed')
  mon.eq(dot_text(hk.experimental.to_dot(hk.without_apply_rng(tg).apply)(params, x)), dot_ref,
         f'to_dot after {which} failed')
  mon.eq(len(hk.experimental.eval_summary(tg)(x)), rows_ref, f'eval_summary after {which} failed')
  mon.nontrivial('tool', which, exc.__name__, where)


def layers(mon):
  """Library layers given a failing initializer / input: context survives."""
  e = zoo.entry(mon)
  key = jax.random.PRNGKey(2)
  t = hk.transform_with_state(e['fn'])
  p, s = t.init(key, *e['args'])
  out, s2 = t.apply(p, s, key, *e['args'])
  counter = {'n': 0}
  # A creator / getter that fails at its k-th use hits every parameter and state site.
  def run(limit, mode):
    counter['n'] = 0
    def hit():
      counter['n'] += 1
      if counter['n'] > limit:
        raise Injected('x')
    def f(*a):
      def getter(n, v, c):
        hit()
        return n(v)
      def creator(n, sh, dt, i, c):
        hit()
        return n(sh, dt, i)
      def icept(n, ar, kw, c):
        hit()
        return n(*ar, **kw)
      with hk.experimental.custom_getter(getter, state=True), \
           hk.experimental.custom_creator(creator, state=True), \
           hk.experimental.intercept_methods(icept):
        return e['fn'](*a)
    tt = hk.transform_with_state(f)
    if mode == 'init':
      return tt.init(key, *e['args'])
    return tt.apply(p, s, key, *e['args'])
  for mode in ('init', 'apply'):
    run(10**9, mode)
    total = counter['n']
    for i in choose(mon, total, 4 if mon.tier == 'quick' else 30):
      try:
        run(i, mode)
        mon.fail('an injected fault was swallowed', layer=e['name'], point=i)
      except Injected:
        pass
      mon.ev('faults_fired')
      mon.ev('layer_faults')
      mon.ev('faults_escaped')
      mon.nontrivial('layer', e['name'], mode, i)
    probe.check_outside(mon, f'after a fault in {e["name"]}')
  o2, s3 = t.apply(p, s, key, *e['args'])
  mon.same(o2, out, f'{e["name"]} after failures')
  mon.tree_same(s3, s2, f'{e["name"]} state after failures')
  probe.check_pristine(mon, f'after faults in {e["name"]}')


SCENARIOS = {
    'enumerate': (enumerate_, 64, 1500),
    'flow': (flow, 40, 800),
    'contexts': (contexts, 96, 2000),
    'tools': (tools, 32, 200),
    'layers': (layers, 40, 300),
}
