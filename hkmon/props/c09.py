"""C09: threads are isolated from each other."""
import re
import sys
import threading

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import flow as flow_lib
from hkmon import lang, probe, progs, sched, zoo
from hkmon.core import two_level

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('Jobs (random programs with scopes/getters/creators/interceptors/RNG blocks, Haiku '
        'transforms, library layers, graph/summary/RNG tools) run first alone and then in 2-4 '
        'real threads under a seeded scheduler that preempts at program ticks or at any line '
        'executed inside /repo/haiku, plus free-running stress with a tiny switch interval. '
        'Every job must return bit for bit its solo result. Non-trivial: >=5 baton switches '
        'between threads with overlapping transforms; distinct by jobs and switch sequence.')
REQUIRED = {'switches': 3000, 'threaded_jobs': 150, 'line_sites': 200, 'tool_jobs': 20,
            'shared_jobs': 40, 'spawn_probes': 20, 'free_jobs': 60}
ASSUMPTIONS = ['CPython 3.12 with the GIL; preemption between bytecodes/lines only']
WORKERS = 8


def canon(o):
  """A comparable, identity-free view of a job's result."""
  if isinstance(o, dict) or hasattr(o, 'items'):
    return ('m', tuple(sorted((str(k), canon(v)) for k, v in o.items())))
  if isinstance(o, (list, tuple)):
    return ('s', tuple(canon(v) for v in o))
  if isinstance(o, (str, int, float, bool, type(None))):
    return o
  if isinstance(o, jax.core.Tracer):
    return 'TRACER'
  a = np.asarray(o)
  return (str(a.dtype), a.shape, a.tobytes())


class Point:
  """Late-bound yield point, inert outside scheduled runs."""
  sched = None
  def __call__(self, *_):
    if self.sched is not None:
      self.sched.point('tick')


def lang_job(mon, pt, program=None):
  if program is None:
    program, _ = lang.gen_program(mon, lo=8, hi=45, ctx=2.5, scope=2, wrng=1)
  seed = mon.randint(0, 9)
  def job():
    fn, h = lang.haiku_fn(program, on_tick=pt)
    t = hk.transform_with_state(fn)
    key = jax.random.PRNGKey(seed)
    p, s = t.init(key, lang.X0)
    ev = list(h['b'].events)
    out, s2 = t.apply(p, s, key, lang.X0)
    ev += h['b'].events
    return canon((p, s, out, s2)), ev
  return job, ('lang', program)


def layer_job(mon, pt):
  e = zoo.entry(mon)
  seed = mon.randint(0, 9)
  def job():
    def f(*a):
      with hk.experimental.custom_getter(lambda n, v, c: (pt(), n(v))[1], state=True):
        return e['fn'](*a)
    t = hk.transform_with_state(f)
    key = jax.random.PRNGKey(seed)
    p, s = t.init(key, *e['args'])
    out, s2 = t.apply(p, s, key, *e['args'])
    return canon((p, s, out, s2))
  return job, ('layer', e['name'])


def flow_job(mon, pt):
  del pt
  program = flow_lib.FlowGen(mon, flow_lib.TRANS + flow_lib.CTRL, p_wrap=0.1).program()
  program['main'] = program['main'][-4:]
  x = np.asarray([2., 3., 5.], np.float32)
  def job():
    t = hk.transform_with_state(flow_lib.fn_of(program, True))
    key = jax.random.PRNGKey(3)
    p, s = t.init(key, x)
    return canon((p, s, t.apply(p, s, key, x)))
  return job, ('flow', program)


def mask(src):
  return sorted(re.sub(r'\d{5,}', '#', l) for l in src.splitlines())


def tool_job(mon, pt):
  which = mon.pick('to_dot', 'abstract_to_dot', 'eval_summary', 'tabulate', 'optimize_rng_use',
                   'lift', 'icept', 'plain', 'plain', 'nested', 'filter')
  width = mon.randint(1, 5)
  depth = mon.randint(1, 2)
  x = np.ones((2, 3), np.float32)
  def net(x):
    for i in range(depth):
      x = hk.Linear(width + i, name=f'l{width}')(x)
      pt()
      x = hk.dropout(hk.next_rng_key(), 0.5, x)
    return x.sum()
  def job():
    t = hk.transform(net)
    key = jax.random.PRNGKey(width)
    p = t.init(key, x)
    if which == 'to_dot':
      r = mask(hk.experimental.to_dot(t.apply)(p, key, x))
    elif which == 'abstract_to_dot':
      r = mask(hk.experimental.abstract_to_dot(t.apply)(p, key, x))
    elif which == 'eval_summary':
      r = [(str(i.module_details.module.module_name), i.module_details.method_name,
            sorted(i.module_details.params), str(i.output_spec))
           for i in hk.experimental.eval_summary(t)(x)]
    elif which == 'tabulate':
      r = hk.experimental.tabulate(t)(x)
    elif which == 'optimize_rng_use':
      t2 = hk.transform(lambda x: hk.experimental.optimize_rng_use(net)(x))
      r = canon((t2.init(key, x), t2.apply(p, key, x)))
    elif which == 'lift':
      t2 = hk.transform(lambda x: hk.experimental.lift(t.init, name='lifted')(hk.next_rng_key(), x))
      r = canon(t2.init(key, x))
    elif which == 'icept':
      log = []
      def ic(n, a, k, c):
        log.append((getattr(c.module, 'module_name', None), c.method_name))
        pt()
        return n(*a, **k)
      def f(x):
        with hk.experimental.intercept_methods(ic):
          return net(x)
      hk.transform(f).apply(p, key, x)
      r = log
    elif which == 'nested':
      def f(x):
        q = hk.transform(net).init(hk.next_rng_key(), x)
        return net(x) + hk.transform(net).apply(q, hk.next_rng_key(), x)
      r = canon(hk.transform(f).apply(p, key, x))
    elif which == 'filter':
      a, b = hk.data_structures.partition(lambda m, n, v: n == 'w', p)
      r = canon((a, b, hk.data_structures.merge(a, b)))
    else:
      r = canon(t.apply(p, key, x))
    return r, canon(p)
  return job, ('tool', which, width, depth)


def execute(mon, made, what, **kw):
  jobs = [j for j, _ in made]
  want = [sched.solo(j) for j in jobs]
  for w, (_, sig) in zip(want, made):
    mon.check(w[0] == 'ok', 'job failed when run alone', error=w[1:], job=sig)
  s = sched.Sched(mon.case_seed, len(jobs), **kw)
  PT.sched = s
  try:
    got, hung = s.run(jobs)
  finally:
    PT.sched = None
  mon.check(not hung, f'{what}: threads did not finish', trace=s.trace[-20:])
  mon.ev('switches', s.switches)
  mon.ev('stalls', s.stalls)
  mon.ev('line_sites', len(s.sites))
  for i, (g, w) in enumerate(zip([got[i] for i in range(len(jobs))], want)):
    mon.ev('threaded_jobs')
    mon.check(g[0] == 'ok', f'{what}: a job fails only when other threads run',
              error=g[1:], job=made[i][1], others=[m[1] for m in made])
    mon.check(g[1] == w[1], f'{what}: a job returns something else when other threads run',
              got=g[1], want=w[1], job=made[i][1])
  if s.switches >= 5:
    mon.nontrivial(what, [m[1] for m in made], s.trace)
  mon.sample(dict(jobs=[m[1][0:2] if m[1][0] != 'lang' else 'lang' for m in made],
                  switches=s.switches, stalls=s.stalls, sites=len(s.sites)))
  probe.check_outside(mon, f'{what}: main thread afterwards')
  probe.check_pristine(mon, f'{what}: main thread afterwards')


PT = Point()


def ticks(mon):
  k = mon.randint(2, 4)
  if mon.chance(0.4):
    program, _ = lang.gen_program(mon, lo=8, hi=45, ctx=2.5, scope=2, wrng=1)
    made = [lang_job(mon, PT, program) for _ in range(k)]
  else:
    made = [lang_job(mon, PT) for _ in range(k)]
  execute(mon, made, 'ticks', p_switch=mon.pick(0.2, 0.5, 0.9))


def lines(mon):
  """Preemption at any line (or bytecode) executed inside the library."""
  k = mon.randint(2, 3)
  made = [mon.pick(lang_job, layer_job, tool_job)(mon, PT) for _ in range(k)]
  if any(m[1][0] == 'tool' for m in made):
    mon.ev('tool_jobs')
  execute(mon, made, 'lines', p_switch=mon.pick(0.02, 0.1, 0.3), line=True,
          opcodes=mon.chance(0.2), max_switches=1500)


def tools(mon):
  made = [tool_job(mon, PT) for _ in range(mon.randint(2, 3))]
  mon.ev('tool_jobs', len(made))
  execute(mon, made, 'tools', p_switch=mon.pick(0.01, 0.05, 0.2), line=True, max_switches=1500)


def flows(mon):
  made = [flow_job(mon, PT) for _ in range(2)]
  execute(mon, made, 'flows', p_switch=mon.pick(0.02, 0.1), line=True, max_switches=800)


def shared(mon):
  """One Transformed object, one set of params, called from several threads."""
  program, _ = lang.gen_program(mon, lo=8, hi=40, ctx=1.5, scope=1)
  fn_log = threading.local()
  def fn(x):
    b = lang.HkBackend(program)
    w = lang.Walker(program, b, on_tick=PT)
    out = w.main(x)
    fn_log.ev = list(b.events)
    return out
  t = hk.transform_with_state(fn)
  p, s = t.init(jax.random.PRNGKey(0), lang.X0)
  made = []
  for i in range(mon.randint(2, 4)):
    x, seed, mode = lang.X0 + mon.randint(0, 3), mon.randint(0, 2), mon.pick('init', 'apply', 'apply')
    def job(x=x, seed=seed, mode=mode):
      key = jax.random.PRNGKey(seed)
      r = t.init(key, x) if mode == 'init' else t.apply(p, s, key, x)
      return canon(r), fn_log.ev
    made.append((job, ('shared', mode, seed, program)))
  mon.ev('shared_jobs', len(made))
  execute(mon, made, 'shared', p_switch=mon.pick(0.05, 0.3), line=mon.chance(0.6),
          max_switches=2000)


def spawn(mon):
  """A thread started inside a transformed function does not see its context."""
  res = {}
  nest = mon.pick('plain', 'module', 'scope', 'getter', 'icept', 'wrng', 'creator')
  def child():
    calls = probe.outside_calls()
    bad = []
    for n in sorted(calls):
      try:
        calls[n]()
        bad.append(n)
      except ValueError:
        pass
    # A transform of its own works and is unaffected by the parent's contexts.
    t = hk.transform_with_state(lambda x: probe.reference_probe(x)[0])
    p, s = t.init(jax.random.PRNGKey(1), 1.)
    out, _ = t.apply(p, s, jax.random.PRNGKey(1), 1.)
    res['child'] = (bad, sorted(two_level(p)), float(out))
  def go():
    th = threading.Thread(target=child)
    th.start()
    th.join(60)
    m = probe.ProbeMod()
    return m.module_name, hk.running_init()
  class P(hk.Module):
    def __call__(self):
      return go()
  def f():
    if nest == 'module':
      return P()()
    if nest == 'scope':
      with hk.experimental.name_scope('sc'):
        return go()
    if nest == 'getter':
      with hk.experimental.custom_getter(lambda n, v, c: n(v * 7), state=True):
        return go()
    if nest == 'creator':
      with hk.experimental.custom_creator(lambda n, s, d, i, c: n(s, d, jnp.zeros), state=True):
        return go()
    if nest == 'icept':
      with hk.experimental.intercept_methods(lambda n, a, k, c: n(*a, **k)):
        return P()()
    if nest == 'wrng':
      with hk.with_rng(jax.random.PRNGKey(3)):
        return go()
    return go()
  want = {'module': 'p/probe_mod', 'icept': 'p/probe_mod', 'scope': 'sc/probe_mod'}.get(
      nest, 'probe_mod')
  for mode in ('init', 'apply'):
    box = {}
    t = hk.transform(lambda: box.setdefault('r', f()))
    if mode == 'init':
      t.init(jax.random.PRNGKey(0))
    else:
      t.apply({}, jax.random.PRNGKey(0))
    mon.eq(box['r'], (want, mode == 'init'), 'the parent context after a child thread ran')
    bad, names, out = res['child']
    mon.eq(bad, [], 'a child thread sees the parent transform')
    mon.eq(names, [('probe_mod', 'pw'), ('sub', 'pw')], 'names in the child thread')
    mon.eq(out, 17., 'value in the child thread')
    mon.ev('spawn_probes')
  mon.nontrivial('spawn', nest)


def free(mon):
  """Free-running threads with a very small interpreter switch interval."""
  made = [mon.pick(lang_job, layer_job, tool_job, lang_job)(mon, PT) for _ in range(6)]
  jobs = [j for j, _ in made]
  want = [sched.solo(j) for j in jobs]
  for w, (_, sig) in zip(want, made):
    mon.check(w[0] == 'ok', 'job failed when run alone', error=w[1:], job=sig)
  old = sys.getswitchinterval()
  out = {}
  barrier = threading.Barrier(len(jobs))
  def go(i):
    try:
      barrier.wait(30)
      for r in range(2):
        out[i, r] = ('ok', jobs[i]())
    except BaseException as e:  # pylint: disable=broad-except
      out[i, 0] = out[i, 1] = ('err', f'{type(e).__name__}: {e}')
  sys.setswitchinterval(1e-6)
  try:
    ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in ts:
      t.start()
    for t in ts:
      t.join(120)
  finally:
    sys.setswitchinterval(old)
  for i, w in enumerate(want):
    for r in range(2):
      mon.ev('free_jobs')
      g = out.get((i, r))
      mon.check(g is not None, 'free-running threads did not finish')
      mon.check(g[0] == 'ok', 'free: a job fails only when other threads run', error=g[1:],
                job=made[i][1])
      mon.check(g[1] == w[1], 'free: a job returns something else when other threads run',
                job=made[i][1])
  probe.check_pristine(mon, 'free: main thread afterwards')
  mon.nontrivial('free', [m[1] for m in made])


SCENARIOS = {
    'ticks': (ticks, 64, 2000),
    'lines': (lines, 48, 1500),
    'tools': (tools, 40, 1000),
    'flows': (flows, 8, 200),
    'shared': (shared, 48, 1500),
    'spawn': (spawn, 14, 42),
    'free': (free, 16, 300),
}
