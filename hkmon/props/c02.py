"""C02: parameter collection (init) and injection (apply) are faithful."""
import collections

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import lang, progs

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('Random programs of nested modules/methods/scopes run through the real '
        'transform and through a dict-based reference model; apply is re-run with '
        'freshly drawn distinctive values for every entry. Non-trivial: at least two '
        'parameters are created; distinct by program text.')
REQUIRED = {'init_runs': 100, 'apply_runs': 100, 'params_created': 300,
            'missing_detected': 50, 'shape_mismatch_detected': 20, 'numpy_injected': 15}
ASSUMPTIONS = ['JAX array arithmetic on small float32 integers is exact']


def _gen(mon, **kw):
  return lang.gen_program(mon, param=7, sget=0.3, sset=0.2, sinc=0.3, key=0.6, **kw)


def model(mon):
  """init/apply against the reference model, with fresh injected values."""
  program, n = _gen(mon)
  x = lang.X0 + mon.randint(0, 20)
  t, h, params, state = progs.check_init(mon, program, mon.randint(0, 50), x)
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  if len(fp) >= 2:
    mon.nontrivial(program)
  for _ in range(2):
    vp = progs.fresh_values(mon, fp)
    progs.check_apply(mon, program, t, h, vp, fs, mon.randint(0, 99), x)
  mon.sample(dict(ticks=n, params=[list(k) for k in fp]))


def containers(mon):
  """The mapping type params arrive in makes no difference; extras are ignored."""
  program, _ = _gen(mon, hi=80)
  x = lang.X0
  t, h, params, state = progs.check_init(mon, program, 3, x)
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  vp = progs.fresh_values(mon, fp)
  nested = progs.nest(vp)
  if mon.chance(0.5):
    nested['zz_unused'] = {'w': np.float32(3)}
  for m in list(nested):
    if mon.chance(0.3):
      nested[m] = dict(nested[m], zz_extra=np.ones(2, np.float32))
  kinds = [
      lambda d: d,
      hk.data_structures.to_immutable_dict,
      lambda d: collections.OrderedDict(reversed(list(d.items()))),
      lambda d: hk.data_structures.to_mutable_dict(
          hk.data_structures.to_immutable_dict(d)),
      lambda d: {m: hk.data_structures.to_immutable_dict(v) for m, v in d.items()},
      lambda d: jax.tree_util.tree_map(jnp.asarray, d),
  ]
  make = mon.pick(kinds)
  progs.check_apply(mon, program, t, h, vp, fs, 5, x, params=make(nested))
  mon.ev('container_runs')
  if len(fp) >= 2:
    mon.nontrivial('containers', program)


def missing(mon):
  """apply never creates parameters: any missing entry that is requested raises."""
  program, _ = _gen(mon, hi=80)
  x = lang.X0
  t, h, params, state = progs.check_init(mon, program, 3, x)
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  if not fp:
    return
  mon.nontrivial('missing', program)
  keys = sorted(fp)
  mon.py.shuffle(keys)
  for k in keys[:3]:
    rest = {kk: v for kk, v in fp.items() if kk != k}
    mon.raises(ValueError, lambda: t.apply(
        progs.nest(rest), progs.nest(fs), jax.random.PRNGKey(0), x),
               'apply with a missing parameter', missing=k)
    made = [e for e in h['b'].events if e[0] == 'made']
    smade = [e for e in made if e[2] != 'float32']
    mon.check(not smade, 'an initializer ran for a missing parameter in apply', made=made)
    mon.ev('missing_detected')
  # Whole bundle missing.
  m = mon.pick(sorted({k[0] for k in fp}))
  rest = {kk: v for kk, v in fp.items() if kk[0] != m}
  mon.raises(ValueError, lambda: t.apply(
      progs.nest(rest), progs.nest(fs), jax.random.PRNGKey(0), x),
             'apply with a missing module', missing=m)
  mon.raises(ValueError, lambda: t.apply(
      {}, progs.nest(fs), jax.random.PRNGKey(0), x), 'apply with empty params')
  mon.raises(ValueError, lambda: t.apply(
      None, progs.nest(fs), jax.random.PRNGKey(0), x), 'apply with params=None')


def mismatch(mon):
  """A parameter whose injected shape differs from the requested one raises."""
  program, _ = _gen(mon, hi=80)
  x = lang.X0
  t, h, params, state = progs.check_init(mon, program, 3, x)
  fp, fs = progs.np_tree(params), progs.np_tree(state)
  if not fp:
    return
  mon.nontrivial('mismatch', program)
  for _ in range(3):
    k = mon.pick(sorted(fp))
    shape = fp[k].shape
    options = [s for s in [shape + (1,), (1,) + shape, (4,), (), (2, 2), shape[::-1],
                           shape[:-1], (2,) + shape, shape + (3,), (1, 1) + shape, (3,) + shape[1:],
                           (int(np.prod(shape)),)] if s != shape]
    bad = dict(fp)
    bad[k] = np.zeros(mon.pick(options), fp[k].dtype)
    mon.raises((AssertionError, ValueError), lambda: t.apply(
        progs.nest(bad), progs.nest(fs), jax.random.PRNGKey(0), x),
               'apply with a wrongly shaped parameter', key=k, shape=bad[k].shape)
    mon.ev('shape_mismatch_detected')
  # Same name requested with two shapes within init.
  def f(s1, s2):
    a = hk.get_parameter('w', s1, init=jnp.ones)
    b = hk.get_parameter('w', s2, init=jnp.ones)
    return a, b
  s1, s2 = mon.pick([(2,), (), (1, 2)]), mon.pick([(2, 1), (3,), (2, 2)])
  mon.raises((AssertionError, ValueError), lambda: hk.transform(f).init(None, s1, s2),
             'conflicting shapes for one parameter')


def dtype_identity(mon):
  """get_parameter returns exactly the injected value: dtype and bits intact."""
  dts = ['float16', 'bfloat16', 'float32', 'int32', 'uint8', 'bool', 'complex64', 'int8']
  n = mon.randint(1, 4)
  shapes = [mon.pick(lang.SHAPES + [(0,), (2, 0)]) for _ in range(n)]
  req = [mon.pick(dts) for _ in range(n)]
  inj = [mon.pick(dts) for _ in range(n)]

  def f():
    out = []
    for i in range(n):
      out.append(hk.get_parameter(f'p{i}', shapes[i], req[i], init=jnp.ones))
      out.append(hk.get_parameter(f'p{i}', list(shapes[i]), req[i], init=jnp.zeros))
    return out

  t = hk.transform(f)
  params = t.init(None)
  mon.eq(sorted(params), ['~'], 'bundle for parameters outside modules')
  for i in range(n):
    mon.same(params['~'][f'p{i}'], jnp.ones(shapes[i], req[i]), 'created parameter')
  vals = [jnp.asarray(mon.np.integers(0, 2 if d == 'bool' else 100, size=s)).astype(d)
          for d, s in zip(inj, shapes)]
  if mon.chance(0.4):
    # NumPy values (including 64 bit ones) are injected as they are.
    vals = [np.asarray(v) for v in vals]
    vals = [v.astype(mon.pick([np.float64, np.int64, np.float16, v.dtype]))
            if v.dtype.kind in 'if' and mon.chance(0.5) else v for v in vals]
    vals = [v[()] if not v.shape and mon.chance(0.5) else v for v in vals]
    mon.ev('numpy_injected')
  special = mon.pick([None, np.nan, np.inf, -0.0])
  if special is not None:
    vals = [(np if isinstance(v, (np.ndarray, np.generic)) else jnp).full_like(v, special)
            if jnp.issubdtype(v.dtype, jnp.floating) else v for v in vals]
  got = t.apply({'~': {f'p{i}': v for i, v in enumerate(vals)}}, None)
  for i in range(n):
    mon.same(got[2 * i], vals[i], 'injected value returned by get_parameter')
    mon.same(got[2 * i + 1], vals[i], 'second get_parameter of the same name')
  mon.ev('dtype_cases')
  mon.nontrivial('dtype', shapes, req, inj, str(special))


def init_required(mon):
  """No initializer -> error; apply never runs initializers for present params."""
  ran = []
  def init(shape, dtype):
    ran.append((tuple(shape), str(jnp.dtype(dtype))))
    return jnp.ones(shape, dtype)
  shape = mon.pick(lang.SHAPES)
  reps = mon.randint(1, 4)
  class M(hk.Module):
    def __call__(self):
      for _ in range(reps):
        w = hk.get_parameter('w', shape, init=init)
      return w
  def f():
    m = M()
    m()
    return m()
  t = hk.transform(f)
  p = t.init(None)
  mon.eq(ran, [(tuple(shape), 'float32')], 'initializer runs exactly once per parameter')
  del ran[:]
  t.apply(p, None)
  mon.eq(ran, [], 'initializers never run for parameters passed to apply')
  mon.raises((AssertionError, ValueError, TypeError), lambda: hk.transform(
      lambda: hk.get_parameter('w', shape)).init(None), 'missing initializer')
  mon.nontrivial('once', shape, reps)
  mon.ev('initializer_once')


SCENARIOS = {
    'model': (model, 700, 20000),
    'containers': (containers, 200, 4000),
    'missing': (missing, 250, 4000),
    'mismatch': (mismatch, 200, 3000),
    'dtype_identity': (dtype_identity, 80, 1500),
    'init_required': (init_required, 16, 60),
}
