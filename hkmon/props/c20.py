"""C20: initializers."""
import math

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from hkmon import ref

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('Every initializer over random shapes (rank 0-5), dtypes, arguments and axes: shape, dtype, '
        'support and determinism on each draw; large draws against the documented distribution by '
        'Kolmogorov-Smirnov distance (false-alarm probability below 1e-10 per test) with the scale '
        'recomputed from fan-in/fan-out; orthonormality and Haar symmetry of Orthogonal. '
        'Non-trivial: any array with >=2 elements; distinct by initializer and arguments.')
REQUIRED = {'draws': 150, 'distribution_tests': 80, 'orthogonal': 30, 'haar': 4, 'exact': 40,
            'rejected': 10}
ASSUMPTIONS = ['jax.random is a sound source of uniform bits']

ALPHA = 1e-10


def run(init, shape, dt, seed=0):
  f = hk.transform(lambda: init(shape, ref.np_dtype(dt)))
  return np.asarray(f.apply({}, jax.random.PRNGKey(seed)))


def phi(x):
  return 0.5 * (1 + np.vectorize(math.erf)(x / math.sqrt(2)))


def ks(mon, x, cdf, msg, **ctx):
  x = np.sort(x.ravel().astype(np.float64))
  n = x.size
  f = cdf(x)
  d = max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n))
  lim = math.sqrt(-math.log(ALPHA / 2) / (2 * n))
  mon.check(d < lim, msg, ks_distance=d, limit=lim, **ctx)
  mon.ev('distribution_tests')


class Dist:

  def __init__(self, mean, std, cdf):
    self.mean, self.std, self.cdf = mean, std, cdf

  def __call__(self, x):
    return self.cdf(x)


TRUNC_STD = .87962566103423978


def cdf_normal(mean, std):
  return Dist(mean, std, lambda x: phi((x - mean) / std))


def cdf_trunc(mean, s):
  z0, z1 = phi(np.array(-2.)), phi(np.array(2.))
  return Dist(mean, s * TRUNC_STD,
              lambda x: np.clip((phi(np.clip((x - mean) / s, -2, 2)) - z0) / (z1 - z0), 0, 1))


def cdf_uniform(lo, hi):
  return Dist((lo + hi) / 2, (hi - lo) / math.sqrt(12), lambda x: np.clip((x - lo) / (hi - lo), 0, 1))


def fans(shape):
  if len(shape) == 0:
    return 1, 1
  if len(shape) == 1:
    return shape[0], shape[0]
  rf = int(np.prod(shape[:-2]))
  return rf * shape[-2], rf * shape[-1]


def big_shape(mon):
  return mon.pick((64, 128), (128, 64), (3, 3, 16, 64), (5, 2, 2, 8, 40), (8192,), (2, 4096), (4096, 2),
                  (7, 24, 48), (16, 512), (512, 16))


def pick_init(mon):
  """(initializer, fn(shape) -> (support, cdf))."""
  k = mon.pick('normal', 'trunc', 'uniform', 'vs', 'vs', 'vs', 'us')
  if k in ('normal', 'trunc'):
    cls = hk.initializers.RandomNormal if k == 'normal' else hk.initializers.TruncatedNormal
    std, mean = mon.pick(1., 0.1, 3.), mon.pick(0., 0., 2., -5.)
    kw = {}
    if std != 1. or mon.chance(0.3):
      kw['stddev'] = std
    if mean != 0. or mon.chance(0.3):
      kw['mean'] = mean
    if k == 'normal':
      return (k, std, mean), cls(**kw), lambda sh: ((-np.inf, np.inf), cdf_normal(mean, std))
    return (k, std, mean), cls(**kw), lambda sh: ((mean - 2 * std, mean + 2 * std), cdf_trunc(mean, std))
  if k == 'uniform':
    lo, hi = mon.pick((0., 1.), (-1., 1.), (2., 5.), (-3., -1.))
    init = (hk.initializers.RandomUniform() if (lo, hi) == (0., 1.) and mon.chance(0.5)
            else hk.initializers.RandomUniform(lo, hi))
    return (k, lo, hi), init, lambda sh: ((lo, hi), cdf_uniform(lo, hi))
  if k == 'us':
    sc = mon.pick(1., 0.5, 3.)
    init = hk.initializers.UniformScaling(sc) if sc != 1. else hk.initializers.UniformScaling()
    def spec(sh):
      m = math.sqrt(3 / np.prod(sh[:-1])) * sc
      return (-m, m), cdf_uniform(-m, m)
    return (k, sc), init, spec
  sc = mon.pick(1., 2., 0.3)
  mode = mon.pick('fan_in', 'fan_out', 'fan_avg')
  dist = mon.pick('truncated_normal', 'normal', 'uniform')
  kw = {}
  if sc != 1. or mon.chance(0.3):
    kw['scale'] = sc
  if mode != 'fan_in' or mon.chance(0.3):
    kw['mode'] = mode
  if dist != 'truncated_normal' or mon.chance(0.3):
    kw['distribution'] = mon.pick(dist, dist.upper(), dist.title())
  def spec(sh):
    fi, fo = fans(sh)
    n = {'fan_in': fi, 'fan_out': fo, 'fan_avg': (fi + fo) / 2}[mode]
    s = math.sqrt(sc / max(1., n))
    if dist == 'normal':
      return (-np.inf, np.inf), cdf_normal(0, s)
    if dist == 'uniform':
      m = math.sqrt(3) * s
      return (-m, m), cdf_uniform(-m, m)
    s /= TRUNC_STD
    return (-2 * s, 2 * s), cdf_trunc(0, s)
  return (k, sc, mode, dist), hk.initializers.VarianceScaling(**kw), spec


def distribution(mon):
  desc, init, spec = pick_init(mon)
  shape = big_shape(mon)
  x = run(init, shape, 'float32', mon.randint(0, 10**6))
  mon.eq((x.shape, str(x.dtype)), (shape, 'float32'), 'shape and dtype', desc=desc)
  (lo, hi), cdf = spec(shape)
  mon.check(np.all(x >= lo - 1e-5 * (1 + abs(lo))) and np.all(x <= hi + 1e-5 * (1 + abs(hi))),
            'support', desc=desc, lo=lo, hi=hi, min=x.min(), max=x.max())
  ks(mon, x, cdf, 'distribution', desc=desc, shape=shape)
  x64 = x.astype(np.float64)
  mon.check(abs(x64.mean() - cdf.mean) < 7 * cdf.std / math.sqrt(x.size), 'mean', desc=desc,
            got=x64.mean(), want=cdf.mean)
  mon.check(abs(x64.std() / cdf.std - 1) < 7 / math.sqrt(2 * x.size), 'standard deviation', desc=desc,
            got=x64.std(), want=cdf.std)
  # every slice along every axis is distributed alike (no structure)
  for ax in range(len(shape)):
    if x.size // shape[ax] >= 200:
      i = mon.randint(0, shape[ax] - 1)
      ks(mon, np.take(x, i, ax), cdf, 'distribution of a slice', desc=desc, shape=shape, axis=ax)
  # tail mass (variance) sharper than KS
  if np.isfinite(hi):
    mon.check(x.max() > lo + 0.9 * (hi - lo) and x.min() < lo + 0.1 * (hi - lo), 'range used', desc=desc)
  mon.nontrivial(desc, shape)
  mon.sample(dict(init=desc, shape=shape))


def small(mon):
  """Support, dtype, determinism and independence for any shape/dtype, via get_parameter and directly."""
  desc, init, spec = pick_init(mon)
  shape = tuple(mon.randint(1, 5) for _ in range(mon.randint(0, 5)))
  if desc[0] == 'us' and not shape:
    shape = (3,)
  dt = mon.pick('float32', 'float32', 'float16', 'bfloat16')
  seed = mon.randint(0, 10**6)
  arg = mon.pick(shape, list(shape))
  def fn():
    if via:
      return hk.get_parameter('w', arg, ref.np_dtype(dt), init=init), hk.get_parameter(
          'v', arg, ref.np_dtype(dt), init=init)
    return init(arg, ref.np_dtype(dt)), init(arg, ref.np_dtype(dt))
  via = mon.chance(0.5)
  t = hk.transform(fn)
  key = jax.random.PRNGKey(seed)
  def draw():
    if via:
      p = t.init(key)['~']
      return p['w'], p['v']
    return t.apply({}, key)
  a, b = draw()
  (lo, hi), _ = spec(shape)
  slack = {'float32': 1e-5, 'float16': 5e-3, 'bfloat16': 3e-2}[dt]
  for v in (a, b):
    mon.eq((tuple(v.shape), str(v.dtype)), (shape, dt), 'shape and dtype', desc=desc)
    f = ref.f64(v)
    mon.check(np.isfinite(f).all(), 'finite', desc=desc)
    mon.check(np.all(f >= lo - slack * (1 + abs(lo))) and np.all(f <= hi + slack * (1 + abs(hi))),
              'support', desc=desc, dt=dt, shape=shape)
  if np.prod(shape) >= 8 and dt == 'float32':
    mon.check(not np.array_equal(a, b), 'two draws are equal', desc=desc)
    mon.check(len(np.unique(ref.f64(a))) > np.prod(shape) // 2, 'elements repeat', desc=desc)
  a2, b2 = draw()
  mon.same(a, a2, 'a draw depends only on the key', desc=desc)
  mon.same(b, b2, 'a draw depends only on the key', desc=desc)
  mon.ev('draws', 2)
  if np.prod(shape) > 1:
    mon.nontrivial('small', desc, shape, dt)


def orthogonal(mon):
  nd = mon.randint(2, 5)
  shape = tuple(mon.randint(1, 5) for _ in range(nd))
  ax = mon.pick(None, None, *range(-nd, nd))
  sc = mon.pick(None, 1., 2.5, 0.1)
  kw = {}
  if ax is not None:
    kw['axis'] = ax
  if sc is not None:
    kw['scale'] = sc
  w = run(hk.initializers.Orthogonal(**kw), shape, 'float32', mon.randint(0, 10**6))
  mon.eq((w.shape, str(w.dtype)), (shape, 'float32'), 'shape and dtype', kw=kw)
  m = np.moveaxis(w.astype(np.float64), -1 if ax is None else ax, 0)
  m = m.reshape(m.shape[0], -1)
  g = m @ m.T if m.shape[0] <= m.shape[1] else m.T @ m
  mon.close(g, (sc or 1.) ** 2 * np.eye(g.shape[0]), 'orthonormal rows or columns', shape=shape, kw=kw)
  mon.ev('orthogonal')
  if np.prod(shape) > 1:
    mon.nontrivial('orth', shape, ax, sc)


def haar(mon):
  """Uniformity: each entry of the orthogonal matrix is symmetric with variance 1/n."""
  shape, n = mon.pick([((3, 3), 3), ((2, 2), 2), ((2, 4), 4), ((4, 2), 4)])
  num = 600
  f = hk.transform(lambda: hk.initializers.Orthogonal()(shape, jnp.float32))
  keys = jax.random.split(jax.random.PRNGKey(mon.randint(0, 10**6)), num)
  q = np.asarray(jax.vmap(lambda k: f.apply({}, k))(keys), np.float64)
  z = q.mean(0) / math.sqrt(1 / (n * num))
  mon.check(np.abs(z).max() < 7, 'entries have mean zero', z=z, shape=shape)
  v = (q ** 2).mean(0) * n
  mon.check(np.abs(v - 1).max() < 0.45, 'entries have variance 1/n', v=v, shape=shape)
  if shape[0] == shape[1]:
    d = np.linalg.det(q)
    mon.check(0.3 < (d > 0).mean() < 0.7, 'both orientations occur', frac=(d > 0).mean())
  mon.ev('haar')
  mon.nontrivial('haar', shape)


def exact(mon):
  dt = mon.pick('float32', 'float16', 'bfloat16', 'int32')
  if mon.chance(0.5):
    nd = mon.randint(0, 4)
    shape = tuple(mon.randint(1, 4) for _ in range(nd))
    csh = mon.pick([(), shape, shape[-1:], shape[1:]])
    c = mon.np.integers(-8, 8, csh).astype(np.float32)
    if csh == ():
      c = mon.pick(float(c), int(c))
    x = run(hk.initializers.Constant(c), mon.pick(shape, list(shape)), dt)
    mon.same(x, np.broadcast_to(c, shape).astype(ref.np_dtype(dt)), 'Constant', shape=shape)
    mon.nontrivial('const', shape, csh, dt)
  else:
    nd = mon.randint(2, 4)
    shape = tuple(mon.randint(1, 4) for _ in range(nd))
    gain = mon.pick(None, 2., -3.)
    i = hk.initializers.Identity() if gain is None else hk.initializers.Identity(gain)
    x = run(i, mon.pick(shape, list(shape)), dt)
    want = np.zeros(shape)
    for r in range(min(shape[-2:])):
      want[..., r, r] = 1. if gain is None else gain
    if mon.chance(0.4):  # The gain may be an array that broadcasts against the result.
      gain = mon.np.integers(-4, 5, shape[mon.randint(0, nd):]).astype(np.float32) / 2
      x = run(hk.initializers.Identity(mon.pick(np.asarray, jnp.asarray)(gain)), shape, dt)
      want = np.abs(np.sign(want)) * gain
      if dt == 'int32':
        want = np.abs(np.sign(want)) * np.trunc(gain)
      mon.ev('array_gains')
    mon.same(x, want.astype(ref.np_dtype(dt)), 'Identity', shape=shape, gain=gain)
    mon.nontrivial('id', shape, np.shape(gain), dt)
  mon.ev('exact')


def misuse(mon):
  I = hk.initializers
  cases = [
      lambda: I.VarianceScaling(-1.),
      lambda: I.VarianceScaling(1., 'fan'),
      lambda: I.VarianceScaling(1., 'fan_in', 'gaussian'),
      lambda: I.Orthogonal()((3,), jnp.float32),
      lambda: I.Identity()((3,), jnp.float32),
      lambda: I.Identity()((), jnp.float32),
      lambda: I.RandomNormal()((2,), jnp.float32),
      lambda: I.VarianceScaling()((2,), jnp.float32),
      lambda: I.RandomUniform()((2,), jnp.float32),
  ]
  k = mon.index % len(cases)
  # The last three need a key.
  mon.raises(ValueError, lambda: hk.transform(cases[k]).apply({}, None), 'misuse of an initializer', case=k)
  mon.ev('rejected')
  mon.nontrivial('misuse', k)


SCENARIOS = {
    'distribution': (distribution, 80, 2000),
    'small': (small, 110, 3000),
    'orthogonal': (orthogonal, 60, 1500),
    'haar': (haar, 8, 60),
    'exact': (exact, 70, 800),
    'misuse': (misuse, 18, 36),
}
