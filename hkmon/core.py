"""Monitor runtime: verdicts, event counters, deterministic case seeding.

A *property module* (hkmon/props/cNN.py) defines

  PROPERTY  = "C01"
  LEVEL     = "exploration" | "fault_enumeration"
  RULE      = how cases are generated / what is non-trivial
  SCENARIOS = {name: (fn, quick_count, thorough_count)}   fn(mon) runs one case
  REQUIRED  = {event_name: minimum}    below which a run is inconclusive
  ASSUMPTIONS = [...]

Each case is identified by (property, scenario, index, VERIF_SEED) and derives all
of its randomness from that, so that a replay file is just these four values.
"""
import collections
import hashlib
import json
import random

import numpy as np


class Violation(Exception):
  """The oracle observed an execution that breaks the property."""

  def __init__(self, message, **ctx):
    super().__init__(message)
    self.message = message
    self.ctx = ctx


class Injected(Exception):
  """Fault injected by a harness."""


def stable_hash(*parts):
  h = hashlib.sha256('\x1f'.join(map(str, parts)).encode()).digest()
  return int.from_bytes(h[:8], 'little')


def short(x, n=1500):
  try:
    s = x if isinstance(x, str) else repr(x)
  except Exception as e:  # repr of a broken object must not hide a verdict
    s = f'<unreprable {type(x).__name__}: {e}>'
  return s if len(s) <= n else s[:n] + f'...<{len(s)} chars>'


class Mon:
  """Per-case monitor. Collects events and decides."""

  def __init__(self, prop, scenario, index, seed, tier):
    self.prop, self.scenario, self.index = prop, scenario, index
    self.seed, self.tier = seed, tier
    s = stable_hash(prop, scenario, index, seed)
    self.py = random.Random(s)
    self.np = np.random.default_rng(s)
    self.case_seed = s
    self.events = collections.Counter()
    self.sigs = set()
    self.samples = []
    self.note = {}

  # -- generation helpers -------------------------------------------------
  def pick(self, *options):
    if len(options) == 1 and isinstance(options[0], (list, tuple)):
      options = options[0]
    return options[self.py.randrange(len(options))]

  def chance(self, p):
    return self.py.random() < p

  def randint(self, lo, hi):
    """Inclusive."""
    return self.py.randint(lo, hi)

  def normal(self, shape, scale=1.0, dtype=np.float32):
    return (self.np.standard_normal(shape) * scale).astype(dtype)

  # -- observation --------------------------------------------------------
  def ev(self, kind, n=1):
    self.events[kind] += n

  def nontrivial(self, *sig):
    """Registers this case (or sub-case) as a distinct, non-trivial one."""
    self.sigs.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

  def sample(self, obj):
    if len(self.samples) < 1:
      self.samples.append(short(obj, 600))

  # -- oracles ------------------------------------------------------------
  def fail(self, message, **ctx):
    raise Violation(message, **{k: short(v) for k, v in ctx.items()})

  def check(self, ok, message, **ctx):
    self.events['oracle'] += 1
    if not ok:
      self.fail(message, **ctx)

  def eq(self, got, want, message, **ctx):
    self.check(got == want, message, got=got, want=want, **ctx)

  def same(self, got, want, message, **ctx):
    """Exact array equality, including shape and dtype (NaN equals NaN)."""
    g, w = np.asarray(got), np.asarray(want)
    ok = g.shape == w.shape and g.dtype == w.dtype
    if ok:
      ok = g.tobytes() == w.tobytes() or bool(
          np.array_equal(g, w, equal_nan=g.dtype.kind in 'fc'))
    self.check(ok, message, got=g, want=w, **ctx)

  def close(self, got, want, message, rtol=2e-4, atol=2e-4, **ctx):
    g, w = np.asarray(got), np.asarray(want)
    self.events['oracle'] += 1
    if g.shape != w.shape:
      self.fail(message + ': shape', got=g.shape, want=w.shape, **ctx)
    g64, w64 = g.astype(np.float64), w.astype(np.float64)
    if not np.allclose(g64, w64, rtol=rtol, atol=atol, equal_nan=True):
      err = np.max(np.abs(g64 - w64)) if g64.size else 0
      self.fail(message, max_abs_err=float(err), got=g64, want=w64, **ctx)

  def tree_same(self, got, want, message, **ctx):
    gl, wl = two_level(got), two_level(want)
    self.check(sorted(gl) == sorted(wl), message + ': entries differ',
               missing=sorted(set(wl) - set(gl)), extra=sorted(set(gl) - set(wl)),
               **ctx)
    for k in wl:
      self.same(gl[k], wl[k], f'{message}: value of {k}', **ctx)

  def tree_close(self, got, want, message, **kw):
    gl, wl = two_level(got), two_level(want)
    self.check(sorted(gl) == sorted(wl), message + ': entries differ',
               missing=sorted(set(wl) - set(gl)), extra=sorted(set(gl) - set(wl)))
    for k in wl:
      self.close(gl[k], wl[k], f'{message}: value of {k}', **kw)

  def raises(self, types, fn, message, match=None, **ctx):
    """fn must raise one of `types` (and nothing else)."""
    self.events['oracle'] += 1
    try:
      out = fn()
    except types as e:
      if match is not None and match.lower() not in str(e).lower():
        self.fail(message + ': unexpected error text', error=e, **ctx)
      return e
    except Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      self.fail(f'{message}: raised {type(e).__name__} instead', error=e, **ctx)
    self.fail(message + ': no error was raised', result=out, **ctx)


def two_level(t):
  """{(module, name): leaf} for a Haiku params/state mapping."""
  out = {}
  for m in t:
    for n in t[m]:
      out[(m, n)] = t[m][n]
  return out


def dump_json(path, obj):
  with open(path, 'w') as f:
    json.dump(obj, f, indent=1, default=str)
    f.write('\n')
