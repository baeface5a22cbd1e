"""Seeded cooperative scheduler for real threads running library code.

Exactly one registered thread holds the baton. At a yield point (an explicit call, or a
line/opcode executed inside /repo/haiku when line tracing is on) it may hand the baton to
another thread chosen by the seeded generator. A thread that waits too long without the
baton making progress (the holder is blocked on a lock of JAX or the interpreter) takes it,
so the scheduler never deadlocks; such events are counted.
"""
import random
import sys
import threading
import time

SRC = '/repo/haiku/'


class Sched:

  def __init__(self, seed, n, p_switch=0.3, line=False, opcodes=False, stall_s=2.0,
               max_switches=4000):
    self.rng = random.Random(seed)
    self.n, self.p, self.line, self.opcodes = n, p_switch, line, opcodes
    self.cv = threading.Condition()
    self.current = None
    self.alive = set()
    self.steps = 0
    self.switches = 0
    self.stalls = 0
    self.stall_s = stall_s
    self.max_switches = max_switches
    self.trace = []
    self.local = threading.local()
    self.sites = set()

  # -- worker side ---------------------------------------------------------
  def point(self, site=None):
    me = getattr(self.local, 'id', None)
    if me is None or getattr(self.local, 'busy', False):
      return
    self.local.busy = True
    try:
      with self.cv:
        self.steps += 1
        if site is not None:
          self.sites.add(site)
        if self.current == me and self.switches < self.max_switches and \
            self.rng.random() < self.p:
          others = sorted(self.alive - {me})
          if others:
            self.current = self.rng.choice(others)
            self.switches += 1
            if len(self.trace) < 400:
              self.trace.append((me, self.current))
            self.cv.notify_all()
        self._wait(me)
    finally:
      self.local.busy = False

  def _wait(self, me):
    last, t0 = self.steps, time.monotonic()
    while self.current != me:
      self.cv.wait(0.2)
      if self.current == me:
        return
      if self.steps != last:
        last, t0 = self.steps, time.monotonic()
      elif time.monotonic() - t0 > self.stall_s:
        self.stalls += 1
        self.current = me
        return

  def _tracer(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(SRC):
      return None
    if self.opcodes:
      frame.f_trace_opcodes = True
    self.point((frame.f_code.co_name, frame.f_lineno))
    return self._local_tracer

  def _local_tracer(self, frame, event, arg):
    if event in ('line', 'opcode', 'return'):
      self.point((frame.f_code.co_name, frame.f_lineno))
    return self._local_tracer

  def _main(self, i, job, out):
    self.local.id = i
    with self.cv:
      self._wait(i)
    if self.line:
      sys.settrace(self._tracer)
    try:
      out[i] = ('ok', job())
    except BaseException as e:  # pylint: disable=broad-except
      sys.settrace(None)
      import traceback
      out[i] = ('err', f'{type(e).__name__}: {e}', traceback.format_exc()[-2500:])
    finally:
      sys.settrace(None)
      self.local.id = None
      with self.cv:
        self.alive.discard(i)
        if self.current == i or self.current is None:
          self.current = self.rng.choice(sorted(self.alive)) if self.alive else None
        self.cv.notify_all()

  # -- driver side -----------------------------------------------------------
  def run(self, jobs, timeout=120):
    out = {}
    self.alive = set(range(len(jobs)))
    ts = [threading.Thread(target=self._main, args=(i, j, out), daemon=True)
          for i, j in enumerate(jobs)]
    for t in ts:
      t.start()
    with self.cv:
      self.current = self.rng.randrange(len(jobs))
      self.cv.notify_all()
    end = time.monotonic() + timeout
    for t in ts:
      t.join(max(0.1, end - time.monotonic()))
    return out, any(t.is_alive() for t in ts)


def solo(job):
  """Runs a job alone on a fresh thread."""
  out = {}
  def go():
    try:
      out['r'] = ('ok', job())
    except BaseException as e:  # pylint: disable=broad-except
      import traceback
      out['r'] = ('err', f'{type(e).__name__}: {e}', traceback.format_exc()[-2500:])
  t = threading.Thread(target=go, daemon=True)
  t.start()
  t.join(300)
  return out['r']
