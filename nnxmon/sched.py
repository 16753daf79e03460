"""Seeded preemption of real threads: one runs at a time, and a switch may happen at every
traced step (source line or bytecode) of the library's own code.

Threads of the workload run under `sys.settrace`; only frames of files below `prefix` are
traced. The thread that holds the token consults the seeded generator at every step and may
hand the token to another live thread. A thread that blocks on a real lock while it holds
the token loses it after `STEAL_S`."""
import hashlib
import random
import sys
import threading
import time

STEAL_S = 0.02


class Scheduler:

  def __init__(self, seed, n, prefix, prob, opcodes):
    self.rng = random.Random(seed)
    self.n, self.prefix, self.prob, self.opcodes = n, prefix, prob, opcodes
    self.cond = threading.Condition()
    self.live = set(range(n))
    self.token = None
    self.steps = 0
    self.switches = 0
    self.steals = 0
    self.started = 0
    self.history = hashlib.blake2s(digest_size=8)
    self.where = set()

  # -- called by the workers
  def step(self, me, frame):
    if self.token != me:  # lost the token while blocked
      self.wait(me)
    self.steps += 1
    if self.rng.random() < self.prob and len(self.live) > 1:
      other = self.rng.choice(sorted(self.live - {me}))
      self.switches += 1
      loc = (frame.f_code.co_name, frame.f_lineno)
      self.where.add(loc)
      self.history.update(repr((me, other, loc)).encode())
      with self.cond:
        self.token = other
        self.cond.notify_all()
      self.wait(me)

  def wait(self, me):
    with self.cond:
      while self.token != me:
        seen = self.steps
        if not self.cond.wait(STEAL_S) and self.token != me and self.steps == seen:
          # the holder is blocked or inside untraced code: go on without it
          self.steals += 1
          self.token = me

  def tracer(self, me):
    prefix, opcodes, step = self.prefix, self.opcodes, self.step

    def local(frame, event, arg):
      if event == ("opcode" if opcodes else "line"):
        step(me, frame)
      return local

    def trace(frame, event, arg):
      if frame.f_code.co_filename.startswith(prefix):
        if opcodes:
          frame.f_trace_opcodes = True
          frame.f_trace_lines = False
        return local
      return None

    return trace


def run(fns, seed, prefix, prob=0.05, opcodes=False, limit=60):
  """Run the functions concurrently. Returns (results, errors, scheduler)."""
  n = len(fns)
  s = Scheduler(seed, n, prefix, prob, opcodes)
  results, errors = [None] * n, [None] * n
  barrier = threading.Barrier(n)

  def body(i):
    barrier.wait()
    with s.cond:
      s.started += 1
      if s.started == n:
        s.token = s.rng.randrange(n)
        s.cond.notify_all()
    s.wait(i)
    sys.settrace(s.tracer(i))
    try:
      results[i] = fns[i]()
    except BaseException as e:  # pylint: disable=broad-except
      errors[i] = e
    finally:
      sys.settrace(None)
      with s.cond:
        s.live.discard(i)
        if s.token == i and s.live:
          s.token = s.rng.choice(sorted(s.live))
        s.cond.notify_all()

  threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
  for t in threads:
    t.start()
  end = time.monotonic() + limit
  for t in threads:
    t.join(max(0.0, end - time.monotonic()))
  stuck = [i for i, t in enumerate(threads) if t.is_alive()]
  return results, errors, s, stuck


def alone(fn):
  """The same function in a fresh thread of its own, undisturbed."""
  box = {}

  def body():
    try:
      box["out"] = fn()
    except BaseException as e:  # pylint: disable=broad-except
      box["err"] = e

  t = threading.Thread(target=body, daemon=True)
  t.start()
  t.join(60)
  if "err" in box:
    raise box["err"]
  return box["out"]
