"""Verdict machinery: cases, oracle assertions, recorders, shards, evidence, replay.

A *family* is a function `fn(case)`; it drives the real code with a workload drawn
from `case.rng` and states what the monitor requires with `case.check`. Every case
is a pure function of (VERIF_SEED, property, family, index), which is what a replay
file stores.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

from nnxmon import gen

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 90  # watchdog per case; a normal case takes well under 10 s


class Violation(Exception):
  pass


class CaseTimeout(BaseException):
  pass


class Recorder:
  """What the monitors saw. Merged across shards by the parent."""

  def __init__(self):
    self.events = {}
    self.cases = {}
    self.sigs = set()
    self.asserts = 0
    self.samples = []
    self.findings = {}
    self.skipped = {}

  def dump(self):
    return dict(
        events=self.events,
        cases=self.cases,
        sigs=sorted(self.sigs),
        asserts=self.asserts,
        samples=self.samples,
        findings=self.findings,
        skipped=self.skipped,
    )


def _digest(obj) -> str:
  return hashlib.blake2s(repr(obj).encode(), digest_size=8).hexdigest()


class Case:

  def __init__(self, prop, family, index, seed, tier, rec, known):
    self.prop, self.family, self.index = prop, family, index
    self.seed, self.tier, self.rec, self.known_keys = seed, tier, rec, known
    material = f"{seed}/{prop}/{family}/{index}"
    n = int.from_bytes(hashlib.blake2s(material.encode()).digest()[:8], "big")
    self.rng = random.Random(n)
    self.np = np.random.default_rng(n)
    self.trail = []
    self.sigs = []

  # -- workload helpers
  def note(self, *what):
    """Append to the case's trail, shown with a violation."""
    self.trail.append(" ".join(str(w) for w in what)[:400])
    if len(self.trail) > 60:
      del self.trail[10]

  # -- monitor side
  def event(self, kind, n=1):
    self.rec.events[kind] = self.rec.events.get(kind, 0) + n

  def sig(self, *obj):
    """Signature of the state / history observed; counted for distinctness."""
    self.sigs.append(_digest(obj))

  def sample(self, obj):
    if sum(1 for s in self.rec.samples if s["family"] == self.family) < 2:
      self.rec.samples.append(
          {"family": self.family, "index": self.index, "case": str(obj)[:600]}
      )

  def check(self, cond, msg, **detail):
    self.rec.asserts += 1
    if not cond:
      self.fail(msg, **detail)

  def eq(self, got, want, msg, **detail):
    self.rec.asserts += 1
    if not (got == want):
      self.fail(msg, got=got, want=want, **detail)

  def close(self, got, want, msg, rtol=1e-4, atol=1e-5, **detail):
    """Leafwise numerical agreement of two trees with equal structure."""
    import jax

    self.rec.asserts += 1
    g, gt = jax.tree_util.tree_flatten(got)
    w, wt = jax.tree_util.tree_flatten(want)
    if len(g) != len(w):
      self.fail(msg + ": different structure", got=gt, want=wt, **detail)
    for i, (a, b) in enumerate(zip(g, w)):
      a, b = np.asarray(a), np.asarray(b)
      if a.shape != b.shape:
        self.fail(msg + f": leaf {i} shape", got=a.shape, want=b.shape, **detail)
      # bfloat16 is of kind "V"
      a, b = (v.astype(np.float32) if v.dtype.name == "bfloat16" else v for v in (a, b))
      if a.dtype.kind not in "fc" or b.dtype.kind not in "fc":
        ok = np.array_equal(a, b)
      else:
        ok = np.allclose(
            a.astype(np.complex128) if a.dtype.kind == "c" else a.astype(np.float64),
            b.astype(np.complex128) if b.dtype.kind == "c" else b.astype(np.float64),
            rtol=rtol, atol=atol, equal_nan=True,
        )
      if not ok:
        self.fail(msg + f": leaf {i} differs", got=a, want=b, **detail)

  def raises(self, exc, fn, msg, match=None):
    """`fn()` must raise `exc`; returns the exception."""
    self.rec.asserts += 1
    try:
      out = fn()
    except exc as e:
      if match is not None and match not in str(e):
        self.fail(msg + f": message lacks {match!r}", got=str(e)[:300])
      self.event("rejection")
      return e
    except Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      names = exc.__name__ if isinstance(exc, type) else [x.__name__ for x in exc]
      self.fail(msg + f": expected {names}, got {type(e).__name__}: {e}"[:600])
    self.fail(msg + ": nothing was raised", got=repr(out)[:200])

  def fail(self, msg, **detail):
    lines = [msg]
    for k, v in detail.items():
      try:
        lines.append(f"  {k}: {v!r}"[:1500])
      except Exception as e:  # pylint: disable=broad-except
        lines.append(f"  {k}: <unprintable {type(v).__name__}: {e!r}>")
    if self.trail:
      lines.append("  trail:")
      lines += ["    " + t for t in self.trail]
    raise Violation("\n".join(lines))

  def finding(self, key, ok, msg, **detail):
    """A probe of a recorded defect: quiet only while the file lists `key`."""
    self.rec.asserts += 1
    if ok:
      return
    if key in self.known_keys:
      self.rec.findings[key] = self.known_keys[key]
    else:
      self.fail(f"{msg} [finding key {key}]", **detail)


def load_known(prop):
  path = os.path.join(ROOT, "known_findings.json")
  with open(path) as f:
    data = json.load(f)
  return {e["key"]: e["what"] for e in data["findings"] if e["property"] == prop}


def _alarm(_sig, _frm):
  raise CaseTimeout()


def run_case(mod, prop, family, index, seed, tier, rec, known, limit=CASE_LIMIT_S):
  """Returns None or the text of a violation. Raises CaseTimeout."""
  case = Case(prop, family, index, seed, tier, rec, known)
  fn = mod.FAMILIES[family]["fn"]
  gen.reset_fresh()
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(limit)
  try:
    fn(case)
    rec.cases[family] = rec.cases.get(family, 0) + 1
    if case.sigs:
      rec.sigs.add(family + ":" + _digest(case.sigs))
    return None
  except Violation as v:
    return str(v)
  except CaseTimeout:
    raise
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.format_exc()
    trail = "\n".join("    " + t for t in case.trail)
    return (
        f"unexpected {type(e).__name__} on a valid input: {str(e)[:800]}\n{tb[-3500:]}"
        f"\n  trail:\n{trail}"
    )
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)


def family_sizes(mod, tier):
  out = {}
  for name, fam in mod.FAMILIES.items():
    n = fam["quick"] if tier == "quick" else fam.get("thorough", fam["quick"] * 12)
    if n:
      out[name] = n
  return out


def shard_main(mod, prop, seed, tier, shard, nshards, outfile, budget_s):
  """Run this shard's cases; write a JSON report."""
  rec = Recorder()
  known = load_known(prop)
  report = {"violation": None, "timeout": None, "unfinished": {}}
  start = time.monotonic()
  todo = []
  for name, n in family_sizes(mod, tier).items():
    for i in range(n):
      todo.append((i / n, name, i))
  todo.sort()  # interleave the families so a cut run stays balanced
  todo = [t for j, t in enumerate(todo) if j % nshards == shard]
  for j, (_, name, i) in enumerate(todo):
    if time.monotonic() - start > budget_s:
      for _, nm, _i in todo[j:]:
        report["unfinished"][nm] = report["unfinished"].get(nm, 0) + 1
      break
    try:
      text = run_case(mod, prop, name, i, seed, tier, rec, known)
    except CaseTimeout:
      # once more with a longer limit before calling it non-termination
      try:
        text = run_case(mod, prop, name, i, seed, tier, rec, known, 2 * CASE_LIMIT_S)
      except CaseTimeout:
        frames = "".join(traceback.format_exc()[-2500:])
        text = (
            f"the operation did not finish: twice cut after {CASE_LIMIT_S} and "
            f"{2 * CASE_LIMIT_S} s (a normal case takes seconds)\n{frames}"
        )
    if text is not None:
      report["violation"] = {"family": name, "index": i, "text": text}
      break
  report["rec"] = rec.dump()
  report["wall_s"] = time.monotonic() - start
  with open(outfile + ".tmp", "w") as f:
    json.dump(report, f)
  os.replace(outfile + ".tmp", outfile)


def replay(mod, prop, path):
  with open(path) as f:
    r = json.load(f)
  rec = Recorder()
  text = run_case(
      mod, prop, r["family"], r["index"], r["seed"], r["tier"], rec, load_known(prop)
  )
  if text is None:
    print(f"replay {path}: held")
    return 0
  print(text)
  print(f"VIOLATION property={prop} replay={path}")
  return 1
