"""Runs cases of a family in a child interpreter started in another mode."""
import json
import os
import subprocess
import sys

CHILD = """
import importlib, json, sys
sys.dont_write_bytecode = True
sys.path[:0] = [{repo!r}, {root!r}]
sys.setrecursionlimit(3000)
from nnxmon import core
mod = importlib.import_module("checks." + {prop!r}.lower())
rec, known = core.Recorder(), core.load_known({prop!r})
text = None
for i in {indices!r}:
  text = core.run_case(mod, {prop!r}, {family!r}, i, {seed!r}, {tier!r}, rec, known)
  if text:
    break
print("RESULT " + json.dumps([text, rec.events, rec.asserts]))
"""


def python(case, flags, family, indices):
  """The cases hold in `python <flags>` as well; their events are merged."""
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  code = CHILD.format(repo=os.environ.get("NNX_REPO", "/repo"), root=root, prop=case.prop,
                      indices=list(indices), family=family, seed=case.seed, tier=case.tier)
  p = subprocess.run([sys.executable, *flags, "-c", code], capture_output=True, text=True)
  line = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
  if p.returncode or not line:
    raise RuntimeError("helper process failed: " + p.stderr[-1500:])
  text, events, asserts = json.loads(line[0][7:])
  case.check(text is None, f"python {' '.join(flags)}: {family}: {text}")
  case.rec.asserts += asserts
  for k, n in events.items():
    case.event(k, n)
