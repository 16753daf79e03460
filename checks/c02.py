"""C02: the state of a module lists every node exactly once, at canonical paths."""
import hashlib
import os
import subprocess
import sys

import jax
import numpy as np

import nnx
from nnxmon import gen

RULE = (
    "Random module graphs built in two random attribute insertion orders; the reported "
    "state (get_state, partition, mutable_state_dict, filter, Pure) is compared with the "
    "paths and values computed from the abstract graph; digests from processes with "
    "different hash seeds are compared; non-trivial = distinct graph with >= 1 node."
)
NEED = {"state_entry": 1500, "shared_node": 60, "insertion_orders": 300, "process": 6}


def layout(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=rng.choice([1, 3, 6, 9, 9, 30]), share=0.6)
  case.note(gen.recipe_str(recipe))
  case.sample(gen.recipe_str(recipe))
  root_i = 0 if rng.random() < 0.7 else rng.randrange(len(recipe))
  entries, first = gen.expected_layout(recipe, root_i)
  m1 = gen.build(recipe, rng)[root_i]
  m2 = gen.build(recipe, rng)[root_i]
  case.event("insertion_orders")
  case.event("state_entry", len(entries))
  edges = [s[1] for node in recipe for s in node["attrs"].values() if s[0] == "sub"]
  if len(set(edges)) < len(edges):
    case.event("shared_node")
  if entries:
    case.sig(gen.recipe_sig(recipe), root_i)
  want = {path: gen.spec_fp(spec) for path, _, _, spec in entries}
  case.eq(len(want), len(entries), "harness: path collision")
  for m in (m1, m2):
    state = m.get_state()
    case.eq(list(state.keys()), sorted(want), "paths of get_state (order included)")
    case.eq({k: gen.fp(v) for k, v in state.items()}, want, "contents of get_state")
    case.eq(len(state), len(want), "len(state)")
    case.check(all(p in state for p in want), "membership")
    case.check("no/such/path" not in state, "membership of an absent path")
    state2, _ = m.partition()
    case.eq(gen.fp(state2), gen.fp(state), "partition()[0] vs get_state()")
    case.eq(list(m.mutable_state_dict()), [p for p, *_ in entries],
            "paths of mutable_state_dict")
    case.eq(gen.fp(m.filter(...)), gen.fp(state), "filter(...)")
    pure = m.partition()
    case.eq(gen.fp(pure.get_state()), gen.fp(state), "Pure.get_state")
    filters, _ = gen.rand_exhaustive(rng)
    p = m.partition(*filters)
    case.eq(gen.fp(p.get_state()), gen.fp(state), "Pure(states...).get_state")
  # the two builds are indistinguishable, leaf order included
  s1, d1 = m1.partition()
  s2, d2 = m2.partition()
  case.eq(d1, d2, "insertion order changes the ModuleDef")
  case.eq(list(s1), list(s2), "insertion order changes the state order")
  if all(gen.jax_only_spec(s) for _, _, _, s in entries):
    l1, t1 = jax.tree_util.tree_flatten(s1)
    l2, t2 = jax.tree_util.tree_flatten(s2)
    case.eq(t1, t2, "insertion order changes the treedef")
    case.eq([gen.fp(x) for x in l1], [gen.fp(x) for x in l2], "leaf order")
    case.event("leaf_order")


def values_are_live(case):
  """The state reflects the attributes as they are now (no stale caching)."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=4)
  mods = gen.build(recipe, rng)
  root = mods[0]
  entries, _ = gen.expected_layout(recipe)
  if not entries:
    return
  for _ in range(4):
    op = rng.choice(["set", "del", "new", "node_to_static", "sub"])
    entries, first = gen.expected_layout(recipe)
    i = rng.choice(list(first))
    attrs = recipe[i]["attrs"]
    if op == "set":
      cand = [n for n, s in attrs.items() if s[0] == "var"]
      if not cand:
        continue
      n = rng.choice(cand)
      s = attrs[n]
      v = gen.rand_array(rng)
      setattr(mods[i], n, v)
      attrs[n] = ("var", s[1], v, s[3])
    elif op == "del":
      cand = [n for n, s in attrs.items() if s[0] != "sub"]
      if not cand:
        continue
      n = rng.choice(cand)
      delattr(mods[i], n)
      del attrs[n]
    elif op == "new":
      n = f"n{gen.fresh()}"
      s = gen.rand_attr(rng)
      setattr(mods[i], n, gen.make_value(s))
      attrs[n] = s
    elif op == "node_to_static":
      cand = [n for n, s in attrs.items() if s[0] == "arr"]
      if not cand:
        continue
      n = rng.choice(cand)
      setattr(mods[i], n, "static now")
      attrs[n] = ("static", "static now")
    elif op == "sub":
      n = f"s{gen.fresh()}"
      j = rng.randrange(len(mods))
      setattr(mods[i], n, mods[j])
      attrs[n] = ("sub", j)
    case.note(op, i)
    entries, _ = gen.expected_layout(recipe)
    want = {path: gen.spec_fp(spec) for path, _, _, spec in entries}
    case.eq({k: gen.fp(v) for k, v in root.get_state().items()}, want,
            f"state after {op}")
    case.event("live_update")
  case.sig(gen.recipe_sig(recipe), "live")


def for_each(case):
  """for_each visits every module object of the given type exactly once."""
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=8, share=0.7)
  mods = gen.build(recipe, rng)
  _, first = gen.expected_layout(recipe)
  t = rng.choice([nnx.Module, gen.M0, gen.M1, gen.M2, nnx.Dict])
  seen = []
  mods[0].for_each(t, lambda m: seen.append(id(m)))
  want = sorted(id(mods[i]) for i in first if isinstance(mods[i], t))
  case.eq(sorted(seen), want, "modules visited by for_each", type=t)
  case.event("for_each_visit", len(seen))
  case.sig(gen.recipe_sig(recipe), t.__name__)


CHILD = """
import sys, random, hashlib
sys.path.insert(0, {root!r}); sys.path.insert(0, {repo!r})
from nnxmon import gen
h = hashlib.sha256()
for k in range({n}):
  rng = random.Random("{seed}" + str(k))
  gen.reset_fresh()
  recipe = gen.rand_recipe(rng, max_modules=6)
  gen.reset_fresh()
  m = gen.build(recipe, rng)[0]
  s, d = m.partition()
  h.update(repr(list(s)).encode())
  h.update(repr([(n, x if isinstance(x, int) else "def") for n, x in d.submodules]).encode())
  h.update(repr([n for n, _ in d.static_fields]).encode())
print("DIGEST", h.hexdigest())
"""


def process(case):
  """Digest of states and defs is the same in processes with different hash seeds."""
  repo = os.environ.get("NNX_REPO", "/repo")
  code = CHILD.format(root=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                      repo=repo, n=40, seed=f"{case.seed}-{case.index}")
  out = []
  for hs in (0, 1 + case.index, 4242 + case.index):
    env = dict(os.environ, PYTHONHASHSEED=str(hs))
    r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True,
                       text=True, timeout=240)
    lines = [l for l in r.stdout.splitlines() if l.startswith("DIGEST")]
    case.check(bool(lines), "child process failed", stderr=r.stderr[-1500:])
    out.append(lines[0])
    case.event("process")
  case.check(len(set(out)) == 1, "the layout depends on the hash seed", digests=out)
  case.sig("process", case.index, out[0])


FAMILIES = {
    "layout": dict(fn=layout, quick=1800),
    "live": dict(fn=values_are_live, quick=1000),
    "for_each": dict(fn=for_each, quick=600),
    "process": dict(fn=process, quick=2, thorough=10),
}
