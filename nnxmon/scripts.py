"""Scripted modules: a module whose method interprets a random list of actions on the
module graph, so that one history can be run eagerly, through apply, Pure or jit."""
import functools
import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen


class Boom(Exception):
  pass


class Scripted(nnx.Module):
  """Interprets scripts; usable as root, submodule, item of Dict / Sequence."""

  def run(self, script, x=0.0):
    return interpret(self, script, x)

  def __call__(self, script, x=0.0):
    return interpret(self, script, x)

  def other(self, script, x=0.0):
    return ("other", interpret(self, script, x))


class ScriptedSub(Scripted):
  pass


def at(root, path):
  m = root
  for p in path:
    m = vars(m)[p]
  return m


def interpret(root, script, x):
  out = []
  for step in script:
    op, path, name = step[0], step[1], step[2]
    m = at(root, path)
    if op == "add":
      setattr(m, name, getattr(m, name) + step[3])
    elif op == "addx":
      setattr(m, name, getattr(m, name) + x)
    elif op == "read":
      out.append(getattr(m, name) * 2)
    elif op == "new":
      setattr(m, name, step[4](jnp.asarray(step[3]) + x))
    elif op == "del":
      delattr(m, name)
    elif op == "sow":
      m.sow(nnx.Intermediate, name, jnp.asarray(step[3]) + x)
    elif op == "boom":
      raise Boom(name)
    elif op == "sub":
      sub = Scripted()
      sub.w = nnx.Param(jnp.asarray(step[3]))
      setattr(m, name, sub)
    elif op == "share":
      setattr(m, name, at(root, step[3]))
    elif op == "static":
      setattr(m, name, step[3])
  return out


def rand_scripted(rng, n=4, classes=(Scripted, ScriptedSub), share=True):
  """Recipe of scripted modules with float variables v0.. and nesting."""
  k = rng.randint(1, n)
  recipe = [{"cls": rng.choice(classes), "attrs": {}} for _ in range(k)]
  used, coincide = [], rng.random() < 0.3
  for node in recipe:
    for name in rng.sample(["v0", "v1", "v2", "v3"], rng.randint(1, 4)):
      t = rng.choice([nnx.Param, nnx.BatchStat, nnx.Cache, gen.Extra])
      u = gen.fresh()
      val = (jnp.asarray(np.float32(u % 50)) if rng.random() < 0.6 else
             jnp.asarray(np.arange(3, dtype=np.float32) + u % 50))
      if coincide and used and rng.random() < 0.4:
        val = rng.choice(used)  # the very array of another variable
      used.append(val)
      node["attrs"][name] = ("var", t, val, gen.rand_metadata(rng))
    if rng.random() < 0.5:
      node["attrs"]["cfg"] = ("static", ("cfg", gen.fresh()))
  for j in range(1, k):
    recipe[rng.randrange(j)]["attrs"][f"s{j}"] = ("sub", j)
  if share:
    for q in range(rng.randint(0, 2)):
      recipe[rng.randrange(k)]["attrs"][f"z{q}"] = ("sub", rng.randrange(k))
  return recipe


def module_paths(recipe, root=0, limit=12):
  """Several paths to every module (also through shared edges), bounded."""
  out, queue = [], [((), root)]
  while queue and len(out) < limit:
    path, i = queue.pop(0)
    out.append((path, i))
    if len(path) < 3:
      for name, s in sorted(recipe[i]["attrs"].items()):
        if s[0] == "sub":
          queue.append((path + (name,), s[1]))
  return out


def rand_script(rng, recipe, n, root=0, structural=True, new=True, delete=True,
                boom=False, prefix="n"):
  paths = module_paths(recipe, root)
  # the attributes each module has while the script runs
  live = {i: {a for a, s in node["attrs"].items() if s[0] == "var"}
          for i, node in enumerate(recipe)}
  script = []
  for _ in range(n):
    path, i = rng.choice(paths)
    ops = ["add", "addx", "read", "read"]
    if new:
      ops += ["new", "sow"]
    if delete:
      ops += ["del"]
    if structural:
      ops += ["sub", "share", "static"]
    op = rng.choice(ops)
    have = sorted(live[i])
    if op in ("add", "addx", "read", "del"):
      if not have:
        continue
      name = rng.choice(have)
      if op == "del":
        live[i].discard(name)
        script.append((op, path, name))
      else:
        script.append((op, path, name, float(rng.randint(1, 9))))
    elif op == "new":
      name = f"{prefix}{rng.randint(0, 5)}"
      if name in live[i]:
        continue
      live[i].add(name)
      script.append((op, path, name, float(gen.fresh() % 100),
                     rng.choice([nnx.Param, nnx.Cache, gen.Extra])))
    elif op == "sow":
      script.append((op, path, rng.choice(["sowa", "sowb"]), float(gen.fresh() % 100)))
    elif op == "sub":
      script.append((op, path, f"m{gen.fresh()}", float(gen.fresh() % 100)))
    elif op == "share":
      script.append((op, path, f"h{gen.fresh()}", rng.choice(paths)[0]))
    elif op == "static":
      script.append((op, path, "flag", rng.randint(0, 99)))
  if boom:
    script.insert(rng.randint(0, len(script)), ("boom", (), "x"))
  return script


class _Callable:

  def __init__(self, f):
    self.f = f

  def __call__(self, *args, **kwargs):
    return self.f(*args, **kwargs)

  def method(self, *args, **kwargs):
    return self.f(*args, **kwargs)


def disguise(rng, f, chance=0.35):
  """The same function as another kind of callable (no __name__, no own signature)."""
  if rng.random() >= chance:
    return f
  return rng.choice([
      lambda: functools.partial(f), lambda: _Callable(f), lambda: _Callable(f).method,
      lambda: functools.partial(lambda g, *a, **k: g(*a, **k), f),
      lambda: functools.partial(_Callable(f)),
  ])()
