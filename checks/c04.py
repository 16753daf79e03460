"""C04: update_state, State.merge, | and - behave like last-wins dictionaries."""
import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen

RULE = (
    "Random module graphs receive random updates (State, tuple of States, Pure, Module; "
    "partial, overlapping, new paths, plain values, incompatible containers) and the "
    "result is compared with a dictionary model; State algebra is compared with dict "
    "algebra; non-trivial = distinct (graph, update kind, touched paths)."
)
NEED = {"path_updated": 800, "overlap": 100, "new_path": 60, "rejection": 150,
        "algebra": 400, "pure_update": 200, "near": 600, "refused_whole": 200}


def _entries(recipe):
  return [(p, i, n, s) for p, i, n, s in gen.expected_layout(recipe)[0]]


def _new_value(rng, spec):
  """(value to put in a State, fingerprint of the attribute afterwards)"""
  if spec[0] == "var":
    v = gen.rand_value(rng)
    md = dict(spec[3])
    r = rng.random()
    if r < 0.75:
      return spec[1](v, **md), gen.spec_fp(("var", spec[1], v, md))
    while isinstance(v, nnx.Container):
      v = gen.rand_value(rng)
    return v, gen.spec_fp(("var", spec[1], v, md))  # plain value: metadata stays
  if spec[0] == "ptree" and spec[1] == "TreeNode":
    v = gen.rand_value(rng)
    return nnx.TreeNode(v), gen.spec_fp(("ptree", "TreeNode", v))
  v = gen.rand_array(rng)
  return v, gen.fp(v)


def module_update(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=6, max_attrs=6)
  case.note(gen.recipe_str(recipe))
  mods = gen.build(recipe, rng)
  root = mods[0]
  entries, first = gen.expected_layout(recipe)
  k = rng.randint(1, 4)
  updates, model, kinds = [], {}, set()
  for _ in range(k):
    st = {}
    for path, i, n, spec in entries:
      if rng.random() < 0.4:
        st[path], want = _new_value(rng, spec)
        if path in model:
          case.event("overlap")
        model[path] = (i, n, want)
    if rng.random() < 0.4:  # a path the module does not have yet
      i = rng.choice(list(first))
      n = f"new{gen.fresh()}"
      v = nnx.Cache(gen.rand_array(rng), tag="t")
      path = "/".join(first[i] + (n,))
      st[path] = v
      model[path] = (i, n, gen.fp(v))
      case.event("new_path")
    updates.append(nnx.State(st))
  how = rng.choice(["state", "tuple", "pure", "pure2"])
  if how == "state":
    arg = nnx.State.merge(*updates)
  elif how == "tuple":
    arg = tuple(updates)
  elif how == "pure":
    arg = nnx.Pure.new(nnx.State.merge(*updates), root.get_module_def())
  else:
    arg = nnx.Pure.new(tuple(updates), root.get_module_def())
  case.note(how, sorted(model))
  case.sample(f"{how}: {sorted(model)}")
  case.sig(gen.recipe_sig(recipe), how, sorted(model))
  upd_fp = [gen.fp(u) for u in updates]
  before = {i: {n: (id(v) if isinstance(v, nnx.Module) else gen.fp(v))
                for n, v in gen.user_vars(mods[i]).items()} for i in first}
  ret = root.update_state(arg)
  case.check(ret is None, "update_state returns None")
  for path, (i, n, want) in model.items():
    before[i][n] = want
  for i in first:
    got = {n: (id(v) if isinstance(v, nnx.Module) else gen.fp(v))
           for n, v in gen.user_vars(mods[i]).items()}
    case.eq(got, before[i], f"module #{i} after update_state({how})")
  case.event("path_updated", len(model))
  case.eq([gen.fp(u) for u in updates], upd_fp, "the updates were modified")
  # the module does not share containers with the update
  for path, (i, n, _) in model.items():
    raw = gen.user_vars(mods[i])[n]
    for u in updates:
      if path in u and isinstance(u[path], nnx.Container):
        case.check(raw is not u[path], f"{path} aliases the update's container")


def _neighbour(rng, a):
  """A different array that a sloppy comparison takes for the same one."""
  a = np.asarray(a)
  kinds = ["ulp", "rel", "one", "dtype", "zero", "nan", "shape"]
  if a.dtype.kind != "f":
    kinds = ["dtype", "one", "shape"]
  kind = rng.choice(kinds)
  b = a.copy()
  flat = b.reshape(-1)
  j = rng.randrange(flat.size)
  if kind == "ulp":
    flat[:] = np.nextafter(flat, flat.dtype.type(np.inf))
  elif kind == "rel":
    flat[:] = flat * flat.dtype.type(1 + 1e-5) if flat.dtype == np.float32 else flat + 1
  elif kind == "one":
    flat[j] = flat[j] + 1 if flat.dtype != bool else not flat[j]
  elif kind == "dtype":
    b = b.astype({"f": np.int32, "i": np.float32, "u": np.int32, "b": np.int32}[a.dtype.kind])
  elif kind == "zero":
    flat[:] = -np.zeros_like(flat) if rng.random() < 0.5 else np.zeros_like(flat)
  elif kind == "nan":
    flat[j] = np.nan
  elif kind == "shape":
    b = b.reshape((1,) + b.shape) if rng.random() < 0.5 else np.stack([b, b])
  return b if rng.random() < 0.3 else jnp.asarray(b)


def near_update(case):
  """Updates that hardly differ from the current value (or not at all) are applied."""
  rng = case.rng
  m = nnx.Dict()
  m.sub = nnx.Dict()
  cur = {}
  for i in range(rng.randint(1, 4)):
    shape = rng.choice([(), (1,), (3,), (2, 3)])
    v = jnp.asarray(rng.choice([
        lambda: case.np.normal(size=shape).astype(np.float32),
        lambda: np.zeros(shape, np.float32),
        lambda: case.np.integers(0, 3, size=shape).astype(np.int32),
        lambda: case.np.normal(size=shape).astype(np.float32) * np.float32(1e-6)])())
    t = rng.choice([nnx.Param, nnx.BatchStat, None])
    q, path = rng.choice([(m, ""), (m.sub, "sub/")])
    setattr(q, f"v{i}", v if t is None else t(v))
    cur[f"{path}v{i}"] = (t, v)
  for step in range(rng.randint(2, 5)):
    new = {}
    for path, (t, v) in cur.items():
      if rng.random() < 0.7:
        w = _neighbour(rng, v) if rng.random() < 0.9 else v
        new[path] = w if t is None else t(w)
        cur[path] = (t, w)
    how = rng.choice(["update", "pure", "attr", "leaf", "merge"])
    st = nnx.State(new)
    if how == "update":
      m.update_state(st)
    elif how == "pure":
      m = m.partition().update_state(st).merge()
    elif how == "merge":
      m = m.get_module_def().merge(nnx.State.merge(m.get_state(), st))
    else:
      for path, v in new.items():
        q = m.sub if path.startswith("sub/") else m
        v = getattr(v, "value", v)
        setattr(q, path.split("/")[-1], v)
    got = {p: gen.fp_np(getattr(v, "value", v)) for p, v in m.get_state().items()}
    case.eq(got, {p: gen.fp_np(v) for p, (_, v) in cur.items()},
            f"values after a small update ({how})")
    case.event("near", len(new))
  case.sig([(p, str(v.dtype), v.shape) for p, (_, v) in cur.items()])


def from_module(case):
  """update_state(other module of the same structure) copies its node values."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=6)
  a = gen.build(recipe, rng)[0]
  recipe2 = [{"cls": n["cls"], "attrs": dict(n["attrs"])} for n in recipe]
  for n in recipe2:
    for name, s in n["attrs"].items():
      if s[0] == "var":
        n["attrs"][name] = ("var", s[1], gen.rand_value(rng), s[3])
      elif s[0] == "static":
        n["attrs"][name] = ("static", ("other", gen.fresh()))
      elif s[0] == "arr":
        n["attrs"][name] = ("arr", gen.rand_array(rng))
  b = gen.build(recipe2, rng)[0]
  static_before = [
      {n: gen.fp(v) for n, v in gen.user_vars(m).items()
       if not nnx.is_node(v) and not isinstance(v, nnx.Module)}
      for m in gen.all_modules(a)]
  b_before = gen.describe(b)
  a.update_state(b)
  case.eq({k: gen.fp(v) for k, v in a.get_state().items()},
          {k: gen.fp(v) for k, v in b.get_state().items()}, "state after update_state(b)")
  case.eq(static_before, [
      {n: gen.fp(v) for n, v in gen.user_vars(m).items()
       if not nnx.is_node(v) and not isinstance(v, nnx.Module)}
      for m in gen.all_modules(a)], "static attributes changed")
  case.eq(gen.describe(b), b_before, "the source module changed")
  case.check(not {id(m) for m in gen.all_modules(a)} & {id(m) for m in gen.all_modules(b)},
             "modules became shared")
  case.event("path_updated", len(a.get_state()))
  case.sig(gen.recipe_sig(recipe), "module")
  # other type: refused
  other = gen.M3() if type(a) is not gen.M3 else gen.M1()
  before = gen.describe(a)
  case.raises((AssertionError, TypeError, ValueError), lambda: a.update_state(other),
              "update from a module of another type")
  for bad in (None, 3, 0, False, 1.5, {"a": 1}, [("a", 1)], (None,), object()):
    # which error it is is incidental
    case.raises((AssertionError, TypeError, ValueError, AttributeError, KeyError),
                lambda: a.update_state(bad),
                f"update of a module with {type(bad).__name__}")
  case.eq(gen.describe(a), before, "a refused update changed the module")


def incompatible(case):
  """A container of another type or other metadata is refused for that path."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=4, max_attrs=6)
  mods = gen.build(recipe, rng)
  entries = [(p, i, n, s) for p, i, n, s in gen.expected_layout(recipe)[0]
             if s[0] == "var"]
  if not entries:
    return
  path, i, n, spec = rng.choice(entries)
  md = dict(spec[3])
  if rng.random() < 0.5:
    t = rng.choice([t for t in gen.VAR_TYPES if t is not spec[1]])
    md2 = {k: v for k, v in md.items()}
  else:
    t = spec[1]
    md2 = dict(md)
    md2["tag"] = ("different", gen.fresh())
  bad = t(gen.rand_array(rng), **md2)
  before = gen.fp(gen.user_vars(mods[i])[n])
  st = nnx.State({path: bad})
  case.raises(ValueError, lambda: mods[0].update_state(st), "incompatible container",
              match="incompatible")
  case.eq(gen.fp(gen.user_vars(mods[i])[n]), before, "the refused attribute changed")
  # among other entries, wherever it comes: the whole update is refused
  whole = gen.describe(mods[0])
  order = [list(gen.user_vars(q)) for q in gen.all_modules(mods[0])]
  near = {p: _new_value(rng, sp)[0] for p, _, _, sp in gen.expected_layout(recipe)[0]
          if rng.random() < 0.6}
  near.update(rng.choice([{}, {"a_new": nnx.Param(jnp.ones(()))}]))
  spoil = rng.choice([{path: bad}, {path: bad}, {"no_such_module/w": jnp.ones(())}])
  both = nnx.State({**near, **spoil})
  update = rng.choice([both, (nnx.State(near), nnx.State(spoil)),
                       mods[0].partition().update_state(both)])
  case.raises((ValueError, KeyError, TypeError, AttributeError),
              lambda: mods[0].update_state(update), "an update with one bad entry")
  case.eq(gen.describe(mods[0]), whole, "a refused update changed the module")
  case.eq([list(gen.user_vars(q)) for q in gen.all_modules(mods[0])], order,
          "attribute order after a refused update")
  case.event("refused_whole")
  case.sig(gen.recipe_sig(recipe), path, t.__name__, sorted(near))


def state_algebra(case):
  gen.reset_fresh()
  rng = case.rng
  keys = ["a", "a/b", "a/b/c", "b", "a-b", "a b", "z/0", "z/10", "z/2", "Z", "é", "a/a"]
  dicts = []
  for _ in range(rng.randint(1, 4)):
    ks = rng.sample(keys, rng.randint(0, 7))
    dicts.append({k: gen.make_value(("var", rng.choice(gen.VAR_TYPES),
                                     gen.rand_array(rng), {})) for k in ks})
  states = []
  for d in dicts:
    items = list(d.items())
    rng.shuffle(items)
    if rng.random() < 0.5:
      states.append(nnx.State(dict(items)))
      continue
    for k in rng.sample(sorted(d), rng.randint(0, min(2, len(d)))):
      # a path given more than once: the last value counts, as in a dict
      at = [i for i, (p, _) in enumerate(items) if p == k][0]
      items.insert(rng.randint(0, at), (k, gen.make_value(
          ("var", rng.choice(gen.VAR_TYPES), gen.rand_array(rng), {}))))
    states.append(nnx.State(rng.choice([iter, list, tuple])(items)))

  def same(state, d, what):
    case.check(isinstance(state, nnx.State), f"{what}: not a State")
    case.eq(list(state), sorted(d), f"{what}: keys")
    case.eq(len(state), len(d), f"{what}: len")
    for k in d:
      case.check(state[k] is d[k], f"{what}: value of {k}")
    for k in keys:
      case.eq(k in state, k in d, f"{what}: membership of {k}")
      case.eq(state.get(k), d.get(k), f"{what}: get({k})")
    case.event("algebra")

  for s, d in zip(states, dicts):
    same(s, d, "State(...)")
    case.raises(KeyError, lambda: s["nope"], "absent key")
  # the constructor does not alias its input
  src = dict(dicts[0])
  s = nnx.State(src)
  src["later"] = 1
  case.check("later" not in s, "State aliases the mapping it was built from")
  merged = {}
  for d in dicts:
    merged.update(d)
  same(nnx.State.merge(*states), merged, "State.merge")
  acc, dacc = states[0], dict(dicts[0])
  for s, d in zip(states[1:], dicts[1:]):
    if rng.random() < 0.5:
      acc, dacc = acc | s, {**dacc, **d}
      same(acc, dacc, "|")
    else:
      acc, dacc = acc - s, {k: v for k, v in dacc.items() if k not in d}
      same(acc, dacc, "-")
  same(states[0] | nnx.State({}), dicts[0], "| empty")
  same(nnx.State({}) | states[0], dicts[0], "empty |")
  same(states[0] - states[0], {}, "s - s")
  a, b = states[0], states[-1]
  same((a - b) | b, {**dicts[0], **dicts[-1]}, "(a-b)|b")
  for s, d in zip(states, dicts):
    same(s, d, "operand after the operations")
  case.sig([sorted(d) for d in dicts])


def pure_update(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5)
  root = gen.build(recipe, rng)[0]
  filters, _ = gen.rand_exhaustive(rng, 3)
  pure = root.partition(*filters) if rng.random() < 0.6 else root.partition()
  base = dict(root.get_state().items())
  entries, _ = gen.expected_layout(recipe)
  ups = []
  for _ in range(rng.randint(1, 3)):
    st = {}
    for path, i, n, spec in entries:
      if spec[0] == "var" and rng.random() < 0.5:
        st[path] = spec[1](gen.rand_array(rng), **spec[3])
    if rng.random() < 0.3:
      st[f"extra{gen.fresh()}"] = nnx.Param(gen.rand_array(rng))
    ups.append(nnx.State(st))
  how = rng.choice(["state", "tuple", "pure", "pure2", "module"])
  if how == "module":
    other = root.clone()
    other.update_state(tuple(ups))
    arg, model = other, {**base, **dict(other.get_state().items())}
  else:
    model = dict(base)
    for u in ups if how != "state" else [nnx.State.merge(*ups)]:
      model.update(u)
    d = root.get_module_def()
    arg = {"state": nnx.State.merge(*ups), "tuple": tuple(ups),
           "pure": nnx.Pure.new(nnx.State.merge(*ups), d),
           "pure2": nnx.Pure.new(tuple(ups), d)}[how]
  before = gen.fp(pure.get_state())
  out = pure.update_state(arg)
  case.check(isinstance(out, nnx.Pure), "result is a Pure")
  case.eq({k: gen.fp(v) for k, v in out.get_state().items()},
          {k: gen.fp(v) for k, v in model.items()}, f"Pure.update_state({how})")
  case.eq(out.moduledef, pure.moduledef, "definition")
  case.eq(gen.fp(pure.get_state()), before, "the receiver changed")
  case.event("pure_update")
  case.sig(gen.recipe_sig(recipe), how, len(model))
  for bad in (None, 3, 0, False, "", {}, {"a": 1}, [ups[0]]):
    case.raises(TypeError, lambda: pure.update_state(bad), f"update with {bad!r:.30}")
  # apply the result and the updates the other way round: same module
  if how != "module":
    m = root.clone()
    m.update_state(arg)
    case.eq(gen.fp(m.get_state()), gen.fp(out.get_state()), "Module vs Pure update_state")


FAMILIES = {
    "module_update": dict(fn=module_update, quick=1000),
    "near_update": dict(fn=near_update, quick=300),
    "from_module": dict(fn=from_module, quick=400),
    "incompatible": dict(fn=incompatible, quick=400),
    "state_algebra": dict(fn=state_algebra, quick=600),
    "pure_update": dict(fn=pure_update, quick=500),
}
