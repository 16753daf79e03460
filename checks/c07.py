"""C07: apply / Pure.apply / Pure.call run the method functionally on a copy."""
import jax
import jax.numpy as jnp

import nnx
from nnxmon import gen, scripts

RULE = (
    "Scripted modules (random graph, random list of reads, writes, new/deleted "
    "variables, sow, new/shared submodules, exceptions) are run eagerly on a rebuilt "
    "copy and through Module.apply, Pure.apply, ModuleDef.apply and Pure.call, reached "
    "by attribute and item chains; outputs, resulting graphs and the untouched original "
    "are compared; non-trivial = distinct (graph, script)."
)
NEED = {"apply": 600, "call": 300, "chain": 300, "raised": 100, "item_chain": 100, "kept_proxy": 9000, "layered": 200,
        "held": 600}


def check_run(case, m, pick, script, x, filters):
  """pick(obj) follows the accessor chain on a module or on a proxy."""
  ref = m.clone()
  want = pick(ref)(script, x)
  want_graph = gen.describe(ref)
  before = gen.describe(m)
  ids = {id(q) for q in gen.all_modules(m)}

  out, new = pick(m.apply)(script, x)
  case.eq(gen.fp(out), gen.fp(want), "Module.apply: output")
  case.eq(gen.describe(new), want_graph, "Module.apply: resulting module")
  case.check(not ids & {id(q) for q in gen.all_modules(new)},
             "Module.apply: the result shares a module with the original")
  case.eq(gen.describe(m), before, "Module.apply changed the original")

  pure = m.partition(*filters) if filters else m.partition()
  pfp = gen.fp(pure.get_state())
  for rep in range(2):  # same result every time
    out, pure2 = pick(pure.apply)(script, x)
    case.eq(gen.fp(out), gen.fp(want), "Pure.apply: output")
    case.check(isinstance(pure2, nnx.Pure) and isinstance(pure2.states, nnx.State),
               "Pure.apply returns a Pure")
    case.eq(gen.describe(pure2.merge()), want_graph, "Pure.apply: resulting module")
  states, moduledef = pure
  states = states if isinstance(states, tuple) else (states,)
  out, pure3 = pick(moduledef.apply(*states))(script, x)
  case.eq(gen.fp(out), gen.fp(want), "ModuleDef.apply: output")
  case.eq(gen.describe(pure3.merge()), want_graph, "ModuleDef.apply: resulting module")
  out = pick(pure.call)(script, x)
  case.eq(gen.fp(out), gen.fp(want), "Pure.call: output")
  # proxies that are kept: every call runs on a copy of its own
  for name, proxy in (("Module.apply", m.apply), ("Pure.apply", pure.apply),
                      ("ModuleDef.apply", moduledef.apply(*states)),
                      ("Pure.call", pure.call)):
    bound = pick(proxy)
    for f in (bound, bound, pick(proxy)):
      out = f(script, x)
      if name != "Pure.call":
        out, new = out
        case.eq(gen.describe(new.merge() if isinstance(new, nnx.Pure) else new),
                want_graph, f"kept proxy {name}: resulting module")
      case.eq(gen.fp(out), gen.fp(want), f"kept proxy {name}: output")
      case.event("kept_proxy")
  case.eq(gen.fp(pure.get_state()), pfp, "the Pure changed")
  case.eq(gen.describe(m), before, "the original changed")
  case.event("apply", 4)
  case.event("call")


def runs(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 5)
  m = gen.build(recipe, rng)[0]
  script = scripts.rand_script(rng, recipe, rng.randint(1, 10))
  case.note(gen.recipe_str(recipe))
  case.note(script)
  case.sample(script)
  filters = gen.rand_exhaustive(rng, 3)[0] if rng.random() < 0.6 else None
  how = rng.choice(["run", "call", "other"])
  pick = dict(run=lambda q: q.run, call=lambda q: q, other=lambda q: q.other)[how]
  check_run(case, m, pick, script, jnp.float32(rng.randint(1, 5)), filters)
  case.sig(gen.recipe_sig(recipe), [s[:3] for s in script], how)


def chains(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4)
  inner = gen.build(recipe, rng)[0]
  second = gen.build(scripts.rand_scripted(rng, 2), rng)[0]
  depth = rng.randint(1, 4)
  m, chain = inner, []
  for _ in range(depth):
    kind = rng.choice(["attr", "dict", "seq", "dict_attr"])
    if kind == "attr":
      outer = scripts.Scripted()
      outer.inner = m
      outer.unrelated = second
      outer.w = nnx.Param(jnp.zeros(()))
      chain.append(("attr", "inner"))
    elif kind == "dict":
      outer = nnx.Dict(k1=m, k2=second)
      chain.append(("item", "k1"))
    elif kind == "dict_attr":
      outer = nnx.Dict(k1=m, k2=second)
      chain.append(("attr", "k1"))
    else:
      items = [second, m] if rng.random() < 0.5 else [m, second]
      outer = nnx.Sequence(items)
      chain.append(("item", items.index(m)))
    m = outer
  chain.reverse()
  tail = rng.choice([[], [("attr", "run")], [("attr", "other")]])

  def pick(q):
    for kind, key in chain + tail:
      q = getattr(q, key) if kind == "attr" else q[key]
    return q

  script = scripts.rand_script(rng, recipe, rng.randint(1, 6))
  case.note(chain, tail, script)
  check_run(case, m, pick, script, jnp.float32(2), None)
  case.event("chain", len(chain))
  if any(k == "item" for k, _ in chain):
    case.event("item_chain")
  case.sig(chain, tail, [s[:3] for s in script])


def raising(case):
  """A method that raises half way leaves the original (and the Pure) as they were."""
  gen.reset_fresh()
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4)
  m = gen.build(recipe, rng)[0]
  script = scripts.rand_script(rng, recipe, rng.randint(2, 8), boom=True)
  before = gen.describe(m)
  pure = m.partition()
  pfp = gen.fp(pure.states)
  for f in (m.apply.run, pure.apply.run, pure.call.run,
            pure.moduledef.apply(pure.states).run):
    case.raises(scripts.Boom, lambda: f(script, jnp.float32(1)), "the method's exception")
    case.eq(gen.describe(m), before, "a raising method changed the original")
    case.eq(gen.fp(pure.states), pfp, "a raising method changed the Pure")
    # the same proxy again: the failed call left nothing behind
    good = [s for s in script if s[0] != "boom"]
    want = m.clone().run(good, jnp.float32(1))
    out = f(good, jnp.float32(1))
    if isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], (nnx.Module, nnx.Pure)):
      out = out[0]
    case.eq(gen.fp(out), gen.fp(want), "the call after a failed one")
    case.event("raised")
  case.sig(gen.recipe_sig(recipe), [s[:3] for s in script])


def held(case):
  """A caller that is kept while the module changes runs on the module as it is now."""
  gen.reset_fresh()
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4)
  m = gen.build(recipe, rng)[0]
  where = rng.choice([None, "inner"])
  root = m
  if where:
    root = nnx.Dict(inner=m)
  proxy = root.apply
  bound = (proxy.inner if where else proxy).run
  case.note(gen.recipe_str(recipe), where)
  changes = []
  for _ in range(rng.randint(1, 4)):
    change = rng.choice(["script", "none", "update", "attr", "new"])
    if change == "script":  # the module is used, and changes
      m.run(scripts.rand_script(rng, recipe, rng.randint(1, 4), structural=False,
                                new=False, delete=False), jnp.float32(2))
    elif change == "update":
      root.update_state(jax.tree_util.tree_map(
          lambda a: a + 1 if getattr(a, "dtype", None) == jnp.float32 else a,
          root.get_state()))
    elif change == "attr":
      m.later = nnx.Param(jnp.float32(rng.randint(1, 9)))
    elif change == "new":
      m.added = nnx.Dict(q=nnx.Param(jnp.float32(rng.randint(1, 9))))
    changes.append(change)
    case.note(change)
    ref = root.clone()
    script = scripts.rand_script(rng, recipe, rng.randint(1, 5))
    x = jnp.float32(rng.randint(1, 5))
    want = (ref.inner if where else ref).run(script, x)
    before = gen.describe(root)
    for f in (bound, (proxy.inner if where else proxy).run):
      out, new = f(script, x)
      case.eq(gen.fp(out), gen.fp(want), "held caller: output")
      case.eq(gen.describe(new), gen.describe(ref), "held caller: resulting module")
      case.eq(gen.describe(root), before, "held caller changed the original")
      case.event("held")
  case.sig(gen.recipe_sig(recipe), where, changes)


def layered(case):
  """Several States that overlap: the last one wins, whichever way the method is reached."""
  gen.reset_fresh()
  rng = case.rng
  recipe = scripts.rand_scripted(rng, 4)
  m = gen.build(recipe, rng)[0]
  script = scripts.rand_script(rng, recipe, rng.randint(1, 6))
  x = jnp.float32(rng.randint(1, 5))
  full, moduledef = m.partition()
  base = dict(full.items())
  layers, want = [base], dict(base)
  for i in range(rng.randint(1, 3)):
    over = {}
    for path, v in base.items():
      if isinstance(v, nnx.Variable) and rng.random() < 0.6:
        value = vars(v)["value"]
        if hasattr(value, "dtype") and jnp.issubdtype(value.dtype, jnp.floating):
          over[path] = v.replace(value=value + 100.0 * (i + 1))
    layers.append(over)
    want.update(over)
  if rng.random() < 0.5:  # a partial layer below the complete one: invisible
    hidden = {k: v for k, v in layers[-1].items()}
    layers.insert(0, hidden)
    want = {}
    for layer in layers:
      want.update(layer)
  states = tuple(nnx.State(layer) for layer in layers)
  ref = moduledef.merge(nnx.State(want))
  merged = moduledef.merge(*states)
  case.eq(gen.describe(merged), gen.describe(ref), "merge of overlapping States")
  out = ref.run(script, x)
  after = gen.describe(ref)
  pure = nnx.Pure.new(states, moduledef)
  for name, f in (("Pure.apply", pure.apply.run),
                  ("ModuleDef.apply", moduledef.apply(*states).run),
                  ("merge().apply", merged.apply.run)):
    for _ in range(2):
      got, new = f(script, x)
      case.eq(gen.fp(got), gen.fp(out), f"{name} over {len(states)} layers: output")
      case.eq(gen.describe(new.merge() if isinstance(new, nnx.Pure) else new), after,
              f"{name} over {len(states)} layers: resulting module")
  case.eq(gen.fp(pure.call.run(script, x)), gen.fp(out), "Pure.call over layers: output")
  case.event("layered")
  case.sig(gen.recipe_sig(recipe), [len(la) for la in layers], [s[:3] for s in script])


def kwargs(case):
  """Arguments and results pass through unchanged, by position and by name."""
  rng = case.rng
  seen = []

  class K(nnx.Module):

    def __init__(self):
      self.v = nnx.Param(jnp.ones(()))

    def f(self, *args, **kwargs):
      seen.append((args, kwargs))
      return ret

  # any name may be reached
  name = rng.choice(["f", "f", "accessor", "context", "callable", "fn", "module", "state", "x",
                     "proxy", "merge", "replace", "value", "_private", "__call__"])
  setattr(K, name, K.f)
  m = K()
  if rng.random() < 0.4:
    inner, m = m, nnx.Dict()
    at = rng.choice(["accessor", "context", "inner", "callable", "self"])
    setattr(m, at, inner)
  else:
    at = None
  pure = m.partition()

  def to(q):
    q = q if at is None else getattr(q, at) if rng.random() < 0.5 else q[at]
    return q if name == "__call__" else getattr(q, name)

  args = tuple(object() for _ in range(rng.randint(0, 3)))
  kw = {k: object() for k in rng.sample(["a", "b", "fn", "self_", "module", "state"],
                                        rng.randint(0, 4))}
  ret = rng.choice([None, object(), (1, 2), [3]])
  for route, f, unpack in (
      ("Module.apply", to(m.apply), True), ("Pure.apply", to(pure.apply), True),
      ("Pure.call", to(pure.call), False), ("Module.init", to(m.init), False),
      ("ModuleDef.apply", to(pure.moduledef.apply(pure.states)), True)):
    seen.clear()
    out = f(*args, **kw)
    if unpack:
      case.check(isinstance(out, tuple) and len(out) == 2, f"{route} returns a pair")
      out = out[0]
    case.check(out is ret, f"{route}: return value")
    case.eq(len(seen), 1, f"{route}: number of calls")
    case.check(len(seen[0][0]) == len(args) and
               all(a is b for a, b in zip(seen[0][0], args)), f"{route}: positional")
    case.check(set(seen[0][1]) == set(kw) and
               all(seen[0][1][k] is kw[k] for k in kw), f"{route}: keywords")
    case.event("call")
  case.sig(len(args), sorted(kw), type(ret).__name__, name, at)


FAMILIES = {
    "runs": dict(fn=runs, quick=1500),
    "chains": dict(fn=chains, quick=900),
    "raising": dict(fn=raising, quick=500),
    "layered": dict(fn=layered, quick=400),
    "held": dict(fn=held, quick=250),
    "kwargs": dict(fn=kwargs, quick=160),
}
