"""C01: partition/merge and clone rebuild an isomorphic module graph."""
import abc
import copy
import dataclasses
import typing

import jax
import jax.numpy as jnp

import nnx
from nnxmon import gen

RULE = (
    "Random module graphs (1-9 modules of 5 classes, shared/cyclic/self edges, every "
    "attribute kind, random insertion order) are partitioned with random exhaustive "
    "filters, merged from permuted states, cloned and mutated; non-trivial = distinct "
    "(graph shape, attribute kinds, filter count)."
)
NEED = {"merge": 200, "clone": 100, "shared_module": 40, "cycle": 20, "surgery": 60, "class_style": 250}


def check_isomorphic(case, original, rebuilt, want, what):
  case.eq(gen.describe(rebuilt), want, f"{what}: rebuilt graph differs from the original")
  old = gen.all_modules(original)
  new = gen.all_modules(rebuilt)
  case.eq(len(new), len(old), f"{what}: number of distinct module objects")
  case.check(
      not ({id(m) for m in old} & {id(m) for m in new}),
      f"{what}: the rebuilt graph shares a module object with the original",
  )
  for a, b in zip(old, new):
    case.check(type(a) is type(b), f"{what}: module type")
    for name, v in gen.user_vars(a).items():
      w = gen.user_vars(b)[name]
      if isinstance(v, nnx.Container) and not isinstance(v, nnx.Static):
        case.check(w is not v, f"{what}: container object {name!r} is aliased")


def count_shape(case, recipe):
  edges = [s[1] for node in recipe for s in node["attrs"].values() if s[0] == "sub"]
  if len(edges) != len(set(edges)):
    case.event("shared_module")
  if 0 in edges or any(s == ("sub", i) for i, node in enumerate(recipe)
                       for s in node["attrs"].values()):
    case.event("cycle")


def roundtrip(case):
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=rng.choice([1, 3, 6, 9, 9, 30]))
  case.note(gen.recipe_str(recipe))
  case.sample(gen.recipe_str(recipe))
  count_shape(case, recipe)
  mods = gen.build(recipe, rng)
  root_i = 0 if rng.random() < 0.7 else rng.randrange(len(mods))
  root = mods[root_i]
  want = gen.describe_recipe(recipe, root_i)
  case.eq(gen.describe(root), want, "construction: attributes differ from what was set")

  filters, _ = gen.rand_exhaustive(rng)
  case.note("filters", filters)
  case.sig(gen.recipe_sig(recipe), root_i, len(filters))

  # plain, single state
  state, moduledef = root.partition()
  check_isomorphic(case, root, moduledef.merge(state), want, "merge(state)")
  # many states, any order
  if len(filters) > 1:
    pure = root.partition(*filters)
    states, moduledef2 = pure
    states = list(states)
    rng.shuffle(states)
    check_isomorphic(case, root, moduledef2.merge(*states), want, "merge(*shuffled)")
    check_isomorphic(case, root, pure.merge(), want, "Pure.merge")
    case.event("merge", 2)
    # states of one partition fit the definition of another
    check_isomorphic(case, root, moduledef.merge(*states), want, "merge across calls")
  case.event("merge")
  clone = root.clone()
  case.event("clone")
  check_isomorphic(case, root, clone, want, "clone")
  check_isomorphic(case, clone, clone.clone(), want, "clone of clone")
  case.eq(gen.describe(root), want, "the original changed")
  case.eq(root.get_module_def(), moduledef, "get_module_def vs partition()[1]")

  # any common parent gives back one object for shared children
  if rng.random() < 0.3:
    parent = nnx.Dict(left=root, right=root, also=mods[rng.randrange(len(mods))])
    c = parent.clone()
    case.check(c.left is c.right, "one module under two names became two")
    case.eq(gen.describe(c), gen.describe(parent), "clone of the parent")


def independent(case):
  """Mutations after the split never travel between original, rebuilds and states."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5)
  mods = gen.build(recipe, rng)
  root = mods[0]
  case.note(gen.recipe_str(recipe))
  pure = root.partition()
  a, b = pure.merge(), pure.merge()
  want = gen.describe(root)
  state_fp = gen.fp(pure.states)
  who = rng.choice(["root", "a", "b"])
  target = dict(root=root, a=a, b=b)[who]
  steps = 0
  for _ in range(rng.randint(1, 6)):
    m = rng.choice(gen.all_modules(target))
    names = list(gen.user_vars(m))
    op = rng.choice(["set", "new", "del", "sub"])
    if op == "set" and names:
      n = rng.choice(names)
      raw = gen.user_vars(m)[n]
      if isinstance(raw, nnx.Module):
        continue
      setattr(m, n, gen.rand_array(rng))
      steps += 1
    elif op == "new":
      setattr(m, f"new{steps}", nnx.Param(gen.rand_array(rng)))
      steps += 1
    elif op == "del" and names:
      delattr(m, rng.choice(names))
      steps += 1
    elif op == "sub":
      setattr(m, f"sub{steps}", rng.choice(gen.all_modules(target)))
      steps += 1
  case.event("mutation_after_split", steps)
  case.sig(gen.recipe_sig(recipe), who, steps)
  for name, m in dict(root=root, a=a, b=b).items():
    if name != who:
      case.eq(gen.describe(m), want, f"mutating {who} changed {name}")
  case.eq(gen.fp(pure.states), state_fp, f"mutating {who} changed the partitioned state")
  case.eq(gen.describe(pure.merge()), want, f"mutating {who} changed later merges")


def surgery(case):
  """Round trips at every step of a random history of graph surgery."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5)
  mods = gen.build(recipe, rng)
  root = mods[0]
  trace = []
  for step in range(rng.randint(3, 8)):
    live = gen.all_modules(root)
    m = rng.choice(live)
    names = list(gen.user_vars(m))
    op = rng.choice(["attr", "edge", "graft", "del", "swap", "roundtrip", "update",
                     "copy"])
    if op == "attr":
      n = rng.choice(gen.NAMES)
      raw = gen.user_vars(m).get(n)
      if raw is None:
        setattr(m, n, gen.make_value(gen.rand_attr(rng)))
    elif op == "edge":
      n = f"e{step}"
      setattr(m, n, rng.choice(live))
    elif op == "graft":
      sub = gen.build(gen.rand_recipe(rng, max_modules=3), rng)[0]
      setattr(m, f"g{step}", sub)
      setattr(rng.choice(live), f"h{step}", sub)
    elif op == "del" and names:
      delattr(m, rng.choice(names))
    elif op == "swap" and names:
      n = rng.choice(names)
      if not isinstance(gen.user_vars(m)[n], nnx.Container):
        setattr(m, n, rng.choice(live))
    elif op == "roundtrip":
      root = root.partition().merge()
    elif op == "update":
      state = root.get_state()
      root.update_state(state)
    elif op == "copy":
      root = copy.copy(root) if rng.random() < 0.3 else root
    trace.append(op)
    case.note("step", step, op)
    case.event("surgery")
    want = gen.describe(root)
    check_isomorphic(case, root, root.clone(), want, f"clone after {op}")
    filters, _ = gen.rand_exhaustive(rng)
    check_isomorphic(case, root, root.partition(*filters).merge(), want,
                     f"partition/merge after {op}")
    case.eq(gen.describe(root), want, "the original changed")
  case.sig(gen.recipe_sig(recipe), trace)


def mapped(case):
  """merge puts exactly the given values at their paths."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=6)
  root = gen.build(recipe, rng)[0]
  entries, _ = gen.expected_layout(recipe)
  state, moduledef = root.partition()
  new_state, want = {}, {}
  for path, v in state.items():
    if isinstance(v, nnx.Variable):
      x = jnp.asarray(float(gen.fresh()))
      new_state[path] = v.replace(value=x)
      want[path] = x
    else:
      new_state[path] = v
  merged = moduledef.merge(nnx.State(new_state))
  by_path = dict(merged.get_state().items())
  for path, _, name, spec in entries:
    raw = by_path[path]
    if path in want:
      case.check(type(raw) is spec[1], f"type at {path}")
      case.check(raw.value is want[path], f"merge lost the value given for {path}")
      # and it is the attribute seen through every route
      m = merged
      *parents, leaf = path.split("/")
      for p in parents:
        m = getattr(m, p)
      case.check(getattr(m, leaf) is want[path], f"attribute read at {path}")
  case.event("mapped_value", len(want))
  case.sig(gen.recipe_sig(recipe), len(want))


T = typing.TypeVar("T")


class Numbered(nnx.Module):
  """A `__new__` of its own that takes the constructor's arguments."""
  made = 0

  def __new__(cls, size, **kwargs):
    Numbered.made += 1
    return super().__new__(cls)

  def __init__(self, size, extra=None):
    Numbered.made += 100
    self.size = size
    self.w = nnx.Param(jnp.arange(float(size)))


class Typed(nnx.Module, typing.Generic[T]):
  limit: int = 3

  def __init__(self, item: T, /):
    self.item = item
    self.v = nnx.Variable(jnp.ones(2), tag=1)


class Base(nnx.Module, abc.ABC):

  def __init__(self, name):
    self.name = name

  @abc.abstractmethod
  def out(self):
    ...


class Derived(Base, Typed[int]):
  """Several bases, each with its part of the constructor."""

  def __init__(self, name):
    Base.__init__(self, name)
    Typed.__init__(self, len(name))
    self.twice = self.v  # reads as a value: a plain array

  def out(self):
    return self.v * self.limit


class Checked(nnx.Module):
  """Attributes validated when the user sets them, and a computed one."""

  def __init__(self, *, low, high):
    self.low, self.high = low, high
    self._cache = nnx.Cache(jnp.zeros(()))

  def __setattr__(self, name, value):
    if name == "high" and value <= self.low:
      raise ValueError("high")
    super().__setattr__(name, value)

  @property
  def middle(self):
    return (self.low + self.high) / 2


@nnx.dataclass
class Data(nnx.Module):
  sub: nnx.Module
  n: int = 3
  w: typing.Any = nnx.param_field(default_factory=lambda: jnp.ones(2))
  tags: tuple = dataclasses.field(default=("a",), init=False)

  def __post_init__(self):
    self.total = self.n + 1


class Slotted(nnx.Module):
  """A class attribute shadowed in some instances."""
  scale = 2.0
  kind = "default"

  def __init__(self, own):
    if own:
      self.scale = 3.0
      self.kind = nnx.Static("own")


def rand_object(rng, depth=0):
  kind = rng.choice(["numbered", "typed", "derived", "checked", "slotted"]
                    + (["data", "holder", "holder"] if depth < 3 else []))
  if kind == "numbered":
    return Numbered(rng.randint(1, 3), **({"extra": 1} if rng.random() < 0.5 else {}))
  if kind == "typed":
    return Typed(rng.choice(["x", 1, None]))
  if kind == "derived":
    return Derived("n" * rng.randint(1, 3))
  if kind == "checked":
    return Checked(low=rng.randint(0, 2), high=rng.randint(3, 5))
  if kind == "slotted":
    return Slotted(rng.random() < 0.5)
  if kind == "data":
    return Data(rand_object(rng, depth + 1), rng.randint(0, 5))
  m = nnx.Module()
  for j in range(rng.randint(1, 3)):
    setattr(m, f"s{j}", rand_object(rng, depth + 1))
  m.again = m.s0
  return m


def classes(case):
  """Classes with constructors, bases and class attributes of every style: rebuilding runs
  no constructor and gives the same class with the same attributes."""
  rng = case.rng
  m = rand_object(rng)
  want = gen.describe(m)
  made = Numbered.made
  filters, _ = gen.rand_exhaustive(rng)
  pure = m.partition(*filters)
  leaves, treedef = jax.tree_util.tree_flatten(m.partition())
  ways = {
      "merge": lambda: pure.merge(), "clone": lambda: m.clone(),
      "definition": lambda: m.get_module_def().merge(m.get_state()),
      "tree": lambda: treedef.unflatten(leaves).merge(),
      "apply": lambda: m.apply.get_state()[1],
  }
  if not any(isinstance(a, Numbered) for a in gen.all_modules(m)):
    ways["deepcopy"] = lambda: copy.deepcopy(m)
  for how, f in ways.items():
    c = f()
    check_isomorphic(case, m, c, want, how)
    for a, b in zip(gen.all_modules(m), gen.all_modules(c)):
      for name in ("limit", "scale", "kind", "middle", "tags"):
        if hasattr(type(a), name):
          case.check(getattr(a, name) == getattr(b, name), f"{how}: {name} of {type(a)}")
      if isinstance(a, Derived):
        case.close(a.out(), b.out(), f"{how}: method")
  seen = []
  nnx.jit(lambda q: seen.append(gen.describe(q, False)))(m)
  case.eq(gen.describe(m), want, "the module changed")
  case.check(len(seen) == 1 and [x[0] for x in seen[0]] == [x[0] for x in want],
             "classes inside jit")
  if Numbered.made != made:
    case.fail("rebuilding ran a constructor", count=Numbered.made - made)
  case.event("class_style", len(gen.all_modules(m)))
  case.sig([x[0].__name__ for x in want], len(filters))


FAMILIES = {
    "roundtrip": dict(fn=roundtrip, quick=2000),
    "independent": dict(fn=independent, quick=1000),
    "surgery": dict(fn=surgery, quick=600),
    "mapped": dict(fn=mapped, quick=500),
    "classes": dict(fn=classes, quick=160),
}
