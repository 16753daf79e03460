"""C16: logical axis rules decide mesh axes by precedence; contexts nest; constraints hold."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np
from jax.sharding import Mesh, NamedSharding, PartitionSpec

import nnx
from nnx import spmd
from nnxmon import gen

ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=8"}
RULE = (
    "Random logical names and precedence rules (None, tuples, repeats, conflicts) against "
    "a reference assignment; random nestings of rule contexts with exceptions against a "
    "stack; constraints and logically partitioned variables on an 8-device CPU mesh, "
    "eager and jitted, where the physical sharding of every result is read back; "
    "non-trivial = distinct (names, rules, mesh, route)."
)
NEED = {"assignment": 3000, "duplicate": 60, "context": 600, "physical": 250, "raised": 80,
        "noop": 100, "variable": 50, "late": 40}

NAMES = ["batch", "embed", "heads", "mlp", "vocab", "kv"]
MESHES = [((2, 4), ("X", "Y")), ((8,), ("X",)), ((2, 2, 2), ("X", "Y", "Z")), ((1, 8), ("X", "Y")),
          ((4, 2), ("Y", "Z"))]


def rand_rules(rng, axes=("X", "Y", "Z"), extra=("W",)):
  pool = list(axes) + list(extra)
  out = []
  for _ in range(rng.choice([*range(8), 12, 20])):
    r = rng.random()
    if r < 0.2:
      to = None
    elif r < 0.75:
      to = rng.choice(pool)
    else:
      to = tuple(rng.sample(pool, min(len(pool), rng.randint(1, 2))))
    out.append((rng.choice(NAMES), to))
  return tuple(out) if rng.random() < 0.5 else out


def assign(names, rules):
  """Reference: {name: mesh axes} of the dimensions that a rule decides."""
  out, used = {}, set()
  for name, to in rules:
    axes = () if to is None else (to,) if isinstance(to, str) else tuple(to)
    if name in names and name not in out and not used & set(axes):
      out[name] = to
      used |= set(axes)
  return out


def expect(names, rules):
  a = assign([n for n in names if n is not None], rules)
  return PartitionSpec(*[a.get(n) if n is not None else None for n in names])


def rand_names(rng, k=None, none=0.25):
  k = rng.randint(0, 4) if k is None else k
  names = rng.sample(NAMES, k)
  return tuple(None if rng.random() < none else n for n in names)


def rules_fn(case):
  rng = case.rng
  for _ in range(12):
    names, rules = rand_names(rng), rand_rules(rng)
    want = expect(names, rules)
    case.note(names, rules)
    case.eq(tuple(spmd.logical_to_mesh_axes(names, rules)), tuple(want), "assignment")
    case.eq(tuple(spmd.logical_to_mesh_axes(list(names), rules)), tuple(want), "from a list")
    with nnx.logical_axis_rules(rules):
      case.eq(tuple(spmd.logical_to_mesh_axes(names)), tuple(want), "rules of the context")
      other = rand_rules(rng)
      case.eq(tuple(spmd.logical_to_mesh_axes(names, other)), tuple(expect(names, other)),
              "explicit rules win over the context")
      # trees of specs
      n2 = rand_names(rng)
      tree = {"a": PartitionSpec(*names), "b": (PartitionSpec(*n2), PartitionSpec())}
      got = nnx.logical_to_mesh(tree)
      case.eq(got, {"a": want, "b": (expect(n2, rules), PartitionSpec())}, "logical_to_mesh")
      st = nnx.State({"x/w": PartitionSpec(*n2)})
      case.eq(nnx.logical_to_mesh(st, other)["x/w"], expect(n2, other), "State of specs")
    case.event("assignment", 5)
    used = [a for p in want for a in ([] if p is None else [p] if isinstance(p, str) else p)]
    case.check(len(used) == len(set(used)), "harness: an axis is used once")
    case.sig(names, [tuple(r) for r in rules])
  case.check(spmd.logical_to_mesh_axes(None, ()) is None, "no names")
  n = rng.choice(NAMES)
  dup = [n, rng.choice(NAMES), None, n]
  rng.shuffle(dup)
  case.raises(ValueError, lambda: spmd.logical_to_mesh_axes(tuple(dup), rand_rules(rng)),
              "a repeated dimension name")
  case.event("duplicate")
  case.eq(tuple(spmd.logical_to_mesh_axes((None, None, n), [(n, "X")])), (None, None, "X"),
          "repeated None is fine")
  for bad in ({"batch": "X"}, "batch", 3):
    case.raises(ValueError, lambda: spmd.logical_to_mesh_axes(("batch",), bad), "rule type")


class Stop(Exception):
  pass


def contexts(case):
  """A random nesting of rule contexts behaves like a stack."""
  rng = case.rng
  stack = [spmd.get_logical_axis_rules()]
  base = stack[0]
  log = []

  def look():
    case.check(tuple(spmd.get_logical_axis_rules()) == tuple(stack[-1]), "rules in force",
               got=spmd.get_logical_axis_rules(), want=stack[-1])
    names = rand_names(rng)
    case.eq(tuple(spmd.logical_to_mesh_axes(names)), tuple(expect(names, stack[-1])),
            "assignment in the context")
    case.event("context")

  def go(depth):
    for _ in range(rng.randint(1, 3)):
      look()
      r = rng.random()
      rules = rand_rules(rng)
      if r < 0.55 and depth < 4:
        log.append(("enter", depth))
        try:
          with nnx.logical_axis_rules(rules):
            stack.append(rules)
            go(depth + 1)
            if rng.random() < 0.35:
              log.append(("raise", depth))
              raise Stop()
        except Stop:
          pass
        finally:
          stack.pop()
        look()
      elif r < 0.7:
        log.append(("set", depth))
        spmd.set_logical_axis_rules(rules)
        stack[-1] = rules
      elif r < 0.85:
        # inside a jitted function
        log.append(("jit", depth))

        @jax.jit
        def f(x):
          with nnx.logical_axis_rules(rules):
            case.check(tuple(spmd.get_logical_axis_rules()) == tuple(rules), "rules inside jit")
          look()
          return x

        f(1.0)
      else:
        with contextlib.ExitStack() as es:
          for _ in range(2):
            r2 = rand_rules(rng)
            es.enter_context(nnx.logical_axis_rules(r2))
            case.check(tuple(spmd.get_logical_axis_rules()) == tuple(r2), "rules in an exit stack")
      look()

  go(0)
  spmd.set_logical_axis_rules(base)
  case.sig(log)


def mk_mesh(rng):
  shape, names = rng.choice(MESHES)
  return Mesh(np.array(jax.devices()[:8]).reshape(shape), names)


def physical_ok(case, x, mesh, spec, what):
  want = NamedSharding(mesh, spec)
  case.check(x.sharding.is_equivalent_to(want, x.ndim), what, got=x.sharding, want=want)
  case.eq(x.sharding.shard_shape(x.shape), want.shard_shape(x.shape), what + ": shard shape")
  case.event("physical")


def constraints(case):
  rng = case.rng
  mesh = mk_mesh(rng)
  ndim = rng.randint(1, 3)
  names = rand_names(rng, ndim)
  rules = list(rand_rules(rng, mesh.axis_names, ()))
  x = jnp.asarray(case.np.normal(size=[8] * ndim).astype(np.float32))
  spec = expect(names, rules)
  while not fits(mesh, spec):
    rules = list(rand_rules(rng, mesh.axis_names, ()))
    spec = expect(names, rules)
  case.note(mesh.shape, names, rules)
  case.sample((dict(mesh.shape), names, rules, str(spec)))
  route = rng.choice(["arg", "global", "none", "context"])
  jit = rng.random() < 0.5
  wrap = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  tree = rng.random() < 0.4
  # (no resources at all) inside a tree: replicated, in every route
  res = {"a": names, "b": rng.choice([(None,) * ndim, None])} if tree else names
  val = {"a": x, "b": x + 1} if tree else x
  if route == "arg":
    f = lambda v: nnx.with_logical_constraint(v, res, rules=rules, mesh=mesh)
    out = wrap(f)(val)
  elif route == "global":
    # a mesh context resolves bare specs inside jit
    f = lambda v: nnx.with_logical_constraint(v, res, rules=rules)
    with mesh:
      out = jax.jit(f)(val)
  elif route == "context":
    def f(v):
      return nnx.with_logical_constraint(v, res, mesh=mesh)
    with nnx.logical_axis_rules(rules):
      out = wrap(f)(val)
  else:
    out = nnx.with_logical_constraint(val, res, rules=rules)
    for a, b in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(val)):
      case.check(a is b, "without a mesh the value is returned as it is")
    case.event("noop")
  case.close(out, val, "values", rtol=0, atol=0)
  if route != "none" and rules:
    physical_ok(case, out["a"] if tree else out, mesh, spec, f"{route} jit={jit}")
    if tree:
      physical_ok(case, out["b"], mesh, PartitionSpec(), "explicitly unsharded")
  # no rules, or no resources: nothing happens
  same = nnx.with_logical_constraint(x, names, rules=(), mesh=mesh)
  case.check(same is x, "no rules")
  case.check(nnx.with_logical_constraint(x, None, rules=rules, mesh=mesh) is x, "no resources")
  case.check(nnx.with_logical_constraint(x, names, mesh=mesh) is x, "no rules in the context")
  case.event("noop", 3)
  case.sig(dict(mesh.shape), names, rules, route, jit, tree)


def fits(mesh, spec):
  return all(8 % int(np.prod([mesh.shape[a] for a in
                               (() if p is None else (p,) if isinstance(p, str) else p)]
                              or [1])) == 0 for p in spec)


def fallbacks(case):
  rng = case.rng
  mesh = mk_mesh(rng)
  ndim = rng.randint(1, 3)
  names = rand_names(rng, ndim, none=0.0)
  rules = list(rand_rules(rng, mesh.axis_names, ())) or [("other", None)]
  while not fits(mesh, expect(names, rules)):
    rules = list(rand_rules(rng, mesh.axis_names, ())) or [("other", None)]
  x = jnp.asarray(case.np.normal(size=[8] * ndim).astype(np.float32))
  decided = assign(names, rules)
  complete = all(n in decided for n in names)
  spec = expect(names, rules)
  case.note(mesh.shape, names, rules, decided)
  jit = rng.random() < 0.5
  wrap = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  run = lambda fb: wrap(lambda v: nnx.with_logical_constraint(
      v, names, rules=rules, mesh=mesh, fallback=fb))(x)
  F = spmd.RulesFallback
  out = run(F.AXIS_IS_UNSHARDED)
  physical_ok(case, out, mesh, spec, "unsharded fallback")
  if complete:
    physical_ok(case, run(F.RAISE_ERROR), mesh, spec, "all axes have a rule")
    physical_ok(case, run(F.NO_CONSTRAINT), mesh, spec, "all axes have a rule")
  else:
    case.raises(ValueError, lambda: run(F.RAISE_ERROR), "an axis without a rule")
    case.event("raised")
    out = run(F.NO_CONSTRAINT)
    case.check(len(out.sharding.device_set) == 1, "no constraint: the value stays where it is")
    case.event("noop")
  case.close(out, x, "values", rtol=0, atol=0)
  case.sig(dict(mesh.shape), names, rules, jit)


def variables(case):
  """with_logical_partitioning: metadata of the variable, constraint when read."""
  rng = case.rng
  mesh = mk_mesh(rng)
  ndim = rng.randint(1, 3)
  names = rand_names(rng, ndim)
  rules = list(rand_rules(rng, mesh.axis_names, ()))
  while not rules or not fits(mesh, expect(names, rules)):
    rules = list(rand_rules(rng, mesh.axis_names, ()))
  spec = expect(names, rules)
  own = rng.random() < 0.5  # mesh and rules on the variable, or from the context
  case.note(mesh.shape, names, rules, "own", own)
  value = case.np.normal(size=[8] * ndim).astype(np.float32)

  class Foo(nnx.Module):

    def __init__(self):
      init = nnx.with_logical_partitioning(
          lambda: jnp.asarray(value), names,
          **(dict(mesh=mesh, rules=rules) if own else {}), extra=5)
      self.w = nnx.Param(init())
      self.sub = nnx.Dict(w2=nnx.Param(init()))

    def __call__(self):
      return self.w * 1.0 + 0.0 * self.sub.w2

  scope = contextlib.ExitStack()
  with scope:
    if not own:
      scope.enter_context(mesh)
      scope.enter_context(nnx.logical_axis_rules(rules))
    if own and rng.random() < 0.5:
      m = Foo()
    else:
      m = jax.jit(lambda: Foo().partition())().merge()
    c = vars(m)["w"]
    case.check(c.sharding == names and c.extra == 5, "metadata of the variable")
    case.close(np.asarray(m.w), value, "value", rtol=0, atol=0)
    physical_ok(case, c.value, mesh, spec, "stored value")
    if own:
      physical_ok(case, m.w, mesh, spec, "value read from the module")
    got = jax.jit(lambda p: p.merge().w)(m.partition())
    physical_ok(case, got, mesh, spec, "value read inside jit")
    # updates keep the metadata, reads re-apply the constraint
    if own:
      m.w = jnp.asarray(value) + 1
      case.check(vars(m)["w"].sharding == names, "metadata after an update")
      physical_ok(case, m.w, mesh, spec, "updated value read from the module")
    f = nnx.jit(lambda m: (setattr(m, "w", m.w * 2), m())[1])
    before = np.asarray(m.w)
    out = f(m)
    case.close(np.asarray(out), before * 2, "value computed under nnx.jit")
    physical_ok(case, m.w, mesh, spec, "after nnx.jit")
  state = m.get_state()
  want = PartitionSpec(*names) if names else PartitionSpec()
  case.eq(nnx.get_partition_spec(state), nnx.State({"w": want, "sub/w2": want}),
          "logical spec of the state")
  shardings = spmd.logical_to_mesh_sharding(nnx.get_partition_spec(state), mesh, rules)
  case.eq(shardings["w"], NamedSharding(mesh, spec), "logical_to_mesh_sharding")
  case.event("variable")
  case.sig(dict(mesh.shape), names, rules, own)


def late(case):
  """A variable made without a mesh holds the initializer's value; later reads under rules and
  a mesh are constrained, reads without them give the stored value."""
  rng = case.rng
  mesh = mk_mesh(rng)
  ndim = rng.randint(1, 3)
  names = rand_names(rng, ndim)
  rules = list(rand_rules(rng, mesh.axis_names, ()))
  while not rules or not fits(mesh, expect(names, rules)):
    rules = list(rand_rules(rng, mesh.axis_names, ()))
  spec = expect(names, rules)
  value = case.np.normal(size=[8] * ndim).astype(np.float32)
  own_rules = rng.random() < 0.5
  under = rng.random() < 0.5  # rules alone are not enough
  calls = []

  def initializer(key, shape, dtype=jnp.float32):
    calls.append((shape, dtype))
    return jnp.asarray(value, dtype)

  init = nnx.with_logical_partitioning(initializer, names,
                                       **(dict(rules=rules) if own_rules else {}), tag=7)
  case.note(mesh.shape, names, rules, own_rules, under)
  key = jax.random.PRNGKey(0)
  with contextlib.ExitStack() as es:
    if under and not own_rules:
      es.enter_context(nnx.logical_axis_rules(rules))
    m = nnx.Dict(w=nnx.Param(init(key, (8,) * ndim, dtype=jnp.float32)))
    stored = vars(m)["w"]
    case.eq((stored.sharding, stored.tag, stored.mesh), (names, 7, None), "metadata")
    case.eq(calls, [((8,) * ndim, jnp.float32)], "arguments of the initializer")
    case.check(stored.value is m.w, "read without a mesh")
    case.close(np.asarray(m.w), value, "value", rtol=0, atol=0)
    case.eq(len(m.w.sharding.device_set), 1, "no mesh: nothing is placed")
    case.close(jax.jit(lambda p: p.merge().w)(m.partition()), value, "read inside jit",
               rtol=0, atol=0)
    m.w = m.w + 1
    case.check(vars(m)["w"].sharding == names, "metadata after an update")
    case.close(np.asarray(m.w), value + 1, "updated value", rtol=0, atol=0)
  with mesh:
    if not own_rules:
      case.eq(len(m.w.sharding.device_set), 1, "a mesh without rules places nothing")
    with contextlib.ExitStack() as es:
      if not own_rules:
        es.enter_context(nnx.logical_axis_rules(rules))
      physical_ok(case, jax.jit(lambda p: p.merge().w)(m.partition()), mesh, spec,
                  "read under a mesh, jitted")
      physical_ok(case, m.w, mesh, spec, "read under a mesh")
      case.close(np.asarray(m.w), value + 1, "value under a mesh", rtol=0, atol=0)
  case.eq(len(m.w.sharding.device_set), 1, "reads do not move the stored value")
  # the metadata the variable carries now decides, not what it was made with
  mesh2, names2 = mk_mesh(rng), rand_names(rng, ndim)
  rules2 = list(rand_rules(rng, mesh2.axis_names, ()))
  if rules2 and fits(mesh2, expect(names2, rules2)):
    new = vars(m)["w"].replace(value=jnp.asarray(value), mesh=mesh2, sharding=names2,
                               rules=rules2)
    del m.w
    m.w = new
    with mesh if rng.random() < 0.5 else contextlib.nullcontext():
      physical_ok(case, m.w, mesh2, expect(names2, rules2), "read after a metadata update")
      case.close(np.asarray(m.w), value, "value after a metadata update", rtol=0, atol=0)
    # without rules of its own it follows those of the context, if any
    new = vars(m)["w"].replace(value=jnp.asarray(value), rules=None)
    del m.w
    m.w = new
    case.eq(len(m.w.sharding.device_set), 1, "no rules, own or of the context")
    with nnx.logical_axis_rules(rules2):
      physical_ok(case, m.w, mesh2, expect(names2, rules2), "read after its rules were removed")
    case.event("replaced")
  case.event("late")
  case.sig(dict(mesh.shape), names, rules, own_rules, under)


FAMILIES = {
    "late": dict(fn=late, quick=60),
    "rules": dict(fn=rules_fn, quick=90),
    "contexts": dict(fn=contexts, quick=120),
    "constraints": dict(fn=constraints, quick=150),
    "fallbacks": dict(fn=fallbacks, quick=150),
    "variables": dict(fn=variables, quick=80),
}
