"""C17: sharding metadata follows its variable through every operation."""
import jax
import jax.numpy as jnp
import numpy as np
import optax
from jax.sharding import Mesh, NamedSharding, PartitionSpec

import nnx
from nnx import spmd
from nnxmon import gen, under

ENV = {"XLA_FLAGS": "--xla_force_host_platform_device_count=8"}
RULE = (
    "Random states of variables with and without sharding names go through add_axis / "
    "remove_axis at every index against list operations; modules with sharded "
    "variables go through random chains of library operations (update, clone, jit, "
    "grad, remat, scan, optimizer) and lifted construction with a partition name, "
    "while the names every variable carries are observed outside and inside the body; "
    "partition specs are compared leaf by leaf and applied on an 8-device mesh; "
    "non-trivial = distinct (names, axes, chain)."
)
NEED = {"axis": 3000, "chain": 300, "scan_init": 70, "inside": 100, "spec": 300,
        "placed": 50, "refused": 60, "optimized": 5}

PN = nnx.PARTITION_NAME
NM = ["embed", "mlp", "heads", None, "vocab"]


def rand_sharding(rng, ndim=None, names=NM):
  if rng.random() < 0.2:
    return None
  k = ndim if ndim is not None else rng.choice([0, 1, 2, 3, 0, 1, 2, 3, 5])
  return tuple(rng.choice(names) for _ in range(k))


def a_function(x):
  return x


# other metadata a variable may carry, functions included
META = [{}, {}, {"init": a_function}, {"init": a_function, "tags": ("x", 1)},
        {"collection": "weights"}, {"info": None, "trainable": False}]


def meta(v):
  return {k: u for k, u in vars(v).items() if k not in ("value", "sharding")}


def rand_state(rng, exact=False, names=NM):
  """(State, {path: (kind, sharding)})"""
  out, want = {}, {}
  for j in range(rng.randint(1, 6)):
    path = f"{rng.choice('abc')}/{j}"
    ndim = rng.randint(0, 3)
    val = jnp.zeros((2,) * ndim) + j
    r = rng.random()
    if r < 0.65:
      s = rand_sharding(rng, ndim if exact else None, names)
      t = rng.choice([nnx.Param, nnx.BatchStat, nnx.Cache, gen.Extra])
      out[path] = t(val, sharding=s, tag=j, **rng.choice(META))
      want[path] = ("var", s, ndim)
    elif r < 0.8:
      out[path] = nnx.Node(val, tag=j)
      want[path] = ("node", None, ndim)
    elif r < 0.9:
      out[path] = gen.MyNode(val, sharding=("x",) * ndim)
      want[path] = ("var", ("x",) * ndim, ndim)
    else:
      out[path] = val
      want[path] = ("arr", None, ndim)
  return nnx.State(out), want


def ref_add(s, index, name):
  s = list(s)
  if index >= 0:
    s += [None] * (index - len(s))
    return tuple(s[:index] + [name] + s[index:])
  cut = len(s) + 1 + index
  return tuple(s[:cut] + [name] + s[cut:])


def axes_fn(case):
  rng = case.rng
  for _ in range(10):
    name = rng.choice(["layers", "stage", ("a", "b")])
    # the names a variable has may include the partition name itself (nested scans)
    names = NM if rng.random() < 0.5 else ["embed", name, None]
    state, want = rand_state(rng, names=names)
    shortest = min([len(s) for k, s, _ in want.values() if s is not None] or [3])
    index = rng.choice([0, 0, 1, 2, 3, rng.randint(4, 6)] + [i for i in (-1, -2, -3) if -i <= shortest + 1])
    params = {PN: name, "other": 1}
    before = gen.fp(state)
    case.note(index, name, {k: v[1] for k, v in want.items()})
    added = spmd.add_axis(state, index, params)
    case.eq(gen.fp(state), before, "add_axis changed its argument")
    case.eq(list(added), list(state), "paths")
    for p, (kind, s, _) in want.items():
      a, b = added[p], state[p]
      case.check(type(a) is type(b), "kind of leaf")
      if kind == "var" and s is not None:
        case.eq(a.sharding, ref_add(s, index, name), f"names of {p} after add_axis({index})")
        case.check(isinstance(a.sharding, tuple), "names stay a tuple")
        case.eq(meta(a), meta(b), "other metadata")
        case.check(a.value is b.value, "the value is not touched")
      else:
        case.eq(gen.fp(a), gen.fp(b), f"{p} has no names")
      case.event("axis")
    removed = spmd.remove_axis(added, index, params)
    for p, (kind, s, _) in want.items():
      if kind == "var" and s is not None:
        pad = s + (None,) * (index - len(s)) if index > len(s) else s
        case.eq(removed[p].sharding, pad, f"names of {p} after remove_axis({index})")
        case.check(type(removed[p]) is type(state[p]) and removed[p].value is state[p].value,
                   "variable after the round trip")
      else:
        case.eq(gen.fp(removed[p]), gen.fp(state[p]), f"{p} has no names")
      case.event("axis")
    case.sig(index, sorted(map(str, want.values())))
  for f in (spmd.add_axis, spmd.remove_axis):
    st = nnx.State({"w": nnx.Param(jnp.ones(()), sharding=("a",))})
    case.raises(ValueError, lambda: f(st, 0, {}), "no partition name")
    case.raises(ValueError, lambda: f(st, 0, {"x": 1}), "no partition name")
    case.event("refused", 2)


class Holder(nnx.Module):
  pass


def snapshot(m):
  """{path: (type, sharding)} of the raw variables, through every alias."""
  out = {}
  for q in gen.all_modules(m):
    for k, v in gen.user_vars(q).items():
      if isinstance(v, nnx.Variable):
        out[(id(q), k)] = (type(v), v.sharding)
  return out


def chains(case):
  """Names stay on their variable through random chains of operations."""
  rng = case.rng
  m = Holder()
  m.sub = Holder()
  m.again = m.sub
  want, metas = {}, {}
  for path, q in (("", m), ("sub/", m.sub)):
    for name in rng.sample(["w", "b", "k"], rng.randint(1, 3)):
      ndim = rng.randint(0, 2)
      s = rand_sharding(rng, ndim)
      t = rng.choice([nnx.Param, nnx.Param, nnx.Cache])
      md = rng.choice(META)
      setattr(q, name, t(jnp.ones((4,) * ndim), sharding=s, **md))
      # the shared submodule is reported under its first name
      want[("again/" if path else "") + name] = (t, s)
      metas[("again/" if path else "") + name] = md

  def total(m):
    return sum(jnp.sum(jnp.asarray(getattr(q, k)) ** 2)
               for q in gen.all_modules(m) for k, v in sorted(gen.user_vars(q).items())
               if isinstance(v, nnx.Variable)) + jnp.zeros(())

  def bump(m, *a):
    for q in gen.all_modules(m):
      for k, v in gen.user_vars(q).items():
        if isinstance(v, nnx.Variable):
          case.check(v.sharding == want_by_name(q, m, k), "names inside the body")
          case.check(meta(v) == metas[k if q is m else "again/" + k],
                     "metadata inside the body", got=meta(v))
          case.event("inside")
          setattr(q, k, getattr(q, k) + 1)
    return total(m)

  def want_by_name(q, m, k):
    return want[k if q is m else "again/" + k][1]

  def verify(m, what):
    st = m.get_state()
    case.eq({p: (type(v), v.sharding) for p, v in st.items()}, want, f"names after {what}")
    case.eq({p: meta(v) for p, v in st.items()}, metas, f"other metadata after {what}")
    spec = nnx.get_partition_spec(st)
    for p, (t, s) in want.items():
      exp = PartitionSpec(*s) if s else PartitionSpec()
      case.eq(spec[p], exp, f"partition spec of {p}")
      case.event("spec")
    leaves = m.mutable_state_dict()
    for p, (t, s) in want.items():
      case.eq(leaves[p].sharding, s, f"MutableLeaf.sharding of {p}")
    case.event("chain")

  log = []
  for _ in range(rng.randint(3, 6)):
    op = rng.choice(["set", "update", "clone", "jit", "remat", "grad", "leaf", "partition",
                     "merge", "tree", "tree_map", "pure_update", "scan", "pop"])
    log.append(op)
    case.note(op)
    if op == "set":
      bump(m)
    elif op == "update":
      m.update_state(jax.tree_map(lambda x: x * 2, m.get_state()))
    elif op == "clone":
      m = m.clone()
    elif op == "jit":
      nnx.jit(bump)(m)
    elif op == "remat":
      nnx.remat(bump)(m)
    elif op == "grad":
      g = nnx.grad(lambda m: bump(m) * 1.0, wrt=...)(m)
      case.eq({p: (type(v), v.sharding) for p, v in g.items()}, want, "names of the gradients")
    elif op == "leaf":
      for leaf in m.mutable_state_dict().values():
        leaf.value = leaf.value * 0.5
    elif op == "partition":
      (a, b), d = m.partition(nnx.Param, ...)
      m = d.merge(b, a)
    elif op == "merge":
      m = m.partition().merge()
    elif op == "tree":
      leaves, treedef = jax.tree_util.tree_flatten(m.partition())
      m = jax.tree_util.tree_unflatten(treedef, leaves).merge()
    elif op == "tree_map":
      m = jax.jit(lambda p: jax.tree_map(lambda x: x + 1, p))(m.partition()).merge()
    elif op == "pure_update":
      p = m.partition()
      m = p.update_state(jax.tree_map(lambda x: -x, p.states.filter(nnx.Param))).merge()
    elif op == "scan":
      nnx.scan(lambda m, c, x: (c + bump(m) * 0, x))(m, jnp.zeros(()), jnp.zeros((2,)))
    elif op == "pop":
      st = m.pop_state(nnx.Param)
      case.check(all(v.sharding == want[p][1] for p, v in st.items()), "names of popped state")
      m.update_state(st)
    verify(m, op)
  case.sig(log, sorted((k, v[1]) for k, v in want.items()))


def scanned(case):
  """Lifted construction adds the partition name; the body never sees it."""
  rng = case.rng
  L = rng.randint(1, 4)
  axes = {nnx.Param: rng.choice([0, 1, -1]), nnx.BatchStat: rng.choice([0, 1])}
  named = rng.random() < 0.8
  spec, metas = {}, {}
  for name in rng.sample(["w", "b", "k", "s", "c"], rng.randint(1, 5)):
    t = {"s": nnx.BatchStat, "c": nnx.Cache}.get(name, nnx.Param)
    ndim = rng.randint(1, 2)
    spec[name] = (t, rand_sharding(rng, ndim, NM if rng.random() < 0.7 else
                                   ["embed", "layers", None]), ndim)
    metas[name] = rng.choice(META)
  seen = []

  def init(self, *, ctx=None):
    for name, (t, s, ndim) in spec.items():
      setattr(self, name, t(jnp.ones((2,) * ndim), sharding=s, **metas[name]))

  def call(self, c, x, *, ctx=None):
    seen.append({k: v.sharding for k, v in gen.user_vars(self).items()
                 if isinstance(v, nnx.Variable)})
    for name in spec:
      setattr(self, name, getattr(self, name) * 2)
    if fresh is not None and not hasattr(self, "fresh"):
      self.fresh = nnx.Param(jnp.zeros((2, 2)), sharding=fresh)
    return c, x

  fresh = rng.choice([None, None, ("u", "v"), (None, "v")])
  kw = dict(variable_axes=axes, length=L)
  if named:
    kw["metadata_params"] = {PN: "layers"}
  route = rng.choice(["class", "decorator"])
  with_ctx = rng.random() < 0.5
  case.note(L, named, route, spec, axes, fresh)
  args = dict(ctx=nnx.context(0)) if with_ctx else {}
  if route == "class":
    Block = type("Block", (nnx.Module,), dict(__init__=init, __call__=call))
    outer = nnx.Scan(Block, split_rngs=..., **kw)(**args)
    m = outer.scan_module
    run = lambda: outer(jnp.zeros(()), jnp.zeros((L,)))
  else:
    init.__name__ = "__init__"
    Block = type("Block", (nnx.Module,), dict(
        __init__=nnx.scan(init, split_rngs=..., **kw), __call__=nnx.scan(call, **kw)))
    m = Block(**args)
    run = lambda: m(jnp.zeros(()), jnp.zeros((L,)))

  def verify(what, factor, extra=False):
    for name, (t, s, ndim) in spec.items():
      v = vars(m)[name]
      case.check(type(v) is t, "variable type")
      lifted = t in axes and named and s is not None
      want = ref_add(s, axes[t], "layers") if lifted else s
      case.eq(v.sharding, want, f"names of {name} {what}")
      case.eq(meta(v), metas[name], f"other metadata of {name} {what}")
      shape = [2] * ndim
      if t in axes:
        ax = axes[t]
        shape.insert(ax if ax >= 0 else ndim + 1 + ax, L)
      case.eq(list(v.value.shape), shape, f"shape of {name} {what}")
      if lifted:
        case.check(v.value.shape[axes[t]] == L and v.sharding[axes[t]] == "layers",
                   "the partition name marks the stacked dimension")
      f = factor if t in axes else factor ** L
      case.close(v.value, np.full(shape, f, np.float32), f"value of {name} {what}")
    if extra:
      v = vars(m)["fresh"]
      want = ref_add(fresh, axes[nnx.Param], "layers") if named else fresh
      case.eq(v.sharding, want, f"names of the variable created inside, {what}")

  verify("after construction", 1.0)
  case.event("scan_init")
  run()
  for inside in seen:
    for name, (t, s, _) in spec.items():
      case.eq(inside[name], s, f"names of {name} inside the body")
      case.event("inside")
  verify("after a call", 2.0, fresh is not None)
  p = nnx.get_partition_spec(m.get_state())
  for name in spec:
    s = vars(m)[name].sharding
    case.eq(p[name], PartitionSpec(*s) if s else PartitionSpec(), "partition spec")
    case.event("spec")
  case.sig(L, route, named, sorted((k, str(v)) for k, v in spec.items()), str(axes), fresh)


def specs(case):
  """Partition specs of whole training states mirror the tree; placing by them works."""
  rng = case.rng
  rank = rng.choice([1, 2])
  logical = rng.sample(["embed", "mlp", "heads"], 2)
  mesh = Mesh(np.array(jax.devices()[:8]).reshape(2, 4), ("X", "Y"))
  rules = rng.choice([
      [(logical[0], "X"), (logical[1], "Y")], [(logical[0], "Y")],
      [(logical[1], ("X", "Y"))], [(logical[0], None), (logical[1], "X")]])

  class Net(nnx.Module):

    def __init__(self):
      self.w = nnx.Param(jnp.ones((8,) * 2), sharding=tuple(logical))
      self.b = nnx.Param(jnp.ones((8,)))
      self.e = nnx.Param(jnp.ones((8,)), sharding=(logical[rank - 1],))
      self.s = nnx.BatchStat(jnp.zeros((8,)), sharding=(logical[0],))
      self.n = jnp.zeros((), jnp.int32)

    def __call__(self, x):
      self.s = self.s + 1
      return x @ self.w + self.b * self.e

  m = Net()
  (params, rest), moduledef = m.partition(nnx.Param, ...)
  tx = rng.choice([optax.adam(0.1), optax.sgd(0.1, momentum=0.9), optax.adamw(0.1)])
  state = nnx.TrainState(moduledef, params=params, tx=tx, rest=rest)
  spec = nnx.get_partition_spec(state)
  ref = {"w": PartitionSpec(*logical), "b": PartitionSpec(),
         "e": PartitionSpec(logical[rank - 1]), "s": PartitionSpec(logical[0]),
         "n": PartitionSpec()}
  names = {p: ref[p] for p in ("w", "b", "e")}
  case.eq(dict(spec.params.items()), names, "spec of the parameters")
  case.eq(dict(spec.rest.items()), {p: ref[p] for p in ("s", "n")}, "spec of the rest")
  mirrored = [s for s in jax.tree_util.tree_leaves(
      spec.opt_state, is_leaf=lambda x: isinstance(x, nnx.State)) if isinstance(s, nnx.State)]
  case.check(len(mirrored) >= 1, "optimizer moments mirror the parameters")
  for s in mirrored:
    case.eq(dict(s.items()), names, "spec of an optimizer moment")
    case.event("spec")
  mesh_spec = nnx.logical_to_mesh(spec, rules)
  from checks.c16 import expect
  isspec = lambda x: isinstance(x, PartitionSpec)
  for a, b in zip(jax.tree_util.tree_leaves(spec, is_leaf=isspec),
                  jax.tree_util.tree_leaves(mesh_spec, is_leaf=isspec)):
    case.eq(tuple(b), tuple(expect(tuple(a), rules)), "logical to mesh")
  # place the parameters by their spec and read the placement back
  shardings = spmd.logical_to_mesh_sharding(spec.params, mesh, rules)
  vals = {p: params[p].value for p in params}
  placed = {p: jax.device_put(vals[p], shardings[p]) for p in params}
  m.update_state(nnx.State(placed))
  for p in params:
    v = vars(m)[p]
    want = NamedSharding(mesh, expect(tuple(ref[p]), rules))
    case.check(v.value.sharding.is_equivalent_to(want, v.value.ndim), "placement",
               got=v.value.sharding, want=want)
    case.eq(v.sharding, params[p].sharding, "names after placing")
    case.event("placed")
  with mesh:
    jitted = nnx.jit(lambda m, x: m(x))
    out = jitted(m, jnp.ones((8, 8)))
  case.close(out, np.full((8, 8), 9.0, np.float32), "computation on the placed module")
  case.eq({p: v.sharding for p, v in m.get_state().items() if isinstance(v, nnx.Variable)},
          {"w": tuple(logical), "b": None, "e": (logical[rank - 1],), "s": (logical[0],)},
          "names after nnx.jit")
  case.sig(rank, logical, str(rules), str(len(mirrored)))


def optimized(case):
  """The lifted axes are right in an interpreter that strips assert statements."""
  k = 10000 + 10 * case.index
  under.python(case, ["-O"], "scanned", range(k, k + 6))
  under.python(case, ["-O"], "chains", range(k, k + 4))
  case.event("optimized", 10)
  case.sig("optimized", case.index)


FAMILIES = {
    "optimized": dict(fn=optimized, quick=1, thorough=6),
    "axes": dict(fn=axes_fn, quick=70),
    "chains": dict(fn=chains, quick=120),
    "scanned": dict(fn=scanned, quick=110),
    "specs": dict(fn=specs, quick=24),
}
