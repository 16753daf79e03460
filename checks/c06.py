"""C06: container attributes read as values and keep type and metadata when assigned."""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np

import nnx
from nnxmon import gen

RULE = (
    "Random histories of attribute operations (get, set value, set container, delete, "
    "share a container between modules, sow, mutable_state_dict writes, container "
    "replace/copy/compare) on random modules, checked operation by operation against a "
    "model that stores (type, metadata, value); non-trivial = distinct history."
)
NEED = {"read": 2000, "assign_value": 800, "assign_container": 400, "rejection": 300,
        "sow": 400, "mutable_leaf": 400, "container_op": 400,
        "leaf_variable": 200}


class Model:
  """name -> ("c", type, metadata, value) | ("v", value)"""

  def __init__(self):
    self.attrs = {}

  def set(self, name, value):
    """Returns False when the assignment must be refused."""
    cur = self.attrs.get(name)
    if isinstance(value, nnx.Container):
      t = type(value)
      md = {k: v for k, v in vars(value).items() if k != "value"}
      val = vars(value)["value"]
      if cur is not None and cur[0] == "c":
        if cur[1] is not t or gen.fp(cur[2]) != gen.fp(md):
          return False
      self.attrs[name] = ("c", t, md, val)
    elif cur is not None and cur[0] == "c":
      self.attrs[name] = ("c", cur[1], cur[2], value)
    else:
      self.attrs[name] = ("v", value)
    return True


def check_module(case, m, model, what):
  got = gen.user_vars(m)
  case.eq(sorted(got), sorted(model.attrs), f"{what}: attribute names")
  for n, a in model.attrs.items():
    value = getattr(m, n)
    case.event("read")
    if a[0] == "c":
      raw = got[n]
      case.check(type(raw) is a[1], f"{what}: container type of {n}", got=type(raw),
                 want=a[1])
      case.eq(gen.fp({k: v for k, v in vars(raw).items() if k != "value"}),
              gen.fp(a[2]), f"{what}: metadata of {n}")
      case.check(vars(raw)["value"] is a[3], f"{what}: stored value of {n}",
                 got=vars(raw)["value"], want=a[3])
      case.check(value is a[3], f"{what}: reading {n} gives the stored value", got=value)
    else:
      case.check(value is a[1], f"{what}: plain attribute {n}", got=value, want=a[1])


def history(case):
  gen.reset_fresh()
  rng = case.rng
  mods = [rng.choice(gen.MODULE_CLASSES)() for _ in range(rng.randint(1, 3))]
  models = [Model() for _ in mods]
  pool = []  # containers that circulate between modules
  ops = []
  names = rng.sample(["a", "b", "w", "_p", "k1", "x"], 4)
  for _ in range(rng.randint(4, 14)):
    i = rng.randrange(len(mods))
    m, model = mods[i], models[i]
    n = rng.choice(names)
    op = rng.choice(["value", "value", "container", "same_type", "shared", "del", "static",
                     "raw_from_other", "module"])
    case.note(op, i, n)
    ops.append(op)
    if op == "value":
      v = gen.rand_value(rng)
      model.set(n, v)
      setattr(m, n, v)
      case.event("assign_value")
    elif op in ("container", "same_type", "shared", "raw_from_other"):
      cur = model.attrs.get(n)
      if op == "shared" and pool:
        c = rng.choice(pool)
      elif op == "raw_from_other":
        j = rng.randrange(len(mods))
        raws = [v for v in gen.user_vars(mods[j]).values() if isinstance(v, nnx.Container)]
        if not raws:
          continue
        c = rng.choice(raws)
      elif op == "same_type" and cur is not None and cur[0] == "c" and cur[1] is not nnx.Static:
        c = cur[1](gen.rand_value(rng), **cur[2])
      else:
        c = gen.make_value(rng.choice([
            ("var", rng.choice(gen.VAR_TYPES), gen.rand_value(rng), gen.rand_metadata(rng)),
            ("var", rng.choice(gen.PLAIN_NODES), gen.rand_value(rng), {}),
            ("staticc", gen.fresh()),
        ]))
        pool.append(c)
      c_fp = gen.fp(c)
      if model.set(n, c):
        setattr(m, n, c)
        case.check(gen.user_vars(m)[n] is not c, "the stored container is the caller's")
        case.event("assign_container")
      else:
        case.raises(ValueError, lambda: setattr(m, n, c), "incompatible container",
                    match="incompatible")
      case.eq(gen.fp(c), c_fp, "assigning a container changed it")
    elif op == "del" and n in model.attrs:
      delattr(m, n)
      del model.attrs[n]
    elif op == "static":
      v = ("static", gen.fresh())
      model.set(n, v)
      setattr(m, n, v)
      case.event("assign_value")
    elif op == "module":
      if model.attrs.get(n, ("v",))[0] == "v":
        v = gen.M0()
        model.attrs[n] = ("v", v)
        setattr(m, n, v)
    for k, (mm, mo) in enumerate(zip(mods, models)):
      check_module(case, mm, mo, f"module {k} after {op} on module {i}")
  for mm in mods:
    case.raises(AttributeError, lambda: mm.never_set, "missing attribute")
  case.sig(ops, names)
  case.sample(ops)


@nnx.dataclass
class SowField(nnx.Module):
  h: tuple = nnx.var_field(nnx.Intermediate, default=())


class SubSown(nnx.Intermediate):
  pass


def sow(case):
  gen.reset_fresh()
  rng = case.rng
  m = rng.choice([gen.M0, gen.M4, gen.M4, SowField])()
  model = {"h": ("sown", nnx.Intermediate, ())} if isinstance(m, SowField) else {}
  tags = {}
  long = rng.random() < 0.1  # many values of one name
  only = rng.choice([nnx.Intermediate, nnx.Cache, SubSown])
  for _ in range(rng.randint(30, 60) if long else rng.randint(3, 12)):
    name = rng.choice(["y"] if long else ["y", "z", "a", "w", "h"])
    if rng.random() < (0.01 if long else 0.1):  # collected, the next one starts again
      t = rng.choice([nnx.Intermediate, nnx.Cache])
      got = m.pop_state(t)
      case.eq(sorted(got), sorted(n for n, v in model.items()
                                  if v[0] != "plain" and issubclass(v[1], t)), "collected")
      model = {n: v for n, v in model.items() if n not in got}
      tags = {n: v for n, v in tags.items() if n not in got}
      continue
    t = rng.choice([nnx.Intermediate, nnx.Intermediate, nnx.Cache, gen.Extra, SubSown,
                    nnx.Variable])
    if long and rng.random() < 0.95:
      t = only
    v = gen.rand_array(rng)
    v = rng.choice([v, v, (v, gen.fresh()), (), (v,), [v], None, "text", {"k": v}])
    kind = rng.random()
    if kind < 0.08 and name not in model:
      v0 = rng.choice([gen.rand_array(rng), ("plain",)])
      setattr(m, name, v0)
      model[name] = ("plain", v0)
    elif kind < 0.16 and name not in model:
      v0 = gen.rand_array(rng)
      setattr(m, name, t(v0))
      model[name] = ("nontuple", t, v0)
    elif kind < 0.3 and name not in model:
      # values given by hand, with metadata
      v0, md = (gen.rand_array(rng),) * rng.randint(0, 2), dict(tag=gen.fresh())
      setattr(m, name, t(v0, **md))
      model[name] = ("sown", t, v0)
      tags[name] = md["tag"]
    cur = model.get(name)
    before = gen.describe(m)
    if cur is None:
      m.sow(t, name, v)
      model[name] = ("sown", t, (v,))
    elif cur[0] == "sown" and cur[1] is t:
      m.sow(t, name, v)
      model[name] = ("sown", t, cur[2] + (v,))
    else:
      case.raises(ValueError, lambda: m.sow(t, name, v), "sow into an unsuitable attribute")
      case.eq(gen.describe(m), before, "a refused sow changed the module")
    case.event("sow")
    for n, mo in model.items():
      raw = gen.user_vars(m)[n]
      if mo[0] == "sown":
        case.check(type(raw) is mo[1], "type of the sown variable")
        case.eq({k: x for k, x in vars(raw).items() if k != "value"},
                {"sharding": None, **({"tag": tags[n]} if n in tags else {})},
                "metadata of the sown variable")
        case.eq(len(raw.value), len(mo[2]), f"number of values sown in {n}")
        case.check(all(a is b for a, b in zip(raw.value, mo[2])), "values in call order")
        case.check(isinstance(getattr(m, n), tuple), "reads as a tuple")
  case.sig([(n, mo[0], len(mo[2]) if mo[0] == "sown" else 0)
            for n, mo in sorted(model.items())])


def mutable_leaves(case):
  """mutable_state_dict: reads and writes go to the module attribute at the path."""
  gen.reset_fresh()
  rng = case.rng
  recipe = gen.rand_recipe(rng, max_modules=5, share=0.6)
  mods = gen.build(recipe, rng)
  entries, _ = gen.expected_layout(recipe)
  leaves = mods[0].mutable_state_dict()
  case.eq(list(leaves), [p for p, *_ in entries], "keys")
  for path, i, n, spec in entries:
    leaf = leaves[path]
    case.check(gen.fp(leaf.value) == gen.fp(getattr(mods[i], n)), "leaf.value", path=path)
    want = spec[3].get("sharding") if spec[0] == "var" else None
    case.eq(leaf.sharding, want, f"leaf.sharding at {path}")
    case.event("mutable_leaf")
  wrote = []
  for path, i, n, spec in entries:
    if rng.random() < 0.5 and spec[0] in ("var", "arr"):
      v = gen.rand_array(rng)
      leaves[path].value = v
      case.check(getattr(mods[i], n) is v, f"write through the leaf at {path}")
      recipe[i]["attrs"][n] = (spec[0], spec[1], v, spec[3]) if spec[0] == "var" else (
          "arr", v)
      wrote.append(path)
      case.check(leaves[path].value is v, "the leaf reads its own write")
  case.eq(gen.describe(mods[0]), gen.describe_recipe(recipe), "module after leaf writes")
  # a variable written through a leaf is an assignment like any other
  for path, i, n, spec in entries:
    if spec[0] == "var" and rng.random() < 0.5:
      raw = gen.user_vars(mods[i])[n]
      v = gen.rand_array(rng)
      leaves[path].value = raw.replace(value=v)
      case.check(getattr(mods[i], n) is v, f"compatible variable written at {path}")
      recipe[i]["attrs"][n] = (spec[0], spec[1], v, spec[3])
      md = {k: x for k, x in vars(raw).items() if k != "value"}
      other = rng.choice([t for t in gen.VAR_TYPES if t is not type(raw)])
      for bad in (other(v, **{"sharding": None, **md}), type(raw)(v, **md, unknown_to_it=1)):
        case.raises(ValueError, lambda: setattr(leaves[path], "value", bad),
                    "incompatible variable through a leaf", match="incompatible")
      case.event("leaf_variable")
  case.eq(gen.describe(mods[0]), gen.describe_recipe(recipe), "module after leaf variables")
  # writes to the module show through the leaves
  for path, i, n, spec in entries:
    if spec[0] == "var":
      v = gen.rand_array(rng)
      setattr(mods[i], n, v)
      case.check(leaves[path].value is v, f"leaf at {path} is stale")
  case.sig(gen.recipe_sig(recipe), wrote)


def picklable(x):
  try:
    pickle.dumps(x)
  except Exception:  # pylint: disable=broad-except
    return False
  return True


def containers(case):
  """replace / copy / == / constructors of containers on their own."""
  gen.reset_fresh()
  rng = case.rng
  t = rng.choice(gen.VAR_TYPES + gen.PLAIN_NODES + [nnx.TreeNode])
  var = issubclass(t, nnx.Variable)
  md = gen.rand_metadata(rng, var)
  v = rng.choice([gen.fresh(), f"v{gen.fresh()}", (1, gen.fresh()), None])
  c = t(v, **md)
  full = dict(md)
  if var:
    full.setdefault("sharding", None)
  for k, x in full.items():
    case.check(getattr(c, k) is x or getattr(c, k) == x, f"metadata {k}")
  case.check(c.value == v, "value")
  fp0 = gen.fp(c)
  d = c.copy()
  case.check(d is not c and d == c and type(d) is t, "copy")
  w = (2, gen.fresh())
  r = c.replace(value=w)
  case.check(type(r) is t and r.value is w, "replace(value)")
  case.eq(gen.fp({k: x for k, x in vars(r).items() if k != "value"}), gen.fp(full),
          "replace keeps metadata")
  case.check(not (r == c), "different values compare equal")
  r2 = c.replace(value=t(w, **md))
  case.check(r2 == r, "replace with a compatible container takes its value")
  for k in full:
    r3 = c.replace(**{k: ("changed", gen.fresh())})
    case.check(getattr(r3, k) != full[k] and not (r3 == c), f"replace metadata {k}")
    case.check(r3.value == v, "replace of metadata keeps the value")
    case.check(not c.is_equivalent(r3), "is_equivalent ignores a metadata difference")
    case.raises(ValueError, lambda: c.replace(value=r3), "replace with other metadata")
  case.raises(ValueError, lambda: c.replace(unknown_key=1), "unknown metadata key")
  u = rng.choice([x for x in gen.VAR_TYPES + gen.PLAIN_NODES if x is not t])
  other = u(v, **(md if issubclass(u, nnx.Variable) or "sharding" not in md else {}))
  case.check(not (other == c) and not c.is_equivalent(other), "type is part of equality")
  child = type("Child", (t,), {})(v, **md)
  case.check(not (child == c) and not (c == child) and child != c and c != child and
             not c.is_equivalent(child) and not child.is_equivalent(c),
             "a subclass is another type")
  case.raises(ValueError, lambda: c.replace(value=other), "replace with another type")
  case.raises(ValueError, lambda: u(c), "constructing one type from another")
  if not any(k in full for k in ("tag",)):
    case.raises(ValueError, lambda: t(c, tag="new"), "constructing with other metadata")
  same = t(c, **md)
  case.check(same == c and same is not c, "constructing from an equivalent container")
  case.check(c.is_equivalent(r), "is_equivalent ignores the value")
  case.eq(gen.fp(c), fp0, "the container changed")
  case.check(not (c == v), "a container is not its value")
  # copies by the standard library
  for how, e in (("copy", copy.copy), ("deepcopy", copy.deepcopy),
                 ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
    if how == "pickle" and not picklable(full):
      continue
    e = e(c)
    case.check(type(e) is t and e is not c, f"{how}: type")
    case.eq(gen.fp(vars(e)), gen.fp(vars(c)), f"{how}: value and metadata")
    case.event("container_op")
  # with_metadata initialisers
  init = nnx.with_metadata(lambda *a, **k: ("made", a, sorted(k.items())), **md)
  args, kw = rng.choice([((1, 2), {}), ((1,), {"dtype": "f"}), ((), {"shape": 3}), ((), {})])
  for _ in range(2):
    p = t(init(*args, **kw))
    case.eq(gen.fp(p), gen.fp(t(("made", args, sorted(kw.items())), **md)),
            "metadata from with_metadata")
  case.event("container_op", 10)
  case.sig(t.__name__, sorted(md), type(v).__name__, u.__name__)


FAMILIES = {
    "history": dict(fn=history, quick=900),
    "sow": dict(fn=sow, quick=300),
    "mutable_leaves": dict(fn=mutable_leaves, quick=400),
    "containers": dict(fn=containers, quick=400),
}
